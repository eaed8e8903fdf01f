"""C28: settings and definitions with a defect are refused."""
import json
import os

from rt import gen, sut
from rt.core import expect
from sudachipy.dictionary import Dictionary
from sudachipy.plugin.input_text.default_input_text_plugin import DefaultInputTextPlugin
from .common import make

ID = 'C28'
LEVEL = 'exploration'
QUICK, THOROUGH = 600, 15000
RULE = ('random complete settings and definitions (char.def, character properties, unk.def, rewrite.def), each mutated with every defect of a catalogue at a random line '
        'or entry (first, last, any) and opened, up to three times; the same with harmless changes, which must be accepted and give the same results; after failures the correct '
        'dictionary is opened again and compared with before; non-trivial: distinct (defect, position, number of lines)')
REQUIRE = {'refused': 20000, 'refused_again': 8000, 'accepted': 2500, 'opened_after_failures': 1500, 'settings': 5000, 'char.def': 3000, 'properties': 3000, 'unk.def': 3000, 'rewrite.def': 1500, 'files': 2000}
OOV, INPUT, PATH = 'oovProviderPlugin', 'inputTextPlugin', 'pathRewritePlugin'
CLASSES = {OOV: ['sudachipy.plugin.oov.MeCabOovProviderPlugin', 'sudachipy.plugin.oov.SimpleOovProviderPlugin'],
           INPUT: ['sudachipy.plugin.input_text.DefaultInputTextPlugin', 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin'],
           PATH: ['sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin']}


def insert(rng, text, line, lo=0):
    """A line among the others: first, last or anywhere."""
    lines = text.rstrip('\n').split('\n') if text.strip() else []
    at = rng.choice([lo, len(lines), rng.randint(min(lo, len(lines)), len(lines))])
    return '\n'.join(lines[:at] + [line] + lines[at:]) + rng.choice(['', '\n']), '%d of %d' % (at, len(lines))


def spoil(settings, f):
    s = json.loads(json.dumps(settings))
    f(s)
    return s


def with_entry(rng, settings, key, entry):
    s = json.loads(json.dumps(settings))
    entries = s.setdefault(key, [])
    entries.insert(rng.randint(0, len(entries)), entry)
    return s


def entry_of(settings, key, name):
    return next((e for e in settings.get(key, []) if e['class'].endswith(name)), None)


def setting_defects(rng, s):
    base = s.settings
    out = []
    for key in (OOV, INPUT, PATH):
        out.append(('%s: unknown class' % key, with_entry(rng, base, key, {'class': rng.choice(['', 'x', 'sudachipy.plugin.oov.Nothing', 'SimpleOovProviderPlugin',
                                                                                     'sudachipy.plugin.input_text.Defaultinputtextplugin'])})))
        right = rng.choice(CLASSES[key])
        package, _, name = right.rpartition('.')
        wrong = rng.choice(['mine.' + name, name, '.' + name, right + 'x', right + '.', ' ' + right, right + ' ', right.lower(), right.upper(), right[:-1], 'x' + right, right + ',',
                            package + '.', package, package + '.My' + name, package + '..' + name, package + '.' + name[1:], package.replace('sudachipy', 'sudachi') + '.' + name,
                            right.replace('sudachipy.', 'com.worksap.nlp.sudachi.'), package + '.' + name + '.' + name, package.replace('.', '/') + '.' + name, right + '\n', None, 1, [right],
                            package + '.' + name.replace('Plugin', '')])
        entry = dict(next((e for e in base.get(key, []) if e['class'] == right), {}))
        entry['class'] = wrong
        out.append(('%s: no name of a class' % key, with_entry(rng, base, key, entry)))
        out.append(('%s: no class' % key, with_entry(rng, base, key, rng.choice([{}, {'Class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin'},
                                                                                 {'name': 'x'}]))))
    out.append(('input plugin among OOV providers', with_entry(rng, base, OOV, {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'})))
    out.append(('OOV provider among input plugins', with_entry(rng, base, INPUT, entry_of(base, OOV, 'SimpleOovProviderPlugin'))))
    out.append(('path plugin among input plugins', with_entry(rng, base, INPUT, {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin'})))
    out.append(('input plugin among path plugins', with_entry(rng, base, PATH, {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'})))
    simple = entry_of(base, OOV, 'SimpleOovProviderPlugin')
    for k in ('leftId', 'rightId', 'cost', 'oovPOS'):
        out.append(('simple OOV provider without %s' % k, with_entry(rng, base, OOV, {a: b for a, b in simple.items() if a != k})))
    mecab = entry_of(base, OOV, 'MeCabOovProviderPlugin')
    for k in ('charDef', 'unkDef'):
        out.append(('MeCab OOV provider without %s' % k, with_entry(rng, base, OOV, {a: b for a, b in mecab.items() if a != k})))
        out.append(('MeCab OOV provider with missing %s' % k, with_entry(rng, base, OOV, dict(mecab, **{k: 'none.def'}))))
    kata = 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin'
    out.append(('katakana plugin without part of speech', with_entry(rng, base, PATH, {'class': kata})))
    out.append(('katakana plugin with an empty part of speech', with_entry(rng, base, PATH, {'class': kata, 'oovPOS': []})))
    out.append(('katakana plugin with an unknown part of speech',
                with_entry(rng, base, PATH, {'class': kata, 'oovPOS': rng.choice([['無'] * 6, list(gen.POS_OOV[:5]), list(gen.POS_OOV) + ['*'], list(reversed(gen.POS_OOV))])})))
    out.append(('no OOV provider', spoil(base, lambda c: c.pop(OOV))))
    out.append(('empty OOV providers', spoil(base, lambda c: c.update({OOV: []}))))
    out.append(('no character definition', spoil(base, lambda c: c.pop('characterDefinitionFile'))))
    out.append(('missing character definition', spoil(base, lambda c: c.update(characterDefinitionFile=rng.choice(['none.def', 'none/char.def'])))))
    out.append(('missing system dictionary', spoil(base, lambda c: c.update(systemDict='none.dic'))))
    users = base.get('userDict', [])
    at = rng.randint(0, len(users))
    out.append(('missing user dictionary', spoil(base, lambda c: c.update(userDict=users[:at] + ['none.dic'] + users[at:]))))
    out.append(('system dictionary as user dictionary', spoil(base, lambda c: c.update(userDict=users[:at] + ['system.dic'] + users[at:]))))
    out.append(('user dictionary as system dictionary', spoil(base, lambda c: c.update(systemDict='user0.dic'))))
    out.append(('16 user dictionaries', spoil(base, lambda c: c.update(userDict=['user0.dic'] * rng.choice([16, 17, 20])))))
    out.append(('something else as system dictionary', spoil(base, lambda c: c.update(systemDict=rng.choice(['char.def', 'lex0.csv'])))))
    return out


RANGE_DEFECTS = [('one column', ['0x0041', '0x0041..0x0045', 'DEFAULT', 'x']),
                 ('unknown category', ['0x0041 ALPHABET', '0x0041..0x0043 KANJI alpha', '0x3042 HIRAGANA KATAKANA NOTHING', '0x4E00 KANJI,KANJINUMERIC', '0x0041 0x0042',
                                       '0x10FFFF USER5', '0x0041 kanji # KANJI']),
                 ('reversed range', ['0x0042..0x0041 ALPHA', '0x0100..0x0001 KANJI', '0x10FFFF..0x0000 DEFAULT', '0x4E01..0x4E00 KANJI KANJINUMERIC']),
                 ('not a number', ['0xZZ ALPHA', '0x ALPHA', '0x0041..ZZ ALPHA', '0x0041.. ALPHA', '0x0041-0x0042 ALPHA', '0x0041.0x0042 ALPHA'])]
PROPERTY_DEFECTS = [('short', ['%s 1 1', '%s 1', '%s']), ('unknown category', ['NOTHING 1 1 2', 'alpha 0 0 0', '1 1 1 1', 'USER5 0 1 0', '%s, 1 1 1']),
                    ('length not a number', ['%s 1 1 x', '%s 0 0 1.5', '%s 0 1 #'])]
UNK_DEFECTS = [('short', ['%s,0,0,0,名詞,普通名詞,一般,*,*', '%s,0,0,0', '%s', '%s 0 0 0 名詞 普通名詞 一般 * * *']), ('unknown category', ['NOTHING,0,0,0,%p', 'alpha,0,0,0,%p', ',0,0,0,%p']),
               ('not a number', ['%s,x,0,0,%p', '%s,0,x,0,%p', '%s,0,0,x,%p', '%s,,0,0,%p', '%s,0,0,1.5,%p', '%s,0,0,,%p'])]
REWRITE_DEFECTS = [('three columns', ['a b c', 'あ い う え', 'x y #']), ('multi-character entry', ['ab', 'が゛', '12345'])]


def case(ctx, rng, i):
    s = make(ctx, rng, users=1, composites=2, n_words=rng.choice([1, 5]), mecab=True, plugins=rng.random() < 0.7, max_ids=3)
    good = sut.load(s)
    texts = [gen.text(rng, s.heads, 0, 6) for _ in range(4)]
    tok = good.create()
    # a text may have no path
    def results(t):
        out = []
        for text in texts:
            try:
                out.append(sut.views(t.tokenize(text)))
            except Exception as e:
                out.append(type(e).__name__)
        return out

    want = results(tok)
    bad_config = os.path.join(ctx.dir, 'bad.json')

    def attempt(kind, name, where, text=None, path=None):
        """Open with the settings; -> whether it was accepted"""
        if text is not None:
            sut.write(bad_config, text)
        ctx.count('evaluations')
        ctx.note(defect=(kind, name, where))
        # the first failure must not make a later attempt succeed
        times = rng.choice([1, 1, 2, 3])
        for k in range(times):
            try:
                d = Dictionary(config_path=path or bad_config, resource_dir=s.dir)
            except Exception as e:
                ctx.count('refused')
                ctx.count(kind)
                ctx.distinct(kind, name, where)
                if k:
                    ctx.count('refused_again')
                continue
            expect(False, 'the defect "%s" of the %s (%s) is accepted at attempt %d', name, kind, where, k + 1)

    def with_file(key, text):
        """The settings with another definition file."""
        c = json.loads(json.dumps(s.settings))
        sut.write(os.path.join(ctx.dir, 'bad.def'), text)
        if key == 'characterDefinitionFile':
            c[key] = 'bad.def'
        else:
            entry_of(c, OOV, 'MeCabOovProviderPlugin')[key] = 'bad.def'
        return json.dumps(c)

    for name, settings in setting_defects(rng, s):
        attempt('files' if 'issing' in name or 'dictionar' in name else 'settings', name, len(json.dumps(settings)), json.dumps(settings, ensure_ascii=rng.random() < 0.5))
    whole = json.dumps(s.settings)
    for _ in range(3):
        at = rng.randrange(len(whole))
        attempt('settings', 'not JSON', at, whole[:at])
    attempt('settings', 'not JSON', 'end', whole + rng.choice(['}', ']', 'x', ',{}']))
    attempt('files', 'missing setting file', '', path=os.path.join(ctx.dir, rng.choice(['none.json', 'none/x.json'])))
    for name, lines in RANGE_DEFECTS:
        for line in rng.sample(lines, 2):
            text, where = insert(rng, s.chardef, line)
            attempt('char.def', '%s: %s' % (name, line), where, with_file('characterDefinitionFile', text))
    defined = sorted(l.split()[0] for l in s.mecab_chardef.split('\n') if l.strip() and not l.startswith(('0x', '#')))
    absent = [c for c in gen.CATS + ['NOOOVBOW'] if c not in defined]
    for name, lines in PROPERTY_DEFECTS:
        for line in rng.sample(lines, 2):
            if '%s' in line:
                line = line % rng.choice(absent or defined)
            text, where = insert(rng, s.mecab_chardef, line)
            attempt('properties', '%s: %s' % (name, line), where, with_file('charDef', text))
    for line in ('%s 1 1 1', rng.choice(['%s 0 0 0', '%s 0 1 9 # again'])):
        text, where = insert(rng, s.mecab_chardef, line % rng.choice(defined))
        attempt('properties', 'defined twice: ' + line, where, with_file('charDef', text))
    pos = ','.join(gen.POS_OOV)
    for name, lines in UNK_DEFECTS:
        for line in rng.sample(lines, 2):
            line = line.replace('%s', rng.choice(defined)).replace('%p', pos)
            text, where = insert(rng, s.unk, line)
            attempt('unk.def', '%s: %s' % (name, line), where, with_file('unkDef', text))
    if absent:
        text, where = insert(rng, s.unk, '%s,0,0,0,%s' % (rng.choice(absent), pos))
        attempt('unk.def', 'category without properties', where, with_file('unkDef', text))
    # rewrite.def is part of the package: its reader is asked
    lines = rng.sample([l for l in sut.rewrite_text().split('\n') if l.strip() and not l.startswith('#')], rng.choice([0, 1, 5, 30]))
    rules = [l for l in lines if len(l.split()) == 2]
    bad = [(n, rng.choice(ls)) for n, ls in REWRITE_DEFECTS]
    if rules:
        bad += [('defined twice', rng.choice(rules)), ('defined twice', rng.choice(rules).split()[0] + ' x')]
    for name, line in bad:
        text, where = insert(rng, '\n'.join(lines), line)
        path = sut.write(os.path.join(ctx.dir, 'bad.def'), text)
        ctx.note(defect=('rewrite.def', name, line))
        ctx.count('evaluations')
        plugin = DefaultInputTextPlugin()
        for k in range(rng.choice([1, 2])):
            try:
                (plugin if rng.random() < 0.5 else DefaultInputTextPlugin()).read_rewrite_lists(path)
            except Exception:
                ctx.count('refused')
                ctx.count('rewrite.def')
                ctx.distinct('rewrite.def', line, where)
                continue
            expect(False, 'the defect "%s" of the rewrite.def (%r, %s) is accepted at attempt %d', name, line, where, k + 1)
    DefaultInputTextPlugin().read_rewrite_lists(sut.write(os.path.join(ctx.dir, 'good.def'), '\n'.join(lines) + '\n'))
    # what is not a defect
    for name, kind, text in (
            ('comment', 'characterDefinitionFile', insert(rng, s.chardef, rng.choice(['# 0x0041', '#', '   ', '']))[0]),
            ('category properties', 'characterDefinitionFile', insert(rng, s.chardef, 'ALPHA x')[0]),
            ('comment', 'charDef', insert(rng, s.mecab_chardef, rng.choice(['# ALPHA', '#', '  ', '', '0x0041 ALPHA']))[0]),
            ('further column', 'unkDef', ''.join(l + ',more\n' for l in s.unk.split('\n') if l.strip())),
            ('blank line', 'unkDef', insert(rng, s.unk, rng.choice(['', '  ']))[0])):
        sut.write(bad_config, with_file(kind, text))
        ctx.note(harmless=(kind, name))
        d = Dictionary(config_path=bad_config, resource_dir=s.dir)
        got = results(d.create())
        expect(got == want, 'with a harmless change (%s of %s) the results for %r differ:\n%r\n%r', name, kind, texts, got, want)
        ctx.count('accepted')
    again = sut.load(s)
    expect(results(again.create()) == want, 'after failures to open, the correct dictionary gives other results for %r', texts)
    expect(results(tok) == want and results(good.create()) == want, 'after failures to open, a dictionary opened before gives other results for %r', texts)
    ctx.count('opened_after_failures', 3)
    ctx.sample({'defects': [n for n, _ in setting_defects(rng, s)][:6], 'lines of char.def': s.chardef.count('\n')})
