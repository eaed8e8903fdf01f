"""C06: the default input text plugin: what it makes of a text, and where every character comes from."""
import os

from rt import gen, model, sut
from rt.core import expect
from .common import compare_input, plain_grammar
from sudachipy.plugin.input_text import DefaultInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder

ID = 'C06'
LEVEL = 'exploration'
SWEEP = 544          # cases that sweep all code points
QUICK, THOROUGH = SWEEP + 1500, SWEEP + 60000
RULE = ('all code points (each among its neighbours) with the shipped definition; random definitions with overlapping keys and random texts '
        'full of their keys; texts through a whole analysis; compared character by character with a reference; non-trivial: at least one '
        'replacement, distinct by text and result')
REQUIRE = {'code_points': 1112064, 'rewritten': 5000, 'longer': 1000, 'shorter': 1000, 'definitions': 500, 'analyses': 1000, 'long_texts': 60, 'long_keys': 500}


def judge(ctx, plugin, ref, grammar, text, what):
    b = UTF8InputTextBuilder(text, grammar)
    plugin.rewrite(b)
    edits = ref.edits(text)
    t = model.MText(text).apply(edits).finish(ctx.state['cd'])
    compare_input(b.build(), t, what)
    ctx.count('evaluations')
    if edits:
        ctx.count('rewritten')
        for x, y, new in edits:
            ctx.count('longer' if len(new) > y - x else 'shorter' if len(new) < y - x else 'same_length')
        ctx.distinct(text, t.chars)
    return t


def setup(ctx):
    ctx.state['cd'] = model.CharDef('0x0041..0x005A ALPHA\n')
    ctx.state['ref'] = model.Rewrite(sut.rewrite_text())
    ctx.state['plugin'] = p = DefaultInputTextPlugin()
    p.set_up()


def sweep(ctx, i):
    grammar = plain_grammar(ctx, '0x0041..0x005A ALPHA\n')
    n = 0x110000 // SWEEP + 1
    cps = [c for c in range(i * n, min((i + 1) * n, 0x110000)) if not 0xd800 <= c < 0xe000]
    for k in range(0, len(cps), 64):
        judge(ctx, ctx.state['plugin'], ctx.state['ref'], grammar, ''.join(map(chr, cps[k:k + 64])), 'shipped definition')
    ctx.count('code_points', len(cps))


def random_definition(rng):
    chars = [rng.choice(rng.choice(gen.POOLS)) for _ in range(rng.randint(2, 7))] + [gen.any_char(rng)]
    chars = [c for c in chars if not c.isspace() and c not in '#\x00\x1c\x1d\x1e\x1f\x85' and c.split() == [c]] or ['a']
    keys = {}
    for _ in range(rng.randint(0, 12)):
        k = ''.join(rng.choice(chars) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 1, 2, 2, 3, rng.randint(5, 40), rng.choice([64, 100, 129, 257, 300])])))
        v = ''.join(rng.choice(chars + ['x', 'が', '𠮟']) for _ in range(rng.choice([1, 1, 2, 3, 5, 1, 1, 2, 3, rng.choice([16, 40, 100, 257, 300])])))
        if rng.random() < 0.08:
            # a number sign makes a comment only at the begin of a line
            k = k + rng.choice(['#', '#' + rng.choice(chars)])
        if rng.random() < 0.08:
            v = rng.choice([v + '#', '#' + v, '#'])
        keys.setdefault(k, v)
    ignore = set()
    for _ in range(rng.randint(0, 6)):
        c = rng.choice(chars + list('ⅲⅷ㍿ａｶー①') + [rng.choice(rng.choice(gen.POOLS))])
        if c.split() == [c] and c != '#':
            ignore.add(rng.choice([c, c.lower()[:1]]))
    lines = ['%s%s%s' % (k, rng.choice([' ', '\t', '  ', '\u3000']), v) for k, v in keys.items()] + sorted(ignore)
    rng.shuffle(lines)
    for _ in range(rng.randint(0, 3)):
        lines.insert(rng.randint(0, len(lines)), rng.choice(['', '# a b c d', '   ', '#x']))
    return '\n'.join(lines) + rng.choice(['', '\n']), chars, list(keys), sorted(ignore)


def case(ctx, rng, i):
    if i < SWEEP:
        return sweep(ctx, i)
    text, chars, keys, ignore = random_definition(rng)
    ctx.note(definition=text)
    path = sut.write(os.path.join(ctx.dir, 'rewrite.def'), text)
    plugin = DefaultInputTextPlugin()
    plugin.read_rewrite_lists(path)
    ref = model.Rewrite(text)
    ctx.count('definitions')
    grammar = plain_grammar(ctx, '0x0041..0x005A ALPHA\n')
    for _ in range(25):
        parts = []
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            if keys and r < 0.4:
                k = rng.choice(keys)
                parts.append(rng.choice([k, k, k[:-1], k[1:], k.upper()]))
            elif r < 0.6:
                parts.append(rng.choice(chars))
            elif ignore and r < 0.7:
                c = rng.choice(ignore)
                parts.append(rng.choice([c, c.upper()]))
            else:
                parts.append(gen.text(rng, (), 0, 2, 0.3))
        s = ''.join(parts)
        ctx.note(text=s)
        judge(ctx, plugin, ref, grammar, s, 'random definition')
        ctx.count('long_keys', any(len(k) > 16 and k in s for k in keys))
    if i % 16 == 3:
        # what is replaced at the end of a long text
        filler = rng.choice(['あ', '漢a', '\u3042\u3044𠮟'])
        s = rng.choice(['', s]) + filler * (rng.choice([1100, 2100, 5000, 9000] + [33000, 66000] * (i % 160 == 3)) // len(filler)) + s + (rng.choice(keys) if keys else 'Ａ') + 'ｶﾞＡあ'
        ctx.note(text=None, filler=filler, length=len(s))
        judge(ctx, plugin, ref, grammar, s, 'random definition')
        ctx.count('long_texts')
        ctx.peak('longest', len(s))
    if i % 4 == 0:
        s = gen.sources(rng, default_plugin=True, psm=False, n_words=5)
        sut.materialise(ctx.dir, s)
        dic = sut.load(s)
        before, _ = sut.watch(dic)
        tok = dic.create()
        cd = model.CharDef(s.chardef)
        for _ in range(15):
            text = gen.text(rng, s.heads + ['か\u3099', 'ｶﾞ', 'ヴ', 'う\u3099', 'ﾊﾟ', 'Ⅲ', 'ΑΣ', '㍿', 'İ'], 1, 10, 0.2)
            if not text:
                continue
            ctx.note(text=text)
            tok.tokenize(text)
            t = model.MText(text).apply(ctx.state['ref'].edits(text)).finish(cd)
            compare_input(before.text, t, 'analysis')
            ctx.count('analyses')
            if t.chars != text:
                ctx.sample({'text': text, 'rewritten': t.chars, 'origin': t.origin})
