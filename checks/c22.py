"""C22: which files a dictionary uses."""
import importlib
import json
import os
import shutil
import sys
import warnings
from pathlib import Path

from rt import cli, sut
from rt.core import expect
from sudachipy.dictionary import Dictionary

ID = 'C22'
LEVEL = 'exploration'
QUICK, THOROUGH = 800, 15000
RULE = ('a tree of directories (of the setting file, resource directory, working directory, installed dictionary packages) that all have files of the same names '
        'with different contents; random settings (relative, nested, absolute paths; absent and empty entries; dict_type; relative and Path arguments) open '
        'several dictionaries per case; which file each one uses is observed in its analyses, at once and after others were opened and the working directory '
        'changed; also through the command; non-trivial: distinct (arguments, settings, packages, files used)')
REQUIRE = {'opened': 1200, 'refused': 200, 'by_type': 300, 'warnings': 100, 'no_warning': 100, 'default_core': 100, 'default_config': 60, 'relative_config': 200, 'resource_dir': 300,
           'absolute_paths': 300, 'again_later': 1500, 'by_command': 300, 'ubuild_default': 20, 'ubuild_refused': 10, 'user_dictionaries': 300, 'links': 200, 'odd_names': 150}

PLACES = ['conf', 'conf/sub', 'res', 'res/sub', 'cwd', 'cwd/sub']
PACKAGES = ['small', 'core', 'full']
# names of the directory that the places call sub
SUBS = ['sub', 'sub', 'sub', '$HOME', '${HOME}x', '~', '~root', '%APPDATA%', '%s', 'a b', '[ab]*', '#1', '下', '-r', '{0}', 'sudachidict_core', 'sudachidict_full', 'my_sudachidict_small_old']
SYSTEMS = PLACES + PACKAGES
LETTERS = 'さしすせそた'
LENGTHS = [1, 2, 3, 4, 6, 12]
N, P = '名詞', ('*',) * 4


def setup(ctx):
    ctx.state['server'] = cli.Server(ctx.scratch)
    base = os.path.join(str(ctx.scratch), 'files')
    os.makedirs(base)
    matrix = sut.write(os.path.join(base, 'm.def'), '1 1\n0 0 0\n')
    rows = ['名,0,0,9000,名,名詞,普通名詞,一般,*,*,*,メイ,名,*,A,*,*,*,*', '一,0,0,9000,一,名詞,数詞,*,*,*,*,イチ,一,*,A,*,*,*,*',
            '。,0,0,9000,。,補助記号,一般,*,*,*,*,キゴウ,。,*,A,*,*,*,*']
    for k in range(len(PLACES)):
        for p in ('未知', '英字'):
            rows.append('種%s%d,-1,0,0,種,%s,%d,*,*,*,*,シュ,種,*,A,*,*,*,*' % (p, k, p, k))
    for k, name in enumerate(SYSTEMS):
        lex = sut.write(os.path.join(base, 's.csv'), '\n'.join(rows + ['印,0,0,-5000,印,名詞,普通名詞,一般,*,*,*,%s,印,*,A,*,*,*,*' % name]) + '\n')
        sut.build_system(os.path.join(base, 'sys%d' % k), [lex], matrix)
    for k, name in enumerate(PLACES):
        lex = sut.write(os.path.join(base, 'u.csv'), '使%d,0,0,-5000,使%d,名詞,普通名詞,一般,*,*,*,%s,使%d,*,A,*,*,*,*\n' % (k, k, name, k))
        sut.build_user(os.path.join(base, 'user%d' % k), [lex], os.path.join(base, 'sys0'))
    ctx.state['base'] = base


def finish(ctx):
    ctx.state['server'].close()


def conf_symbol(k):
    return '設定' + 'アイウエオカキクケコ'[k]


def identify(dic):
    """What the dictionary uses, seen in its analyses."""
    tok = dic.create()
    out = {'system': tok.tokenize('印')[0].reading_form()}
    chars = []
    for k, ch in enumerate(LETTERS):
        m = tok.tokenize(ch)[0]
        if m.part_of_speech()[0] == '英字':
            chars.append(PLACES[k])
        unk = m.part_of_speech()[1]
    out['char'] = chars
    out['unk'] = PLACES[int(unk)]
    n = len(tok.tokenize('ヰ' * 12))
    out['mecab_char'] = [p for p, l in zip(PLACES, LENGTHS) if 12 // l == n]
    users = {}
    for k, name in enumerate(PLACES):
        m = tok.tokenize('使%d' % k)[0]
        if not m.is_oov():
            users[m.dictionary_id()] = m.reading_form()
    out['users'] = [users[k] for k in sorted(users)]
    out['conf'] = ''.join(m.normalized_form() for m in tok.tokenize('〜〜'))
    return out


def purge():
    for name in [m for m in sys.modules if m.startswith('sudachidict_')]:
        del sys.modules[name]
    importlib.invalidate_caches()


def there(sub, place):
    return place.replace('/sub', '/' + sub)


def case(ctx, rng, i):
    base = ctx.state['base']
    top = os.path.realpath(ctx.dir)
    sub = rng.choice(SUBS)
    if sub != 'sub':
        ctx.count('odd_names')
    for k, p in enumerate(PLACES):
        d = os.path.join(top, there(sub, p))
        os.makedirs(d, exist_ok=True)
        os.link(os.path.join(base, 'sys%d' % k), os.path.join(d, 'system.dic'))
        os.link(os.path.join(base, 'user%d' % k), os.path.join(d, 'user.dic'))
        sut.write(os.path.join(d, 'char.def'), 'DEFAULT 1 0 %d\nALPHA 1 1 0\nKANJI 0 0 2\n0x%X ALPHA\n0x5370 KANJI\n' % (LENGTHS[k], ord(LETTERS[k])))
        sut.write(os.path.join(d, 'unk.def'), 'DEFAULT,0,0,100,未知,%d,*,*,*,*\nALPHA,0,0,100,英字,%d,*,*,*,*\n' % (k, k))
    for d in ('conf', 'res', 'cwd'):
        for to in ('conf', 'res', 'cwd'):
            os.symlink(os.path.join('..', to, sub), os.path.join(top, d, 'zu-' + to))
    pkg = os.path.join(top, 'packages')
    installed = [p for p in PACKAGES if rng.random() < 0.65]
    for p in installed:
        d = os.path.join(pkg, 'sudachidict_' + p, 'resources')
        os.makedirs(d)
        sut.write(os.path.join(pkg, 'sudachidict_' + p, '__init__.py'), '')
        os.link(os.path.join(base, 'sys%d' % SYSTEMS.index(p)), os.path.join(d, 'system.dic'))
    ctx.note(installed=installed, sub=sub)
    here = os.getcwd()
    sys.path.insert(0, pkg)
    purge()
    opened = []
    try:
        os.chdir(os.path.join(top, 'cwd'))
        for n in range(rng.randint(2, 7)):
            ctx.count('evaluations')
            attempt(ctx, rng, top, installed, opened, n, pkg, sub)
            for k in rng.sample(range(len(opened)), min(2, len(opened))):
                dic, want, what = opened[k]
                elsewhere = rng.random() < 0.5
                if elsewhere:
                    os.chdir('/')
                got = identify(dic)
                os.chdir(os.path.join(top, 'cwd'))
                expect(got == want, '%r uses, after others were opened, %r, expected %r', what, got, want)
                ctx.count('again_later')
        ubuild(ctx, rng, top, installed, pkg)
    finally:
        os.chdir(here)
        sys.path.remove(pkg)
        purge()


def attempt(ctx, rng, top, installed, opened, n, pkg, sub):
    where = rng.choice(['conf', 'conf', 'cwd', 'res'])
    res = rng.choice([None, None, 'res', 'conf', 'cwd'])
    name = 'sudachi%d.json' % n
    place = res or where

    def path(file):
        """(path in the settings, the place it denotes)"""
        r = rng.random()
        if r < 0.4:
            return file, place
        if r < 0.55:
            return sub + '/' + file, place + '/sub'
        if r < 0.62:
            # through a link to a directory elsewhere, and back out of that directory
            link = rng.choice(['res', 'conf', 'cwd'])
            ctx.count('links')
            return ('zu-%s/../%s' % (link, file), link) if rng.random() < 0.7 else ('zu-%s/%s' % (link, file), link + '/sub')
        if r < 0.72:
            other = rng.choice(['conf', 'res', 'cwd'])
            return '../%s/%s' % (other, file), other
        ctx.count('absolute_paths')
        p = rng.choice(PLACES)
        return os.path.join(top, there(sub, p), file), p

    want = {}
    settings = {}
    r = rng.random()
    sysname, sysplace = None, None
    if r < 0.65:
        sysname, sysplace = path('system.dic')
        if rng.random() < 0.15 and installed:
            # a path that names a package
            p = rng.choice(installed)
            sysname, sysplace = os.path.join(pkg, 'sudachidict_' + p, 'resources', 'system.dic'), p
        settings['systemDict'] = sysname
    elif r < 0.8:
        settings['systemDict'] = rng.choice(['', None])
    settings['characterDefinitionFile'], cplace = path('char.def')
    mecab = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin'}
    mecab['charDef'], mplace = path('char.def')
    mecab['unkDef'], uplace = path('unk.def')
    settings['inputTextPlugin'] = [{'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin', 'prolongedSoundMarks': ['〜'],
                                    'replacementSymbol': conf_symbol(n)}]
    settings['oovProviderPlugin'] = [mecab, {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': ['補助記号', '一般', '*', '*', '*', '*'],
                                             'leftId': 0, 'rightId': 0, 'cost': 20000}]
    users = []
    if rng.random() < 0.6:
        settings['userDict'] = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            u, p = path('user.dic')
            if p not in users:
                settings['userDict'].append(u)
                users.append(p)
                ctx.count('user_dictionaries')
    with open(os.path.join(top, where, name), 'w', encoding='utf-8') as f:
        json.dump(settings, f, ensure_ascii=rng.random() < 0.5)
    want.update(char=[cplace], mecab_char=[mplace], unk=uplace, users=users, conf=conf_symbol(n))
    conf = os.path.join(top, where, name)
    default = rng.random() < 0.1
    if default:
        # the settings of the package, with the definitions of a resource directory (or its own)
        conf, settings, sysname = None, {}, None
        res = rng.choice(['res', 'conf', 'cwd'])
        want = dict(char=[res], mecab_char=[res], unk=res, users=[], conf='ー')
    args = {}
    if conf is not None:
        r = rng.random()
        if r < 0.35:
            conf = os.path.join('..', where, name) if where != 'cwd' or rng.random() < 0.3 else rng.choice([name, './' + name])
            ctx.count('relative_config')
        elif r < 0.5:
            conf = Path(conf)
        args['config_path'] = conf
    if res:
        r = os.path.join(top, res)
        args['resource_dir'] = r if rng.random() < 0.6 else rng.choice([os.path.relpath(r), os.path.join('..', res)])
        ctx.count('resource_dir')
    kind = rng.choice([None, None, 'small', 'core', 'full', 'other'])
    if 'sudachidict_' in sub and rng.random() < 0.5:
        kind = next(p for p in PACKAGES if p in sub)
    if kind == 'other':
        kind = rng.choice(['', 'large', 'Core', 'core ', 'system.dic', 'sudachidict_core', 1, 'all'])
    if kind is not None:
        args['dict_type'] = kind
    error = None
    if kind is None:
        want['system'] = sysplace if sysname else 'core'
        if not sysname:
            ctx.count('default_core')
            error = None if 'core' in installed else 'the core dictionary is not installed'
    elif kind in PACKAGES:
        want['system'] = kind
        ctx.count('by_type')
        error = None if kind in installed else 'the %s dictionary is not installed' % kind
    else:
        error = '%r is no type of dictionary' % (kind,)
    warn = kind in PACKAGES and bool(sysname) and 'sudachidict_' + kind not in sysname
    if error is None and rng.random() < 0.07 and not default:
        # one of the files is missing
        bad = rng.choice(['characterDefinitionFile', 'unkDef', 'charDef'] + (['userDict'] if users else []) + (['systemDict'] if sysname and kind is None else []))
        if bad in ('unkDef', 'charDef'):
            mecab[bad] += '.none'
        elif bad == 'userDict':
            k = rng.randrange(len(users))
            settings[bad][k] += '.none'
        else:
            settings[bad] += '.none'
        with open(os.path.join(top, where, name), 'w', encoding='utf-8') as f:
            json.dump(settings, f)
        error = bad
    ctx.note(args={k: str(v) for k, v in args.items()}, settings=settings)
    what = (args, settings)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            dic = Dictionary(**args)
        except Exception as e:
            dic = None
            failure = e
    if error:
        expect(dic is None, '%r is opened, although: %s', what, error)
        ctx.count('refused')
        ctx.distinct('refused', error, sorted(args), str(kind))
    else:
        expect(dic is not None, '%r cannot be opened: %r', what, None if dic else failure)
        said = [w for w in caught if 'sudachidict_' in str(w.message)]
        expect(bool(said) == warn or 'sudachidict_' in sub, '%r gives the warnings %r, %s expected', what, [str(w.message) for w in said], 'one' if warn else 'none')
        if kind in PACKAGES:
            ctx.count('warnings' if warn else 'no_warning')
        got = identify(dic)
        expect(got == want, '%r uses %r, expected %r', what, got, want)
        ctx.count('opened')
        if default:
            ctx.count('default_config')
        opened.append((dic, want, what))
        ctx.distinct(sorted(str(x) for x in args.items()), sorted(installed), json.dumps(settings, sort_keys=True).replace(top, ''), repr(got))
        ctx.sample({'arguments': {k: str(v).replace(top, '') for k, v in args.items()}, 'settings': settings, 'uses': got})
    # the same through the command (which takes the directory of the setting file)
    if not default and res is None and (kind is None or kind in PACKAGES):
        argv = ['-r', str(conf)] + (['-s', kind] if kind else []) + ['-a']
        r = ctx.state['server'].run(argv, os.path.join(top, 'cwd'), '印\n〜〜\n'.encode(), [pkg])
        ctx.count('by_command')
        if error:
            expect(r.rc != 0 and b'EOS' not in r.out, 'the command %r prints %r, although: %s', argv, r.out, error)
        else:
            expect(r.rc == 0, 'the command %r fails: %s', argv, r.err.decode(errors='replace')[-800:])
            lines = r.out.decode().split('\n')
            got = lines[0].split('\t')[4], ''.join(x.split('\t')[2] for x in lines[2:-2])
            expect(got == (want['system'], want['conf']), 'the command %r uses %r, expected %r', argv, got, (want['system'], want['conf']))


def ubuild(ctx, rng, top, installed, pkg):
    """A user dictionary is built against the core dictionary when none is named."""
    csv = sut.write(os.path.join(top, 'cwd', 'new.csv'), '新語,0,0,-9000,新語,名詞,普通名詞,一般,*,*,*,シンゴ,新語,*,C,印,名詞,普通名詞,一般,*,*,*,core,*,*,*\n'.replace(
        'C,印,名詞,普通名詞,一般,*,*,*,core', 'C,"印,名詞,普通名詞,一般,*,*,*,core"'))
    out = os.path.join(top, 'cwd', 'new.dic')
    named = rng.random() < 0.4
    argv = ['ubuild', '-o', 'new.dic', 'new.csv']
    if named:
        place = rng.choice(PACKAGES[:1] + ['conf', 'cwd'])
        src = os.path.join(top, 'conf', 'system.dic')
        argv += ['-s', src]
    r = ctx.state['server'].run(argv, os.path.join(top, 'cwd'), b'', [pkg])
    ctx.note(argv=argv)
    if named or 'core' not in installed:
        # the unit of the new word is found only in the core dictionary
        expect(r.rc != 0, 'the command %r builds against another dictionary than %s', argv, 'the one named' if named else 'the missing core')
        ctx.count('ubuild_refused')
    else:
        expect(r.rc == 0 and os.path.exists(out), 'the command %r fails: %s', argv, r.err.decode(errors='replace')[-800:])
        ctx.count('ubuild_default')
    if os.path.exists(out):
        os.unlink(out)
