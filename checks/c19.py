"""C19: sources with a defect are refused."""
import io
import os

from rt import gen, sut
from rt.core import expect
from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder

ID = 'C19'
LEVEL = 'exploration'
QUICK, THOROUGH = 700, 20000
RULE = ('random valid sources of system and user dictionaries, each mutated with every defect of a catalogue at a random row or matrix line (first, last, any), in any of '
        'their files; the sources are also built without the defect and with the value just inside each limit, which must succeed; non-trivial: '
        'distinct (defect, kind of dictionary, row, number of rows)')


def row(rng, s, **kw):
    """A valid row of its own, as a list."""
    head = kw.get('head', '新')
    return [head, 0, 0, 0, kw.get('surface', head), *kw.get('pos', gen.POS_OOV), kw.get('reading', head), kw.get('norm', head), kw.get('dform', '*'),
            kw.get('mode', 'C'), kw.get('a', '*'), kw.get('b', '*'), kw.get('c', '*'), kw.get('syn', '*')]


def with_cols(r, **cols):
    r = list(r)
    for k, v in cols.items():
        r[int(k[1:])] = v
    return r


def defects(rng, s, user, n_sys, n_own):
    """(name, row); the row takes part in a dictionary that then has n_own + 1 words"""
    r = row(rng, s)
    total = n_own + 1
    out = [
        ('17 columns', r[:17]), ('16 columns', r[:16]), ('14 columns', r[:14]), ('5 columns', r[:5]), ('1 column', r[:1]), ('no columns', []),
        ('empty headword', with_cols(r, c0='')),
        ('left ID not a number', with_cols(r, c1='x')), ('right ID not a number', with_cols(r, c2='')), ('cost not a number', with_cols(r, c3='1.5')),
        ('left ID too large', with_cols(r, c1=32768)), ('right ID too large', with_cols(r, c2=32768)), ('cost too large', with_cols(r, c3=32768)),
        ('left ID too small', with_cols(r, c1=-32769)), ('right ID too small', with_cols(r, c2=-32769)), ('cost too small', with_cols(r, c3=-32769)),
        ('dictionary form not a number', with_cols(r, c13='x')), ('dictionary form is a U-ID', with_cols(r, c13='U0')),
        ('dictionary form one beyond', with_cols(r, c13=total)), ('dictionary form beyond', with_cols(r, c13=total + rng.randrange(1, 10 ** 6))),
        ('dictionary form beyond 32 bits', with_cols(r, c13=2 ** 31 + rng.randrange(5))),
        ('A-mode word with A units', with_cols(r, c14='A', c15='0/0')), ('A-mode word with B units', with_cols(r, c14='A', c16='0/0')),
        ('part of speech with a comma', with_cols(r, **{'c%d' % rng.randrange(5, 11): rng.choice([',', 'あ,い', '*,', '\\u002c'])})),
        ('synonym group not a number', with_cols(r, c18=rng.choice(['x', '1/', '/1', '1//2', '1/x', '1,2']))),
        ('128 synonym groups', with_cols(r, c18='/'.join(['1'] * 128))), ('synonym group beyond 32 bits', with_cols(r, c18=str(2 ** 31))),
        ('headword of 32768 bytes', with_cols(r, c0='x' * 32768)), ('headword of 32769 bytes, 10923 characters', with_cols(r, c0='あ' * 10923)),
    ]
    for k, name in ((4, 'surface'), (11, 'reading'), (12, 'normalized form')):
        out.append(('%s of 32768 characters' % name, with_cols(r, **{'c%d' % k: 'あ' * 32768})))
        out.append(('%s of 32768 units' % name, with_cols(r, **{'c%d' % k: '𠮟' * 16384})))
    out.append(('part of speech of 32768 characters', with_cols(r, **{'c%d' % rng.randrange(5, 11): 'x' * 32768})))
    limit = n_sys if user else total
    for k, name in ((15, 'A'), (16, 'B'), (17, 'word structure')):
        c = 'c%d' % k

        def units(x):
            """x among valid units"""
            us = ['0'] * rng.randint(0, 3)
            us.insert(rng.randint(0, len(us)), x)
            return '/'.join(us)

        out += [
            ('%s: ID one beyond' % name, with_cols(r, **{c: units(str(limit))})),
            ('%s: ID beyond' % name, with_cols(r, **{c: units(str(limit + rng.randrange(1, 10 ** 5)))})),
            ('%s: U-ID one beyond' % name, with_cols(r, **{c: units('U%d' % total)})),
            ('%s: U-ID beyond' % name, with_cols(r, **{c: units('U%d' % (total + rng.choice([1, 1000, 2 ** 28 - total, 2 ** 29 - total, 2 ** 31])))})),
            ('%s: negative ID' % name, with_cols(r, **{c: units('-1')})),
            ('%s: empty unit' % name, with_cols(r, **{c: rng.choice(['', '0/', '/0', '0//0'])})),
            ('%s: not an ID' % name, with_cols(r, **{c: units(rng.choice(['x', 'U', 'V1', '1U', '0x1', '新']))})),
            ('%s: 128 units' % name, with_cols(r, **{c: '/'.join(['0'] * 128)})),
            ('%s: 300 units' % name, with_cols(r, **{c: '/'.join(['0'] * 300)})),
            ('%s: unknown word' % name, with_cols(r, **{c: units(','.join(['無い語', *gen.POS_OOV, '無い語']))})),
            ('%s: unknown part of speech' % name, with_cols(r, **{c: units(','.join(['新', '無', '*', '*', '*', '*', '*', '新']))})),
            ('%s: other reading' % name, with_cols(r, **{c: units(','.join(['新', *gen.POS_OOV, 'ナイヨミ']))})),
            ('%s: other part of speech' % name, with_cols(r, **{c: units(','.join(['新', *gen.POS_NUM, '新']))})),
            ('%s: 7 columns' % name, with_cols(r, **{c: units(','.join(['新', *gen.POS_OOV]))})),
        ]
    return out


def valid(rng, n_sys, n_own, user):
    r = row(rng, None)
    total = n_own + 1
    limit = n_sys if user else total
    return [
        with_cols(r, c1=32767 if rng.random() < .5 else 0, c3=32767), with_cols(r, c3=-32768), with_cols(r, c13=total - 1), with_cols(r, c13=0),
        with_cols(r, c15='/'.join(['0'] * 127)), with_cols(r, c16='%d/U%d' % (limit - 1, total - 1)), with_cols(r, c17='U%d' % (total - 1)),
        with_cols(r, c18='/'.join(['1'] * 127)), with_cols(r, c18=str(2 ** 31 - 1)), with_cols(r, c0='x' * 32767), with_cols(r, c4='あ' * 32767),
        with_cols(r, c11='𠮟' * 16383), with_cols(r, c12='x' * 32767), r[:18], r + ['more', 'columns'], with_cols(r, c0='あ' * 10922),
        with_cols(r, c15='/'.join([','.join(['新', *gen.POS_OOV, '新'])] * 2)), with_cols(r, c14='A'), with_cols(r, c5='x' * 32767),
    ]


def matrix_defects(rng, s):
    l, r = s.lsize, s.rsize
    return [
        ('empty matrix', ''), ('blank matrix', '\n\n'), ('blank first line', '\n%d %d\n0 0 0\n' % (l, r)), ('one size', '%d\n' % l), ('three sizes', '%d %d 1\n' % (l, r)),
        ('size not a number', '%d x\n' % l), ('negative size', rng.choice(['-%d -%d\n' % (l, r), '-%d %d\n' % (l, r), '%d -%d\n' % (l, r)])),
        ('size too large', rng.choice(['32768 1\n', '1 32768\n'])),
    ], [
        ('left ID beyond', '%d 0 0' % l), ('right ID beyond', '0 %d 0' % r), ('left ID far beyond', '%d 0 0' % (l + rng.randrange(1, 1000))),
        ('right ID far beyond', '0 %d 0' % (r + rng.randrange(1, 1000))), ('negative left ID', '-1 0 0'), ('negative right ID', '0 -1 0'),
        ('cost too large', '0 0 32768'), ('cost too small', '0 0 -32769'), ('cost not a number', '0 0 x'), ('left ID not a number', 'x 0 0'),
        ('right ID not a number', '0 x 0'), ('cost with a fraction', '0 0 1.5'), ('four columns', '0 0 0 0'),
    ]


def attempt(user, grammar, lexicon, paths, matrix):
    """-> None when refused, else the file"""
    out = io.BytesIO()
    if user:
        out.write(bytes(272))
        UserDictionaryBuilder(grammar, lexicon, logger=sut.quiet).build(paths, None, out)
    else:
        out.write(bytes(272))
        with open(matrix, encoding='utf-8') as m:
            DictionaryBuilder(logger=sut.quiet).build(paths, m, out)
    return out.getvalue()


def case(ctx, rng, i):
    user = i % 2 == 1
    s = gen.sources(rng, users=1, n_words=rng.choice([0, 2, 8]), composites=2, mecab=False, max_ids=4)
    ctx.note(sources=s.as_json(), user=user)
    sut.write_sources(ctx.dir, s)
    grammar = lexicon = None
    lex = s.userlex[0] if user else s.syslex
    n_sys = len(s.syslex.rows)
    if user:
        path = sut.build_system(os.path.join(ctx.dir, 'system.dic'), s.sys_paths, s.matrix_path)
        d = BinaryDictionary.from_system_dictionary(path)
        grammar, lexicon = d.grammar, d.lexicon
    rows = [list(r) for r in lex.rows]

    def paths_with(extra, at):
        all_rows = rows[:at] + [extra] + rows[at:]
        cut = rng.choice([0, len(all_rows), rng.randint(0, len(all_rows))])
        out = []
        for k, part in enumerate((all_rows[:cut], all_rows[cut:])):
            out.append(sut.write(os.path.join(ctx.dir, 'p%d.csv' % k), ''.join(gen.csv_text([x]) if x else '\n' for x in part)))
        return out

    ok = attempt(user, grammar, lexicon, s.user_paths[0] if user else s.sys_paths, s.matrix_path)
    expect(len(ok) > 272, 'nothing was built')
    for r in rng.sample(valid(rng, n_sys, len(rows), user), 4):
        ctx.note(row=[str(x)[:100] for x in r])
        attempt(user, grammar, lexicon, paths_with(r, len(rows)), s.matrix_path)
        ctx.count('valid')
    todo = defects(rng, s, user, n_sys, len(rows))
    for name, r in rng.sample(todo, 30):
        at = len(rows) if rng.random() < 0.4 else rng.choice([0, rng.randint(0, len(rows))])
        ctx.note(defect=name, at=at, row=[str(x)[:100] for x in r])
        ctx.count('evaluations')
        try:
            data = attempt(user, grammar, lexicon, paths_with(r, at), s.matrix_path)
        except Exception as e:
            ctx.count('refused')
            ctx.count('refused: ' + type(e).__name__)
            ctx.distinct(name, user, at, len(rows))
            continue
        expect(False, 'a %s dictionary with the defect "%s" in row %d of %d is built (%d bytes)', 'user' if user else 'system', name, at, len(rows) + 1, len(data))
    if not user:
        whole, lines = matrix_defects(rng, s)
        base = s.matrix.rstrip('\n').split('\n')
        texts = [(n, t) for n, t in whole]
        for n, l in lines:
            at = rng.randint(1, len(base))
            texts.append((n, '\n'.join(base[:at] + [l] + base[at:]) + '\n'))
        for name, text in texts:
            ctx.note(defect=name, matrix=text[:2000])
            ctx.count('evaluations')
            m = sut.write(os.path.join(ctx.dir, 'bad.def'), text)
            try:
                data = attempt(False, None, None, s.sys_paths, m)
            except Exception:
                ctx.count('refused')
                ctx.count('matrix_refused')
                ctx.distinct(name, len(base))
                continue
            expect(False, 'a matrix with the defect "%s" is built (%d bytes)', name, len(data))
        # 256 words of one headword
        r = row(rng, s)
        p = sut.write(os.path.join(ctx.dir, 'many.csv'), gen.csv_text(rows) + gen.csv_text([r]) * 256) if i % 20 == 0 else None
        if p:
            try:
                attempt(False, None, None, [p], s.matrix_path)
            except Exception:
                ctx.count('refused')
            else:
                expect(False, '256 words with one headword are accepted')
        for n, desc in ((257, 'x' * 257), (258, 'あ' * 86), (256 + rng.randrange(1, 500), None)):
            desc = desc or 'x' * n
            try:
                DictionaryHeader(SYSTEM_DICT_VERSION_2, 0, desc).to_bytes()
            except Exception:
                ctx.count('refused')
                continue
            expect(False, 'a description of %d bytes is accepted', n)
        h = DictionaryHeader(SYSTEM_DICT_VERSION_2, 0, 'x' * 256)
        b = h.to_bytes()
        expect(len(b) == 272 and DictionaryHeader.from_bytes(b, 0).description == 'x' * 256, 'a description of 256 bytes')
    ctx.sample({'user': user, 'rows': len(rows), 'defects': [n for n, _ in todo[:5]]})


REQUIRE = {'refused': 20000, 'valid': 2500, 'matrix_refused': 5000}
