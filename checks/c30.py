"""C30: the work of an analysis grows in proportion to its text, and does not depend on the size of the dictionary or on what was analysed before."""
import ctypes
import gc
import logging
import re
import sys

from rt import gen, sut
from rt.core import Violation, expect
from . import c11, c12, c13

ID = 'C30'
LEVEL = 'exploration'
FLAVOUR = 'count'
CASE_CPU = 200
QUICK, THOROUGH = 120, 4000
RULE = ('steps are counted, not time: lines, calls, jumps and branches of Python code by sys.monitoring and basic blocks of the native code by '
        '-fsanitize-coverage=trace-pc; a text of k copies of a passage against one of 4k copies, reading and splitting the result, a text on a new and on a used '
        'tokenizer, the bytes of a text that lookups copy, a dictionary of n words against one of many more, sources of n rows against 4n rows; non-trivial: a comparison with more steps for '
        'more input, distinct by passage and world')
REQUIRE = {'texts_compared': 300, 'native_steps': 10 ** 7, 'python_steps': 10 ** 7, 'reads_compared': 200, 'after_long_texts': 100, 'larger_dictionaries': 10, 'lookups_copying': 1500, 'builds_compared': 10,
           'dumped': 20}
ASSUMPTIONS = ['What a call of the interpreter or of dartsclone does inside (copying a string, searching a list) is one step.']
TOOL = 3
dump = logging.getLogger('verif.dump30')
dump.propagate = False
dump.setLevel(logging.DEBUG)


class Sink(logging.Handler):
    def emit(self, record):
        record.getMessage()


dump.addHandler(Sink())
steps = 0


def one(*args):
    global steps
    steps += 1


def setup(ctx):
    mon = sys.monitoring
    e = mon.events
    mon.use_tool_id(TOOL, 'verif')
    for ev in (e.LINE, e.PY_START, e.CALL, e.JUMP, e.BRANCH):
        mon.register_callback(TOOL, ev, one)
    ctx.events = e.LINE | e.PY_START | e.CALL | e.JUMP | e.BRANCH
    ctx.native = ctypes.CDLL(None).verif_native_steps
    ctx.native.restype = ctypes.c_ulonglong
    ctx.native.argtypes = []


def count(ctx, f):
    """-> (steps of Python code, steps of native code, result)"""
    global steps
    gc.collect()
    gc.disable()        # its work is not that of the analysis
    steps = 0
    before = ctx.native()
    sys.monitoring.set_events(TOOL, ctx.events)
    try:
        r = f()
    finally:
        sys.monitoring.set_events(TOOL, 0)
        gc.enable()
    py, native = steps, ctx.native() - before
    ctx.count('python_steps', py)
    ctx.count('native_steps', native)
    return py, native, r


def grows(what, small, large, factor, slack):
    for kind, a, b in (('Python', small[0], large[0]), ('native', small[1], large[1])):
        expect(b <= factor * a + slack, '%s: %d %s steps, then %d: more than %.2f times as many', what, a, kind, b, factor)


KNOWN = 'JoinNumericPlugin begins again at every second word of a number that it does not join for the part of speech of its first word'


class Counting(c12.NumericParser):
    appended = 0

    def append(self, c):
        Counting.appended += 1
        return super().append(c)


def retries(ctx, s, small, large, mode):
    """Is a growth beyond proportion that of the known finding? The reference of the joining, which begins again where the plugin does, must itself
    look at out of proportion many characters, and without the plugin the work must be in proportion."""
    mine = [k for k, p in enumerate(s.settings.get('pathRewritePlugin', ())) if p['class'].endswith('JoinNumericPlugin')]
    if not mine:
        return False
    world = sut.reference(s)
    dic = sut.load(s)
    recs = sut.watch_each(dic)
    pos = dic.grammar.get_part_of_speech_id('名詞 数詞 * * * *'.split())
    tok = dic.create()
    looked = []
    inner, c12.NumericParser = c12.NumericParser, Counting
    try:
        for text in (small, large):
            tok.tokenize(text, mode)
            t = world.input(text)
            Counting.appended = 0
            for k in mine:
                c12.reference(c12.words_of(t, recs[k].nodes, pos))
            looked.append(Counting.appended)
    finally:
        c12.NumericParser = inner
    if looked[1] <= 4.6 * looked[0] + 400:
        return False
    dic = sut.load(s)
    dic.path_rewrite_plugins = [p for k, p in enumerate(dic.path_rewrite_plugins) if k not in mine]
    tok = dic.create()
    tok.tokenize(large, mode)
    a, b = (count(ctx, lambda: tok.tokenize(x, mode)) for x in (small, large))
    try:
        grows('without JoinNumericPlugin', a, b, 4.6, 400)
    except Violation:
        return False
    return True


def passage(rng, heads):
    r = rng.random()
    if r < 0.1:
        return ''.join(rng.choice('ャァーん゙あアｱ') for _ in range(rng.choice([1, 1, 2, 3])))
    if r < 0.2:
        return c13.text(rng, heads)
    if r < 0.35:
        return c11.well_formed(rng)[:20] + rng.choice(['', '円', ',', '.', 'あ'])
    if r < 0.4:
        return rng.choice('0〇1９0') * rng.choice([1, 1, 2, 3])
    if r < 0.45:
        return ''.join(rng.choice('0123456789〇一二三十百千万億兆,.') for _ in range(rng.randint(1, 6)))
    if r < 0.6:
        return gen.any_char(rng)
    if r < 0.7:
        return rng.choice('あアa') + ''.join(rng.choice(list(gen.PSM)) for _ in range(rng.randint(1, 4)))
    if r < 0.75:
        return rng.choice(['a', 'が゙', '\u0301', '㍻', 'ﷺ', 'ｶﾞ', 'ab', '\0', ' '])
    return gen.text(rng, heads, 1, 8, 0.1)


def read(ml):
    n = 0
    for m in ml:
        n += len(sut.view(m))
        for k in 'ABC':
            for u in m.split(sut.MODES[k]):
                n += len(u.surface()) + u.end()
    return n


def case(ctx, rng, i):
    kind = ['texts', 'texts', 'texts', 'words', 'texts', 'build', 'texts', 'texts'][i % 8] if i % 16 != 6 else 'copies'
    ctx.note(kind=kind)
    globals()[kind](ctx, rng, i)


def texts(ctx, rng, i):
    s = gen.sources(rng, users=rng.choice([0, 0, 1, 2]), composites=rng.choice([0, 4]), knum_words=rng.random() < 0.6, n_words=rng.choice([3, 10, 40]),
                    standard=1.0 if i == 0 else 0.5, long_words=False)
    if s.mecab_chardef:
        # words of up to 100 characters would take texts of thousands until the work per character does not grow any more
        s.mecab_chardef = re.sub(r'(?m)^([A-Z]\S* \d \d) (\d+)$', lambda m: '%s %d' % (m.group(1), min(8, int(m.group(2)))), s.mecab_chardef)
    if i == 0:      # the history of the known finding, in every run
        s.syslex.add('八', pos=gen.POS_OOV, params=(0, 0, -9000))
        s.sys_texts = [gen.csv_text(s.syslex.rows)]
        s.settings['pathRewritePlugin'] = [{'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin'}]
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    dic = sut.load(s)
    used = dic.create()
    for n in range(6):
        p = passage(rng, s.heads)[:30] if i or n else '八'
        if not p:
            continue
        # enough that what does not grow in proportion shows, and that the path has become periodic
        head, tail = (rng.choice(['', passage(rng, s.heads)[:4]]) for _ in '12')
        k = max(1, rng.choice([160, 250]) // len(p))
        mode = sut.MODES[rng.choice('ABC')]
        logger = dump if rng.random() < 0.15 else None
        ctx.note(head=head, passage=p, tail=tail, copies=k, dumped=logger is not None)
        ctx.count('evaluations')
        ctx.count('dumped', logger is not None)
        tok = dic.create()
        try:
            tok.tokenize(head + p * 3 + tail)         # what is cached is cached
            a = count(ctx, lambda: tok.tokenize(head + p * k + tail, mode, logger))
            b = count(ctx, lambda: tok.tokenize(head + p * (4 * k) + tail, mode, logger))
        except Exception:
            ctx.count('no_path')        # that is judged elsewhere
            continue
        ctx.count('texts_compared')
        try:
            grows('the analysis of %d and of %d times %r' % (k, 4 * k, p), a, b, 4.6, 400)
        except Violation as e:
            # what each character costs more in the middle of a long text than in one that ends soon is no longer a difference in a text 16 times as long
            c = count(ctx, lambda: tok.tokenize(head + p * (16 * k) + tail, mode, logger))
            ctx.count('looked_at_again')
            try:
                grows('the analysis of %d and of %d times %r' % (4 * k, 16 * k, p), b, c, 4.6, 400)
                e = None
            except Violation:
                pass
            if e is not None and not retries(ctx, s, head + p * k + tail, head + p * (4 * k) + tail, mode):
                raise
            if e is not None:
                ctx.aside('%s (%s)' % (KNOWN, e))
                ctx.count('known_growth')
        if b[0] > 2 * a[0]:
            ctx.distinct(p, a[0], a[1])
            ctx.sample({'passage': p, 'copies': k, 'steps': a[:2], 'steps_for_4_times': b[:2]})
        small, large = a[2], b[2]
        # per morpheme
        if len(small) > 20:
            ra, rb = count(ctx, lambda: read(small)), count(ctx, lambda: read(large))
            f = len(large) / len(small)
            grows('reading %d and %d morphemes of %r' % (len(small), len(large), p), ra, rb, 1.3 * f, 400)
            ctx.count('reads_compared')
        # a short text on a new tokenizer and after the long one
        short = p[:4] + rng.choice(s.heads)[:4]
        new = dic.create()
        try:
            new.tokenize(short)
            x = count(ctx, lambda: new.tokenize(short))
            used.tokenize(p * (4 * k))
            used.tokenize(short)
            y = count(ctx, lambda: used.tokenize(short))
        except Exception:
            ctx.count('no_path')
            continue
        grows('the analysis of %r by a new tokenizer and by one that has analysed much' % short, x, y, 1.1, 100)
        ctx.count('after_long_texts')


class Watched(bytes):
    """A text that knows how much of it is copied."""
    copied = 0

    def __getitem__(self, key):
        r = bytes.__getitem__(self, key)
        if isinstance(key, slice):
            Watched.copied += len(r)
        return r


def copies(ctx, rng, i):
    """What a lookup copies of a text is the same for a longer text."""
    s = gen.sources(rng, users=rng.choice([0, 1, 2]), composites=0, n_words=10)
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    lx = sut.load(s).lexicon
    for _ in range(4):
        p = passage(rng, s.heads) or 'あ'
        k = 60000 // len(p.encode()) + 1
        seen = []
        for text in (p * k, p * (4 * k), p * (16 * k)):
            data = Watched(text.encode())
            Watched.copied = 0
            found = 0
            for n in range(40):
                found += len(list(lx.lookup(data, n * k // 40 * len(p.encode()))))
            seen.append((Watched.copied, found))
        ctx.note(passage=p, copied=seen)
        ctx.count('evaluations')
        ctx.count('lookups_copying', 3 * 40)
        expect(seen[0][1] == seen[1][1], 'the same lookups find %r words', seen)
        expect(seen[2][0] <= 1.1 * seen[1][0] + 1000, '40 lookups at the begin of texts of %d and %d bytes copy %d and %d bytes of them', 4 * k * len(p.encode()),
               16 * k * len(p.encode()), seen[1][0], seen[2][0])
        ctx.distinct('copies', p, k)


def words(ctx, rng, i):
    """A larger system dictionary makes no work for texts without its words."""
    s = gen.sources(rng, users=rng.choice([0, 1]), composites=3, n_words=20, plugins=True)
    seed = rng.random()
    out = []
    some = [t for t in (gen.text(rng, s.heads, 20, 40, 0.05) for _ in range(6)) if t and '巨' not in t]
    ids = [rng.randrange(len(s.syslex.rows)) for _ in range(20)]
    n = rng.choice([40, 120])
    for k in (n, 10 * n):
        lex = gen.LexGen.__new__(gen.LexGen)
        lex.__dict__.update(s.syslex.__dict__)
        lex.rows = [list(r) for r in s.syslex.rows]
        # words that begin with a character of their own
        for x in range(k):
            lex.rows.append(['巨' + str(x)] + list(s.syslex.rows[0][1:]))
        s.sys_texts = [gen.csv_text(lex.rows)]
        ctx.note(sources={'words': k, 'seed': seed})
        sut.materialise(ctx.fresh(), s)
        sut.load(s)
        opened = count(ctx, lambda: sut.load(s))
        dic = opened[2]
        tok = dic.create()
        row = [('opening', opened)]
        for t in some:
            try:
                tok.tokenize(t)
                r = count(ctx, lambda: tok.tokenize(t))
                row.append(('analysing %r' % t, r))
                row.append(('reading %r' % t, count(ctx, lambda: read(r[2]))))
            except Exception:
                ctx.count('no_path')
        lx = dic.lexicon
        row.append(('word information', count(ctx, lambda: [lx.get_word_info(w) for w in ids])))
        row.append(('looking up', count(ctx, lambda: [list(lx.lookup(t.encode(), 0)) for t in some])))
        row.append(('looking up a word of the end', count(ctx, lambda: list(lx.lookup(('巨' + str(k - 1)).encode(), 0)))))
        out.append(row)
    expect([x[0] for x in out[0]] == [x[0] for x in out[1]], 'with more words other texts can be analysed')
    for (what, a), (_, b) in zip(*out):
        ctx.count('evaluations')
        for kind, x, y in (('Python', a[0], b[0]), ('native', a[1], b[1])):
            ctx.peak('more_steps_with_more_words', y - x)
            expect(y - x <= 100 + 9 * n // 4, '%s with %d words takes %d %s steps, with %d words %d', what, n, x, kind, 10 * n, y)
    ctx.count('larger_dictionaries')
    ctx.distinct('words', n, some)


def build(ctx, rng, i):
    s = gen.sources(rng, users=0, composites=0, n_words=5, max_ids=3)
    n = rng.choice([80, 150])
    out = []
    user = rng.random() < 0.4
    base = [list(r) for r in s.syslex.rows]
    kinds = [list(rng.choice(base)) for _ in range(8)]
    for r in kinds:
        r[13] = '*'
    for k in (n, 4 * n):
        rows = [list(kinds[x % 8]) for x in range(k)]
        for x, r in enumerate(rows):
            r[0] = '巨' + str(x + 10000) + r[0][:1]
            if x % 5 == 1:
                r[14] = 'C'
                r[15] = r[16] = '0/1'
            if x % 5 == 2:
                r[13] = str(x // 2)
        s.sys_texts = [gen.csv_text(base if user else base + rows)]
        s.users = [[gen.csv_text(rows)]] if user else []
        d = ctx.fresh()
        sut.write_sources(d, s)
        ctx.note(sources={'rows': k, 'user': user})
        system = d + '/system.dic'
        if user:
            sut.build_system(system, s.sys_paths, s.matrix_path)
            out.append(count(ctx, lambda: sut.build_user(d + '/user.dic', s.user_paths[0], system)))
            if len(out) == 1:
                s.settings['userDict'] = ['user.dic']
        else:
            out.append(count(ctx, lambda: sut.build_system(system, s.sys_paths, s.matrix_path)))
        ctx.count('evaluations')
    grows('building %d and %d rows' % (n, 4 * n), out[0], out[1], 4.8, 2000)
    ctx.count('builds_compared')
    ctx.distinct('build', user, out[0][0])
