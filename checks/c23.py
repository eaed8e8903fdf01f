"""C23: the native code is memory safe (run with the extensions built with AddressSanitizer and UndefinedBehaviorSanitizer)."""
import array
import gc
import logging
import os
import signal
import subprocess
import sys
import threading

from rt import gen, sut
from rt.core import Inconclusive, expect
from .common import make

ID = 'C23'
LEVEL = 'exploration'
FLAVOUR = 'asan'
CASE_CPU = 240
QUICK, THOROUGH = 400, 9000
RULE = ('all extensions compiled with -fsanitize=address,undefined (no recovery), Python objects in malloc blocks, the connection matrix in a heap block of its exact size; '
        'random worlds and hostile texts in all modes, with dumps, failing providers, forbidden connections, extreme costs over texts up to 70000 characters, '
        'threads, lattices called directly with any index, chains of 20000 nodes freed on a stack of 256 kB, results read after their tokenizer and dictionary are gone, and connection IDs outside the matrix, which have to raise an error; non-trivial: '
        'distinct (kind of workload, text, outcome)')
REQUIRE = {'analyses': 4000, 'outside_refused': 500, 'failed_analyses': 300, 'dumped': 200, 'heap_matrices': 150, 'long_texts': 4, 'nodes_read_late': 2000, 'threads': 50,
           'chains': 30, 'lattice_calls': 2000, 'lattice_refusals': 1000, 'canaries': 2, 'native_modules': 3}
ASSUMPTIONS = ['The interpreter and dartsclone are not instrumented: only accesses from the extensions and intercepted library calls are judged.',
               'The interpreter has a global lock; data races inside the extensions are not looked for.']

CANARY = r'''
#include <stdlib.h>
int heap(int n) { volatile short *p = malloc(2 * n); int v = p[n]; free((void *)p); return v; }
int overflow(int n) { volatile int x = 0x7fffffff; return x + n; }
int late(int n) { volatile int *p = malloc(4 * n); free((void *)p); return p[0]; }
'''
dump = logging.getLogger('verif.dump23')
dump.propagate = False
dump.setLevel(logging.DEBUG)


class Sink(logging.Handler):
    def emit(self, record):
        record.getMessage()


dump.addHandler(Sink())


def setup(ctx):
    import sudachipy.lattice
    import sudachipy.latticenode
    import sudachipy.tokenizer
    with open('/proc/self/maps') as f:
        maps = f.read()
    if 'libasan' not in maps:
        raise Inconclusive('the sanitizer is not loaded')
    n = 0
    for m in (sudachipy.lattice, sudachipy.latticenode, sudachipy.tokenizer):
        with open(m.__file__, 'rb') as f:
            n += b'__asan_report' in f.read()
    ctx.count('native_modules', n)
    if os.path.basename(str(ctx.scratch)) == '0':
        src = sut.write(os.path.join(str(ctx.scratch), 'canary.c'), CANARY)
        lib = os.path.join(str(ctx.scratch), 'canary.so')
        subprocess.run(['gcc', '-O0', '-g', '-shared', '-fPIC', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-o', lib, src], check=True,
                       env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
        for name, says in (('heap', 'heap-buffer-overflow'), ('overflow', 'signed integer overflow'), ('late', 'heap-use-after-free')):
            p = subprocess.run([sys.executable, '-c', 'import ctypes; ctypes.CDLL(%r).%s(4)' % (lib, name)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != -signal.SIGABRT or says.encode() not in p.stderr:
                raise Inconclusive('the sanitizers do not report a %s: %r %s' % (says, p.returncode, p.stderr[-500:]))
            ctx.count('canaries')


def heap_matrix(ctx, dic):
    """Put the connection matrix into a heap block that ends where it ends."""
    g = dic.grammar
    view = getattr(g, '_matrix_view', None)
    if not isinstance(view, memoryview) or view.ndim != 2:
        return
    block = array.array('h', [0] * (view.shape[0] * view.shape[1]))
    new = memoryview(block).cast('B').cast('h', shape=list(view.shape))
    for r in range(view.shape[0]):
        for l in range(view.shape[1]):
            new[r, l] = view[r, l]
    g._matrix_view = new
    ctx.count('heap_matrices')


def attempt(ctx, tok, text, mode='C', logger=None):
    ctx.count('analyses')
    ctx.count('evaluations')
    try:
        ml = tok.tokenize(text, sut.MODES[mode], logger)
    except Exception as e:
        ctx.count('failed_analyses')
        return type(e).__name__
    return ml


def read(ml):
    return [sut.view(m) for m in ml] + [u.surface() for m in ml for k in 'AB' for u in m.split(sut.MODES[k])]


class Failing:
    """A provider that fails now and then."""

    def __init__(self, inner, rng):
        self.inner, self.rng = inner, rng

    def set_up(self, grammar):
        pass

    def get_oov(self, *args):
        if self.rng.random() < 0.2:
            raise RuntimeError('injected')
        return self.inner.get_oov(*args)


def hostile(rng, heads):
    r = rng.random()
    if r < 0.3:
        return ''.join(rng.choice('0123456789〇一二三十百千万億兆,..,，．') for _ in range(rng.randint(1, 14)))
    if r < 0.4:
        return gen.any_char(rng) * rng.choice([1, 3, 60])
    if r < 0.5:
        return rng.choice(['\0', 'a\0b', '\ufeff', '\U0010ffff' * 3, 'が゙゙', '👨‍👩‍👧‍👦', '﷽' * 5, 'ŉ' * 4])
    return gen.text(rng, heads, 0, 20, 0.2)


def case(ctx, rng, i):
    kind = ['mixed', 'outside', 'mixed', 'history', 'costs', 'outside', 'threads', 'mixed'][i % 8] if i % 40 not in (7, 15) else 'chains' if i % 40 == 7 else 'lattices'
    ctx.note(kind=kind)
    globals()[kind](ctx, rng, i)
    gc.collect()


def mixed(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 1, 2]), composites=4, inhibit=rng.choice([0, 0, 0.3]), knum_words=rng.random() < 0.5, fallback=rng.random() < 0.8)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    recs = sut.watch_each(dic)
    toks = [dic.create() for _ in range(2)]
    kept = []
    for _ in range(12):
        text, mode = hostile(rng, s.heads), rng.choice('ABC')
        logger = dump if rng.random() < 0.2 else None
        ctx.note(text=text, mode=mode)
        if logger:
            ctx.count('dumped')
        tok = rng.choice(toks)
        ml = attempt(ctx, tok, text, mode, logger)
        if not isinstance(ml, str):
            kept.append((ml, read(ml), [n for r in recs for n in r.raw or []]))
        ctx.distinct('mixed', text, mode, ml if isinstance(ml, str) else len(ml))
    ctx.sample({'text': text, 'mode': mode})
    # the results outlive what they came from
    del toks, tok, recs, ml
    if rng.random() < 0.5:
        del dic
    gc.collect()
    for ml, was, nodes in kept:
        expect(read(ml) == was, 'an old result reads %r, it was %r', read(ml), was)
        for n in nodes:
            sut.node_view(n)
            repr(n), str(n)
            ctx.count('nodes_read_late')


def outside(ctx, rng, i):
    """Connection IDs outside the matrix raise an error and do no harm."""
    s = gen.sources(rng, users=0, composites=0, inhibit=0, plugins=False, missing=0, mecab=False, default_plugin=False, psm=False)
    lsize, rsize = s.lsize, s.rsize

    def bad(size):
        return rng.choice([size, size, size + 1, size + rng.randrange(1, 40), 32767, rng.randrange(size, 32768), -32768, -size - 1, -size - 2, rng.randrange(-32768, -size)])

    # left ID of a word: second index of the matrix (rsize), right ID: first (lsize)
    words = []
    for k, ch in enumerate('外側界限'):
        which = rng.randrange(2)
        l, r = (bad(rsize), rng.randrange(lsize)) if which == 0 else (rng.randrange(rsize), bad(lsize))
        s.syslex.add(ch, params=(l, r, 0))
        words.append(ch)
    s.sys_texts = s.syslex.texts(1)
    simple = s.settings['oovProviderPlugin'][-1]
    good = dict(simple)
    if rng.random() < 0.5:
        simple['leftId' if rng.random() < 0.5 else 'rightId'] = rng.choice([bad(max(lsize, rsize)), 2 ** 31 - 1])
    s.settings['characterDefinitionFile'] = 'char.def'
    s.chardef = 'DEFAULT 0 1 0\n0x0030..0x0039 NUMERIC\n'
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    tok = dic.create()
    inner = s.heads[0]
    for ch in words:
        for text in (ch, '名' + ch, ch + '名', ch * 3, '名' * 50 + ch):
            ctx.note(text=text)
            ml = attempt(ctx, tok, text)
            expect(isinstance(ml, str), '%r has connection IDs outside the matrix of %d x %d, but the analysis of %r succeeds', ch, lsize, rsize, text)
            ctx.count('outside_refused')
            ctx.distinct('outside', text, ml, lsize, rsize)
    if simple != good:
        for text in ('ヰ', '名ヰ', 'ヰ名'):
            ctx.note(text=text)
            ml = attempt(ctx, tok, text)
            expect(isinstance(ml, str), 'the OOV provider has connection IDs outside the matrix of %d x %d, but the analysis of %r succeeds', lsize, rsize, text)
            ctx.count('outside_refused')
    # the tokenizer is as good as new
    fresh = dic.create()
    for text in ('名', '1名。', inner + '名'):
        a, b = attempt(ctx, tok, text), attempt(ctx, fresh, text)
        a, b = (x if isinstance(x, str) else read(x) for x in (a, b))
        expect(a == b, '%r after failures gives %r, a new tokenizer %r', text, a, b)
    g = dic.grammar
    for l, r in ((lsize, 0), (0, rsize), (lsize + 5, rsize + 5), (-lsize - 1, 0), (0, -rsize - 1), (2 ** 31, 0), (2 ** 40, 1)):
        try:
            v = g.get_connect_cost(l, r)
        except (IndexError, OverflowError):
            ctx.count('outside_refused')
            continue
        expect(False, 'connection cost (%d, %d) of a matrix of %d x %d is %r', l, r, lsize, rsize, v)


def history(ctx, rng, i):
    """Failures at any point, and the analyses after them; collections of garbage at every chance."""
    s = make(ctx, rng, users=rng.choice([0, 1]), composites=3, inhibit=rng.choice([0, 0.2]), fallback=True)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    dic.oov_provider_plugins = [Failing(p, rng) if rng.random() < 0.7 else p for p in dic.oov_provider_plugins]
    tok = dic.create()
    old = gc.get_threshold()
    gc.set_threshold(rng.choice([1, 7, 100]))
    try:
        kept = []
        for _ in range(25):
            text = hostile(rng, s.heads) if rng.random() < 0.8 else ''
            if rng.random() < 0.1:
                text = text * 40
            ctx.note(text=text)
            ml = attempt(ctx, tok, text, rng.choice('ABC'), dump if rng.random() < 0.1 else None)
            if not isinstance(ml, str):
                kept.append((ml, read(ml)))
            if kept and rng.random() < 0.3:
                kept.pop(rng.randrange(len(kept)))
            ctx.distinct('history', text, ml if isinstance(ml, str) else len(ml))
        for ml, was in kept:
            expect(read(ml) == was, 'an old result changed')
    finally:
        gc.set_threshold(*old)


def costs(ctx, rng, i):
    """Sums far beyond 32 bits."""
    cost = rng.choice([32766, -32768])
    s = gen.sources(rng, n_words=2, composites=0, max_ids=2, mecab=False, plugins=False, missing=0, default_plugin=False, psm=False)
    s.matrix = '%d %d\n' % (s.lsize, s.rsize) + ''.join('%d %d %d\n' % (l, r, cost) for l in range(s.lsize) for r in range(s.rsize))
    s.settings['oovProviderPlugin'][-1]['cost'] = rng.choice([32767, -32768, 2 ** 31 - 1, -2 ** 31])
    s.chardef = 'DEFAULT 0 1 0\n0x0030..0x0039 NUMERIC\n'
    s.syslex.add('k', params=(0, 0, max(-32768, min(32767, cost))))
    s.sys_texts = s.syslex.texts(1)
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    tok = dic.create()
    n = rng.choice([300, 3000]) if i % 100 > 12 else 70000
    if n > 50000:
        ctx.count('long_texts')
    text = ''.join(rng.choice('kz') for _ in range(n))
    ctx.note(text=text[:50], length=n)
    ml = attempt(ctx, tok, text)
    expect(not isinstance(ml, str) and sum(len(m.surface()) for m in ml) == n, 'a text of %d characters gives %r', n, ml if isinstance(ml, str) else len(ml))
    ctx.distinct('costs', cost, n)


def chains(ctx, rng, i):
    """Many thousand nodes that hold each other, freed on a small stack."""
    s = gen.sources(rng, n_words=1, composites=0, inhibit=0, mecab=False, plugins=False, missing=0, psm=False, default_plugin=False)
    s.matrix = '2 2\n0 1 32767\n1 0 32767\n1 1 32767\n'
    for r in s.syslex.rows:
        r[1:4] = ['-1' if r[1] == '-1' else '0', '0', '0']
    s.syslex.add('絶', params=(1, 1, 0))
    s.syslex.add('孤', params=(0, 0, 0))
    s.syslex.add('1', params=(0, 0, -30000), pos=gen.POS_NUM)
    s.sys_texts = s.syslex.texts(1)
    s.settings['oovProviderPlugin'] = [dict(s.settings['oovProviderPlugin'][-1], leftId=0, rightId=0, cost=100)]
    s.settings['pathRewritePlugin'] = [{'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin'},
                                       {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': list(gen.POS_OOV), 'minLength': rng.choice([1, 3])}]
    s.chardef = 'DEFAULT 0 1 0\n0x0030..0x0039 NUMERIC\n0x30A1..0x30FA KATAKANA\n'
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    n = rng.choice([15000, 25000])
    jobs = ['孤' * n + '絶', '孤' * n, '1' * n + '孤', 'ア' * n + '孤', '孤' * n + '絶' + '孤' * 5]
    seen = []

    def work():
        for text in jobs:
            tok = dic.create()
            ctx.note(text=text[:3] + '... ' + text[-6:], length=n)
            ml = attempt(ctx, tok, text, rng.choice('ABC'))
            seen.append(ml if isinstance(ml, str) else sum(len(m.surface()) for m in ml))
            if rng.random() < 0.5:
                attempt(ctx, tok, '孤')
            if rng.random() < 0.5:
                del ml
                gc.collect()
            tok = ml = None
            ctx.count('chains')

    old = threading.stack_size(1 << 18)
    try:
        th = threading.Thread(target=work)
        th.start()
        th.join()
    finally:
        threading.stack_size(old)
    want = [x for x in map(len, jobs)]
    expect(len(seen) == len(jobs) and all(isinstance(x, str) if '絶' in t else x == len(t) for x, t in zip(seen, jobs)), 'texts of %r characters give %r', want, seen)
    ctx.distinct('chains', n, tuple(seen))


def lattices(ctx, rng, i):
    """A lattice as plugins and tools may use it: every index is refused or means a place in it."""
    from sudachipy.lattice import Lattice
    from sudachipy.latticenode import LatticeNode
    s = make(ctx, rng, users=0, composites=2, fallback=True)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    before = [attempt(ctx, dic.create(), t) for t in ('名', s.heads[0] + '名')]
    before = [x if isinstance(x, str) else read(x) for x in before]
    far = [10 ** 3, 10 ** 5, 10 ** 6, 2 ** 29, 2 ** 31 - 1, 2 ** 31, 2 ** 40, -1, -2, -50, -10 ** 5, -10 ** 6, -2 ** 31, -2 ** 31 - 1]
    for _ in range(3):
        lat = Lattice(dic.grammar)
        size, nodes = 0, []
        for _ in range(120):
            def at():
                return rng.randint(0, size) if rng.random() < 0.6 else rng.choice(far + [size + 1, size + 2, -size, -size - 1, -size - 2])
            op = rng.choice(['insert'] * 6 + ['resize', 'clear', 'nodes', 'end', 'minimum', 'previous', 'remove', 'best', 'dump', 'none'])
            args = at(), at()
            ctx.note(op=op, args=args, size=size)
            try:
                if op == 'insert':
                    n = Lattice.create_node() if rng.random() < 0.5 else LatticeNode(dic.lexicon, 0, 0, 100, rng.randrange(len(s.heads)))
                    n.set_parameter(*(rng.choice([0, 0, 0, rng.randrange(-40, 40), 32767, -32768, 2 ** 31 - 1, 2 ** 31]) for _ in range(3)))
                    nodes.append(n)
                    lat.insert(args[0], args[1], n)
                elif op == 'resize':
                    new = rng.choice([0, 1, 3, 20, 300, -1, -20])
                    lat.resize(new)
                    size = max(new, 0)
                elif op == 'clear':
                    lat.clear()
                    size = 0
                elif op == 'nodes':
                    lat.get_nodes(*args)
                elif op == 'end':
                    list(lat.get_nodes_with_end(args[0]))
                elif op == 'minimum':
                    repr(lat.get_minimum_node(*args))
                elif op == 'previous':
                    lat.has_previous_node(args[0])
                elif op == 'remove':
                    lat.remove(args[0], args[1], rng.choice(nodes + [LatticeNode()]))
                elif op == 'best':
                    lat.get_best_path()
                elif op == 'dump':
                    lat.dump(dump)
                else:
                    lat.insert(args[0], args[1], None)
            except Exception as e:
                ctx.count('lattice_refusals')
                ctx.distinct('lattices', op, type(e).__name__, args)
            ctx.count('lattice_calls')
            ctx.count('evaluations')
        for n in nodes:
            str(n), n.get_begin(), n.get_end(), n.get_path_cost(), n.get_left_id(), n.is_oov(), n.is_defined(), n.get_dictionary_id()
        del lat
        gc.collect()
    after = [attempt(ctx, dic.create(), t) for t in ('名', s.heads[0] + '名')]
    after = [x if isinstance(x, str) else read(x) for x in after]
    expect(after == before, 'after calls of a lattice of their own the analyses give %r, before %r', after, before)


def threads(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 1]), composites=4)
    dic = sut.load(s)
    heap_matrix(ctx, dic)
    texts = [hostile(rng, s.heads) for _ in range(8)]
    n = rng.choice([2, 4, 8])
    seen = [None] * n
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def work(k):
        tok = dic.create()
        out = []
        for _ in range(3):
            for t in texts:
                try:
                    out.append(read(tok.tokenize(t)))
                except Exception as e:
                    out.append(type(e).__name__)
        seen[k] = out

    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    ctx.count('threads', n)
    ctx.count('analyses', n * 3 * len(texts))
    expect(all(x == seen[0] for x in seen), 'threads got different results')
    ctx.distinct('threads', n, tuple(texts))
