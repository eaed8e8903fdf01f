"""C15: tokenizers of one dictionary in several threads give what a single thread gets."""
import os
import random
import sys
import threading
import time

from rt import gen, sut
from rt.core import expect
from .common import make

ID = 'C15'
LEVEL = 'exploration'
QUICK, THOROUGH = 400, 8000
JOBS = 8
RULE = ('2 to 12 threads, each with a tokenizer of a shared dictionary opened for the case (cold caches), analyse the same and different texts and read all attributes, '
        'while the interpreter switches threads at the shortest interval and yields are injected at random lines of the Python code; each result is '
        'compared with that of one thread; non-trivial: a switch between two threads inside the code under test, distinct by the two lines')
REQUIRE = {'analyses': 6000, 'switches': 20000, 'threads': 1000, 'injected_yields': 5000, 'cold_starts': 300}


def all_of(ml):
    out = []
    for m in ml:
        v = sut.view(m)
        v['units'] = [[u.surface() for u in m.split(sut.MODES[k])] for k in 'AB']
        out.append(v)
    return out


def run(tok, plan):
    out = []
    for text, mode in plan:
        try:
            out.append(all_of(tok.tokenize(text, sut.MODES[mode])))
        except Exception as e:
            out.append('error %s: %s' % (type(e).__name__, e))
    return out


class Tracer:
    """Line events of the package in all threads: yields at random, and notes the switches."""

    def __init__(self, root, seed, p):
        self.root, self.seed, self.p = root, seed, p
        self.last = None
        self.switches = 0
        self.yields = 0
        self.pairs = set()
        self.local = threading.local()

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            me = threading.get_ident()
            here = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            last = self.last
            if last is not None and last[0] != me:
                self.switches += 1
                self.pairs.add((last[1], here))
            self.last = (me, here)
            rng = getattr(self.local, 'rng', None)
            if rng is None:
                rng = self.local.rng = random.Random('%s/%s' % (self.seed, threading.current_thread().name))
            if rng.random() < self.p:
                self.yields += 1
                time.sleep(rng.choice([0, 0, 0, 1e-6, 1e-4]))
        return self.line


def case(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 1, 2]), n_words=rng.choice([10, 40, 80]), composites=8, knum_words=rng.random() < 0.3, auto=0.2,
             plugins=rng.random() < 0.8, mecab=rng.random() < 0.8)
    n = rng.choice([2, 3, 4, 8, 12])
    pool = [gen.text(rng, s.heads, 1, 10) for _ in range(8)]
    shared = [(rng.choice(pool), rng.choice('ABC')) for _ in range(rng.randint(2, 6))]
    plans = [shared if rng.random() < 0.6 else [(rng.choice(pool), rng.choice('ABC')) for _ in range(rng.randint(2, 6))] for _ in range(n)]
    single = sut.load(s)
    tok = single.create()
    expected = [run(tok, p) for p in plans]
    dic = sut.load(s)
    ctx.count('cold_starts')
    results = [None] * n
    gate = threading.Barrier(n)
    tracer = Tracer(os.environ['VERIF_ROOT'], '%s/%s' % (ctx.seed, i), rng.choice([0, 0.01, 0.05, 0.2]))
    early = rng.random() < 0.5
    toks = [dic.create() if early else None for _ in range(n)]

    def work(k):
        gate.wait()
        t = toks[k] or dic.create()
        results[k] = run(t, plans[k])
        if rng_twice[k]:
            again = run(t, plans[k])
            if again != results[k]:
                results[k] = again

    rng_twice = [rng.random() < 0.3 for _ in range(n)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    threading.settrace(tracer.call)
    try:
        threads = [threading.Thread(target=work, args=(k,), name='t%d' % k, daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        end = time.monotonic() + 120
        for t in threads:
            t.join(max(0, end - time.monotonic()))
        expect(not any(t.is_alive() for t in threads), 'the threads do not come to an end: deadlock')
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    ctx.count('threads', n)
    for k in range(n):
        ctx.count('analyses', len(plans[k]))
        ctx.count('evaluations', len(plans[k]))
        for (text, mode), got, want in zip(plans[k], results[k] or ['no result'] * len(plans[k]), expected[k]):
            ctx.note(text=text, mode=mode, threads=n)
            expect(got == want, 'with %d threads, %r in mode %s gives %r, one thread gets %r', n, text, mode, got, want)
    ctx.count('switches', tracer.switches)
    ctx.count('injected_yields', tracer.yields)
    for pair in tracer.pairs:
        ctx.distinct(pair)
    ctx.sample({'threads': n, 'switches': tracer.switches, 'distinct_pairs_of_lines': len(tracer.pairs)})
