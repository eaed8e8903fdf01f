"""C14: an analysis does not depend on what was analysed before, and old results stay what they are."""
import logging

from rt import gen, sut
from rt.core import expect
from .common import make

ID = 'C14'
LEVEL = 'exploration'
QUICK, THOROUGH = 900, 25000
RULE = ('random histories of 30 to 60 (some: 1200) analyses with several tokenizers of one dictionary: long and short texts, all modes, given or not, dump loggers, texts that cannot '
        'be analysed, errors raised inside an OOV provider or path plugin at a random call; each result is compared with that of a new dictionary, and '
        'kept results and units are read again later; non-trivial: an analysis after another, distinct by (texts before, text, mode)')
REQUIRE = {'analyses': 15000, 'own_mode': 4000, 'failed_analyses': 500, 'injected_errors': 300, 'dumped': 500, 'shorter_after_longer': 3000, 'longer_after_shorter': 3000, 'reread': 5000,
           'unit_lists': 300, 'histories_of_1000': 2}

dump = logging.getLogger('verif.dump14')
dump.propagate = False
dump.setLevel(logging.DEBUG)


class Sink(logging.Handler):
    def emit(self, record):
        record.getMessage()


dump.addHandler(Sink())


class Injected(Exception):
    pass


class Wrap:
    """Passes everything on, but can be told to fail at a call."""

    def __init__(self, inner, state):
        self.inner, self.state = inner, state

    def tick(self):
        if self.state['left'] is not None:
            self.state['left'] -= 1
            if self.state['left'] < 0:
                self.state['left'] = None
                self.state['fired'] = True
                raise Injected()


class Oov(Wrap):
    def get_oov(self, input_text, offset, has_other_words):
        self.tick()
        return self.inner.get_oov(input_text, offset, has_other_words)

    def set_up(self, grammar):
        pass


class Path(Wrap):
    def rewrite(self, text, path, lattice):
        self.tick()
        r = self.inner.rewrite(text, path, lattice)
        self.tick()
        return r

    def set_up(self, grammar):
        pass


class Nothing:
    def rewrite(self, *args):
        pass


def full(ml):
    return [tuple((k, repr(x)) for k, x in sorted(v.items())) for v in sut.views(ml)]


def outcome(f):
    try:
        return full(f())
    except Injected:
        raise
    except Exception as e:
        return type(e).__name__


def case(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 0, 1, 2]), inhibit=rng.choice([0, 0, 0.2]), fallback=rng.random() < 0.6, knum_words=rng.random() < 0.3,
             composites=6)
    texts = [gen.text(rng, s.heads, 0, hi) for hi in (1, 2, 3, 6, 12, 30)]
    texts += [rng.choice(s.heads) * rng.randint(1, 40), '', gen.text(rng, s.heads, 0, 4, wild=1), 'アイウ1,000円' + gen.text(rng, s.heads, 0, 3)]
    expected = {}
    for t in texts:
        d = sut.load(s)
        for m in 'ABC':
            expected[t, m] = outcome(lambda: d.create().tokenize(t, sut.MODES[m]))
    dic = sut.load(s)
    state = {'left': None, 'fired': False}
    if rng.random() < 0.5:
        dic.oov_provider_plugins = [Oov(p, state) for p in dic.oov_provider_plugins]
        dic.path_rewrite_plugins = [Path(p, state) for p in dic.path_rewrite_plugins] + [Path(Nothing(), state)]
        inject = True
    else:
        inject = False
    toks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        own = rng.choice([None, 'A', 'B', 'C'])
        toks.append([dic.create(sut.MODES[own]) if own else dic.create(), None, own or 'C'])
    kept = []
    trail = []
    many = rng.choice([300, 700, 1200]) if i % 60 == 7 else 0
    for _ in range(many or rng.randint(30, 60)):
        ctx.count('evaluations')
        slot = rng.choice(toks) if not many else toks[0]
        t, m = rng.choice(texts), rng.choice('ABC')
        given = sut.MODES[m]
        if rng.random() < 0.3:
            # the mode of the tokenizer
            m, given = slot[2], None
            ctx.count('own_mode')
        logger = dump if rng.random() < 0.1 else None
        trail.append([toks.index(slot), t, m, given is not None, bool(logger)])
        ctx.note(trail=trail)
        state['left'] = rng.randrange(12) if inject and rng.random() < 0.2 else None
        state['fired'] = False
        try:
            got = None
            try:
                ml = slot[0].tokenize(t, given, logger) if given is not None or logger else slot[0].tokenize(t)
            except Injected:
                raise
            except Exception as e:
                ml = None
                got = type(e).__name__
                ctx.count('failed_analyses')
        except Injected:
            ctx.count('injected_errors')
            trail[-1].append('error injected')
            continue
        finally:
            state['left'] = None
        if logger:
            ctx.count('dumped')
        ctx.count('analyses')
        if ml is not None:
            got = full(ml)
        expect(got == expected[t, m], 'analysis %d with the tokenizer, %r in mode %s: %r, a new dictionary gives %r', len(trail), t, m, short(got),
               short(expected[t, m]))
        if slot[1] is not None:
            ctx.count('shorter_after_longer' if len(t) < len(slot[1]) else 'longer_after_shorter')
            ctx.distinct(slot[1], t, m)
        slot[1] = t
        if ml is not None and rng.random() < 0.5:
            kept.append((t, ml, got))
            if len(ml):
                x = ml[rng.randrange(len(ml))]
                units = x.split(sut.MODES[rng.choice('AB')])
                kept.append((t, units, full(units)))
                ctx.count('unit_lists')
        if kept and rng.random() < 0.5:
            t0, ml0, seen = rng.choice(kept)
            again = full(ml0)
            expect(again == seen, 'the result for %r changed after later analyses: %r, before %r', t0, short(again), short(seen))
            ctx.count('reread')
    for t0, ml0, seen in kept:
        again = full(ml0)
        expect(again == seen, 'the result for %r changed after later analyses: %r, before %r', t0, short(again), short(seen))
        ctx.count('reread')
    ctx.count('histories_of_1000', many > 1000)
    ctx.sample({'history': [x[:2] for x in trail[:8]]})


def short(x):
    return x if isinstance(x, str) or x is None else [dict(m).get('surface') + '/' + dict(m).get('norm') + '/' + dict(m).get('wid') for m in x]
