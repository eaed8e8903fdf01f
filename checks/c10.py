"""C10: every text can be analysed, in finite time."""
import logging

from rt import gen, sut
from rt.core import expect
from .common import check_partition, make

ID = 'C10'
LEVEL = 'exploration'
CASE_CPU = 90
QUICK, THOROUGH = 2500, 80000
RULE = ('random configurations with every plugin combination, a simple OOV provider last and no forbidden connection; hostile texts: numbers with '
        'misplaced commas and points, repeated fragments up to 20000 characters, control, combining, astral and unassigned characters, every '
        'single character of a script; under a CPU watchdog; non-trivial: distinct text shapes and lengths')
REQUIRE = {'analyses': 10000, 'long_texts': 20, 'numeric_texts': 2000, 'dumped': 500, 'long_numbers': 20}
NUM = '0123456789〇一二三四五六七八九十百千万億兆,..,，．'

dump = logging.getLogger('verif.dump')
dump.propagate = False
dump.setLevel(logging.DEBUG)


class Sink(logging.Handler):
    def emit(self, record):
        record.getMessage()


dump.addHandler(Sink())


def numeric(rng):
    return ''.join(rng.choice(NUM) for _ in range(rng.randint(1, 14)))


def fragment(rng, heads):
    return rng.choice([numeric(rng), gen.text(rng, heads, 1, 3, .2), rng.choice(rng.choice(gen.POOLS)), rng.choice(heads) if heads else 'あ'])


def case(ctx, rng, i):
    extra = []
    for _ in range(rng.choice([0, 0, 3, 6])):
        extra.append(rng.choice([numeric(rng)[:4], rng.choice(['1,', ',1', '1.', '.5', ',,', '..', '一,', '千万', ',', '.', '1,000', '3.14'])]))
    s = make(ctx, rng, users=rng.choice([0, 0, 1]), rewrite='both' if i % 40 == 23 else rng.choice([None, 'numeric', 'katakana', 'both']),
             knum_words=i % 40 == 23 or rng.random() < 0.6,
             extra_heads=extra, noov=0.7, max_ids=3)
    dic = sut.load(s)
    tok = dic.create()
    for k in range(14):
        long = i % 40 == 3 and k == 0
        r = rng.random()
        if i % 40 == 23 and k == 0:
            # one number of very many digits
            size = rng.choice([4000, 4299, 4300, 4301, 5000, 12000])
            pool = rng.choice(['0123456789', '0', '1', '9', '〇一二三四五六七八九', '12,', '千', '１２０', '0.'])
            text = rng.choice('1九5') + ''.join(rng.choice(pool) for _ in range(size)) + rng.choice(['', '円', '万', '.5', '兆'])
            ctx.count('long_numbers')
        elif long:
            f = fragment(rng, s.heads)
            text = (f * (rng.choice([3000, 20000]) // len(f) + 1))[:20000]
            if rng.random() < 0.3:
                # one place only where a word may begin, and perhaps none out of vocabulary
                text = f + rng.choice(['za', 'ωα', 'яи', 'zω', '\u0301a']) + rng.choice('aαиzz') * rng.choice([100, 300, 1100, 5000])
            ctx.count('long_texts')
        elif r < 0.4:
            text = numeric(rng) + rng.choice(['', 'あ', '円', ' ', 'ー']) + rng.choice(['', numeric(rng)])
            ctx.count('numeric_texts')
        elif r < 0.5:
            text = rng.choice([c for p in gen.POOLS for c in p])
        elif r < 0.6:
            text = gen.any_char(rng) * rng.choice([1, 2, 50])
        else:
            text = ''.join(fragment(rng, s.heads) * rng.choice([1, 1, 2, 5]) for _ in range(rng.randint(1, 6)))
        mode = rng.choice('ABC')
        logger = dump if not long and rng.random() < 0.15 else None
        ctx.note(text=text if len(text) < 500 else text[:500] + '...%d' % len(text), mode=mode, dump=bool(logger))
        ml = tok.tokenize(text, sut.MODES[mode], logger)
        if logger:
            ctx.count('dumped')
        n = check_partition(ml, text, 'mode ' + mode)
        ctx.count('evaluations')
        ctx.count('analyses')
        ctx.peak('characters', len(text))
        ctx.distinct(text[:200], len(text), n)
        if k == 5:
            ctx.sample({'text': text[:100], 'morphemes': [m.surface() for m in ml][:20]})
