"""C11: what the numeric parser accepts and what it makes of it."""
import itertools
from fractions import Fraction

from rt import numeric
from rt.core import expect
from sudachipy.plugin.path_rewrite.numericparser import NumericParser

ID = 'C11'
LEVEL = 'exploration'
SMALL_SET = '05一十千万億,.'
SWEEP = len(SMALL_SET) ** 2
QUICK, THOROUGH = SWEEP + 1500, SWEEP + 30000
RULE = ('all strings of up to 6 (thorough: 7) characters over 9 representative characters (cases 0 to 80, by their first two characters), all strings of up to '
        '3 over all 28; random strings and well-formed numbers with up to 60 digits, comma groups, fractions and units; one parser is cleared and '
        'used again throughout; compared with exact rational arithmetic; non-trivial: an accepted string, distinct')
REQUIRE = {'evaluations': 400000, 'accepted': 40000, 'rejected': 40000, 'must_accept': 40000, 'must_reject': 40000, 'with_units': 10000, 'fractions': 1000,
           'beyond_64_bits': 100}


def judge(ctx, parser, s, fresh=False):
    parser.clear()
    ok = True
    for c in s:
        if not parser.append(c):
            ok = False
            break
    if ok:
        ok = parser.done()
    verdict, value = numeric.evaluate(s)
    ctx.count('evaluations')
    if ok:
        got = parser.get_normalized()
        result = got
        expect(verdict != 'reject', '%r is accepted as %s', s, got)
        expect(numeric.FORM.match(got) is not None, '%r is normalized to %r', s, got)
        expect(Fraction(got) == value, '%r is normalized to %r, its value is %s', s, got, value)
        ctx.count('accepted')
        if value > 2 ** 64:
            ctx.count('beyond_64_bits')
        if value.denominator > 1:
            ctx.count('fractions')
    else:
        result = None
        expect(verdict != 'accept', '%r is not accepted', s)
        ctx.count('rejected')
    if verdict != 'either':
        ctx.count('must_' + verdict)
    return result


def digits(rng, n, kanji=None):
    kanji = rng.random() < 0.4 if kanji is None else kanji
    return ''.join(rng.choice('〇一二三四五六七八九' if kanji else '0123456789') for _ in range(n))


def numeral(rng, top=60):
    r = rng.random()
    if r < 0.4:
        out = digits(rng, rng.choice([1, 2, 3, 4, rng.randint(1, top)]))
    else:
        out = rng.choice('123456789') + digits(rng, rng.randint(0, 2)) + ''.join(',' + digits(rng, 3) for _ in range(rng.randint(1, 6)))
    if rng.random() < 0.4:
        out += '.' + digits(rng, rng.choice([1, 2, 5, rng.randint(1, 20)])) + rng.choice(['', '0', '00'])
    return out


def section(rng):
    out = ''
    for u in '千百十':
        if rng.random() < 0.5:
            out += rng.choice(['', digits(rng, 1)]) + u
    if not out or rng.random() < 0.5:
        out += digits(rng, 1)
    return out


def well_formed(rng):
    r = rng.random()
    if r < 0.4:
        return numeral(rng)
    out = ''
    for u in '兆億万':
        if rng.random() < 0.5:
            out += rng.choice([section(rng), digits(rng, rng.randint(1, 4)), section(rng)]) + u
    r = rng.random()
    if not out and r < 0.5:
        return rng.choice(['', digits(rng, rng.randint(1, 3))]) + '.'.join([digits(rng, 1), digits(rng, rng.randint(1, 14))]) + rng.choice('十百千万億兆')
    if not out or r < 0.7:
        out += rng.choice([section(rng), digits(rng, rng.randint(1, 4))])
    return out


def case(ctx, rng, i):
    parser = ctx.state.setdefault('parser', NumericParser())
    if i < SWEEP:
        a, b = SMALL_SET[i // len(SMALL_SET)], SMALL_SET[i % len(SMALL_SET)]
        if b == SMALL_SET[0]:
            judge(ctx, parser, a)
        for n in range(0, 5 if ctx.tier == 'quick' else 6):
            for t in itertools.product(SMALL_SET, repeat=n):
                judge(ctx, parser, a + b + ''.join(t))
        for j, t in enumerate(itertools.product(numeric.ALPHABET, repeat=3)):
            if j % SWEEP == i:
                judge(ctx, parser, ''.join(t))
                judge(ctx, parser, ''.join(t[:2]))
        ctx.distinct('sweep', i)
        return
    for _ in range(60):
        r = rng.random()
        s = well_formed(rng)
        ctx.note(text=s)
        if r < 0.5:
            verdict, value = numeric.evaluate(s)
            ok = judge(ctx, parser, s)
            if verdict == 'accept':
                expect(ok is not None, 'the well-formed %r is not accepted', s)
            if any(c in '十百千万億兆' for c in s):
                ctx.count('with_units')
        elif r < 0.8:
            # one edit away from a well-formed number
            k = rng.randrange(len(s) + 1)
            c = rng.choice(numeric.ALPHABET)
            s = rng.choice([s[:k] + c + s[k:], s[:k] + s[k + 1:], s[:k] + c + s[k + 1:], s[:k] + s[k + 1:k + 2] + s[k:k + 1] + s[k + 2:]])
            ok = judge(ctx, parser, s)
        else:
            s = ''.join(rng.choice(numeric.ALPHABET) for _ in range(rng.randint(0, 10)))
            ok = judge(ctx, parser, s)
        # what comes before must not matter
        if rng.random() < 0.1:
            one = NumericParser()
            new = judge(ctx, one, s)
            expect(new == ok, 'a used parser makes %r of %r, a new one %r', ok, s, new)
        if ok is not None:
            ctx.distinct(s)
            ctx.sample({'text': s, 'value': str(numeric.evaluate(s)[1])})

