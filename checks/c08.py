"""C08: the categories of every code point are the union of the ranges that hold it."""
import os

from rt import gen, model, sut
from rt.core import expect
from sudachipy.dictionarylib.charactercategory import CharacterCategory

ID = 'C08'
LEVEL = 'exploration'
QUICK, THOROUGH = 4000, 150000
RULE = ('random definitions (0 to 40 ranges, nested, overlapping, adjacent, identical, single code points, up to 0x10FFFF, in any order, with comments and '
        'property lines); every boundary with its neighbours and random code points are asked, for one definition in 100 and the shipped '
        'one all code points; compared with the union over the lines; non-trivial: overlapping ranges, distinct by categories found')
REQUIRE = {'definitions': 3000, 'queries': 200000, 'unions': 20000, 'defaults': 10000, 'all_code_points': 5, 'many_ranges': 40, 'many_categories': 300}

MAX = 0x10ffff


def definition(rng):
    n = rng.choice([1, 1, 2, 3, 5, 8, 15, 40]) if rng.random() < 0.97 else rng.choice([100, 270, 300, 600])
    base = rng.choice([0, 0x20, 0x3040, 0x4e00, 0xff00, 0x10000, MAX - 60, rng.randrange(MAX)])
    span = rng.choice([5, 10, 30, 200, 5000]) if n < 100 else rng.choice([5000, 60000, 600000])
    cats_pool = gen.CATS + ['NOOOVBOW']
    if rng.random() < 0.4:
        cats_pool = rng.sample(cats_pool, 3)
    lines, points = [], set()
    for _ in range(n):
        if rng.random() < 0.15:
            lo = rng.randrange(MAX)
        else:
            lo = min(MAX, base + rng.randrange(span))
        hi = min(MAX, lo + rng.choice([0, 0, 1, 2, 5, rng.randrange(span), rng.randrange(span)] if n < 100 else [0, 0, 1, 2, 3, rng.randrange(span // n)]))
        if points and rng.random() < 0.3:
            # shares a boundary with another range
            edge = rng.choice(sorted(points))
            lo, hi = rng.choice([(edge, max(edge, hi)), (min(lo, edge), edge), (min(MAX, edge + 1), max(min(MAX, edge + 1), hi)), (edge, edge)])
        cats = [rng.choice(cats_pool) for _ in range(rng.choice([1, 1, 1, 2, 3] * 6 + [6, 12, 30]))]
        if rng.random() < 0.9:
            cats = list(dict.fromkeys(cats))
        else:
            cats = list(dict.fromkeys(cats))
            rng.shuffle(cats)
        fmt = rng.choice(['0x%04X', '0x%x', '0x%X', '0x%08X'])
        left = fmt % lo if lo == hi and rng.random() < 0.7 else (fmt % lo) + '..' + (fmt % hi)
        lines.append(left + rng.choice([' ', '\t', '   ']) + rng.choice([' ', '\t']).join(cats) + rng.choice(['', '', ' ', '  # x', ' #KANJI ALPHA']))
        if rng.random() < 0.1:
            lines.append(rng.choice(['', '# 0x0041 ALPHA', 'KANJI 0 0 2', '   ', 'ALPHA 1 1 0']))
        points |= {lo, hi}
    return '\n'.join(lines) + rng.choice(['', '\n', '\n\n']), points


def ask(ctx, cc, ref, cp, text):
    got = {c.name for c in cc.get_category_types(cp)}
    want = set()
    n = 0
    hit = False
    for lo, hi, cs in ref.ranges:
        if lo <= cp <= hi:
            hit = True
            n += 1
            want |= cs
    if not hit:
        want = {'DEFAULT'}
        ctx.count('defaults')
    expect(got == want, 'categories of %#x: %r, expected %r', cp, sorted(got), sorted(want))
    ctx.count('queries')
    if n > 1:
        ctx.count('unions')
        ctx.distinct(tuple(sorted(want)), n, cp)


def everything(ctx, cc, ref):
    want = [None] * (MAX + 2)
    # difference lists instead of a search
    opens = {}
    for lo, hi, cs in ref.ranges:
        opens.setdefault(lo, []).append((1, cs))
        opens.setdefault(hi + 1, []).append((-1, cs))
    live = {}
    cur = {'DEFAULT'}
    depth = 0
    for cp in range(MAX + 1):
        if cp in opens:
            for sign, cs in opens[cp]:
                depth += sign
                for c in cs:
                    live[c] = live.get(c, 0) + sign
            cur = {c for c, k in live.items() if k} if depth else {'DEFAULT'}
        got = cc.get_category_types(cp)
        if len(got) != len(cur) or {c.name for c in got} != cur:
            expect(False, 'categories of %#x: %r, expected %r', cp, got, cur)
    ctx.count('all_code_points')
    ctx.count('queries', MAX + 1)


def case(ctx, rng, i):
    if i == 0:
        from sudachipy import config
        path = os.path.join(os.path.dirname(config.__file__), 'resources', 'char.def')
        cc = CharacterCategory()
        cc.read_character_definition(path)
        with open(path, encoding='utf-8') as f:
            ref = model.CharDef(f.read())
        everything(ctx, cc, ref)
        return
    text, points = definition(rng)
    ctx.note(definition=text)
    path = sut.write(os.path.join(ctx.dir, 'char.def'), text)
    cc = CharacterCategory()
    cc.read_character_definition(path)
    ref = model.CharDef(text)
    ctx.count('definitions')
    ctx.count('many_ranges', len(ref.ranges) > 250)
    ctx.count('many_categories', any(len(c) > 7 for _, _, c in ref.ranges))
    ctx.count('evaluations')
    ps = set()
    for p in points:
        ps |= {p - 1, p, p + 1, p + 2}
    ps |= {rng.randrange(MAX + 1) for _ in range(20)} | {0, MAX, 0x41, 0xd800}
    lo, hi = min(points), max(points)
    ps |= {rng.randint(lo, hi) for _ in range(30)}
    for cp in sorted(p for p in ps if 0 <= p <= MAX):
        ask(ctx, cc, ref, cp, text)
    if i % 400 == 5:
        everything(ctx, cc, ref)
    ctx.sample({'definition': text[:400], 'asked': sorted(ps)[:10]})
