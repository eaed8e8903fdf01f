"""C02: the segmentation is a least-cost path through the candidate words."""
from collections import Counter

from rt import gen, model, sut
from rt.core import expect
from .common import make

ID = 'C02'
LEVEL = 'exploration'
QUICK, THOROUGH = 1600, 40000
RULE = ('random sources (lexicon, connection matrix incl. non-square, sparse and extreme costs, user dictionaries, OOV definitions) '
        'and random texts; the path recorded before path rewriting is priced from the sources and compared with the least cost a '
        'reference search finds, and all words of the lattice with the candidates of the sources; non-trivial: at least two candidate paths, distinct by path')
REQUIRE = {'paths_priced': 2000, 'with_alternatives': 500, 'oov_nodes': 100, 'user_nodes': 50, 'beyond_32_bits': 4, 'worlds_of_homographs': 40, 'later_dictionaries': 10, 'long_words': 40, 'lattices_compared': 8000, 'equal_spans': 1500}


class Lattices(sut.Recorder):
    """Keeps all words of the lattice, too."""

    def rewrite(self, text, path, lattice):
        super().rewrite(text, path, lattice)
        self.words = []
        for e in range(1, len(text.get_byte_text()) + 1):
            for n in lattice.get_nodes_with_end(e):
                dic = n.get_dictionary_id()
                self.words.append((n.get_begin(), n.get_end(), n.get_left_id(), n.get_right_id(), n.get_path_cost(), dic, n.get_word_id() & 0x0FFFFFFF if dic >= 0 else None,
                                   bool(n.is_oov())))


def check_candidates(ctx, text, by_begin, words):
    want = Counter((b, c.e, c.left, c.right, c.cost, c.dic, c.word if c.dic >= 0 else None, c.dic < 0) for b, cs in by_begin.items() for c in cs)
    got = Counter(words)
    expect(got == want, '%r: not among the candidates %r, wrongly or too often among them %r', text, list((want - got).elements())[:10], list((got - want).elements())[:10])
    ctx.count('lattices_compared')
    ctx.count('equal_spans', max(Counter(k[:4] for k in want.elements()).values()) > 1)


def check_path(ctx, world, text, t, by_begin, nodes):
    path = []
    for v in nodes:
        cands = by_begin.get(v['b'], [])
        match = [c for c in cands if c.e == v['e'] and (c.left, c.right, c.cost, c.dic, c.word) == (v['left'], v['right'], v['cost'], v['dic'], v['word'])]
        expect(match, 'the path of %r has %r, which is not among the words that can begin there: %r', text,
               {k: v[k] for k in ('b', 'e', 'left', 'right', 'cost', 'dic', 'word')}, [c.key() for c in cands][:30])
        expect(v['oov'] == (match[0].dic < 0), 'the path of %r: %r is%s marked as out of vocabulary', text, v['surface'], '' if v['oov'] else ' not')
        if v['oov']:
            ctx.count('oov_nodes')
        elif v['dic'] > 0:
            ctx.count('user_nodes')
            ctx.count('later_dictionaries', v['dic'] >= 8)
        ctx.count('long_words', v['e'] - v['b'] > 255 and not v['oov'])
        path.append((v['left'], v['right'], v['cost']))
    cost = world.path_cost(path)
    best = world.best_cost(t, by_begin)
    expect(cost is not None, 'the path of %r uses an inhibited connection: %r', text, path)
    expect(cost == best, 'the path of %r costs %r, but the least cost is %r (path %r)', text, cost, best,
           [(v['b'], v['e'], v['left'], v['right'], v['cost']) for v in nodes][:40])
    ctx.count('paths_priced')
    n = sum(len(c) for c in by_begin.values())
    ctx.count('candidates', n)
    ctx.peak('abs_cost', abs(cost))
    if n > len(nodes):
        ctx.count('with_alternatives')
        ctx.distinct(text, path)
    return cost


def case(ctx, rng, i):
    if i % 200 == 7:
        return long_case(ctx, rng)
    inhibit = rng.choice([0, 0, 0, 0.1])
    many = {'homographs': rng.randint(60, 200), 'extra_heads': [gen.headword(rng)]} if i % 25 == 13 else {}
    s = make(ctx, rng, users=rng.choice([0, 0, 1, 2, 3]), inhibit=inhibit, simple_last=rng.random() < 0.8, max_ids=rng.choice([3, 6, 12]),
             long_words=i % 25 == 21 or None, **many)
    if many:
        ctx.count('worlds_of_homographs')
        s.heads += many['extra_heads'] * 20
    world = sut.reference(s)
    dic = sut.load(s)
    before = Lattices()
    dic.path_rewrite_plugins = [before] + list(dic.path_rewrite_plugins)
    tok = dic.create()
    for k in range(25):
        text = gen.text(rng, s.heads, 1, 10)
        if k < 4 and s.long_heads:
            text = text[:20] + rng.choice(s.long_heads) + gen.text(rng, s.heads, 0, 2)[:20]
        if not text:
            continue
        ctx.note(text=text)
        ctx.count('evaluations')
        t = world.input(text)
        try:
            by_begin = world.lattice(t)
            best = world.best_cost(t, by_begin)
        except (model.NoMorpheme, model.NotConnected):
            try:
                ml = tok.tokenize(text)
            except Exception:
                ctx.count('no_path')
                continue
            expect(False, '%r has no path, but was analysed: %r', text, [m.surface() for m in ml])
        tok.tokenize(text, sut.MODES[rng.choice('ABC')])
        check_candidates(ctx, text, by_begin, before.words)
        cost = check_path(ctx, world, text, t, by_begin, before.nodes)
        ctx.sample({'text': text, 'path': [[v['surface'], v['left'], v['right'], v['cost']] for v in before.nodes], 'cost': cost})


def long_case(ctx, rng):
    """Costs that add up to more than 32 bits; at every position there are alternatives."""
    s = gen.sources(rng, n_words=2, composites=0, mecab=False, max_ids=3, square=True, plugins=False, psm=False, default_plugin=False)
    l, r = s.lsize, s.rsize
    sign = rng.choice([1, -1])
    spread = rng.choice([3, 100, 3000])
    s.matrix = '%d %d\n' % (l, r) + ''.join('%d %d %d\n' % (a, b, sign * (32766 - rng.randrange(spread))) for a in range(l) for b in range(r))
    rows = []
    for head in 'いろ':
        for k in range(rng.randint(2, 4)):
            rows.append([head, rng.randrange(r), rng.randrange(l), sign * (32767 - rng.randrange(spread)), head, *gen.POS_OOV, head + 'x' * k, head, '*', 'A', '*', '*', '*', '*'])
    for head in ('いろ', 'ろい', 'いろい'):
        # of no use in sums that grow, but there
        if sign < 0:
            rows.append([head, rng.randrange(r), rng.randrange(l), rng.randint(-32768, -30000), head, *gen.POS_OOV, head, head, '*', 'A', '*', '*', '*', '*'])
    s.sys_texts.append(gen.csv_text(rows))
    sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    dic = sut.load(s)
    before, _ = sut.watch(dic)
    tok = dic.create()
    text = ''.join(rng.choice(['い', 'ろ']) for _ in range(37000 + rng.randrange(3000)))
    ctx.note(text=text[:50] + '... (%d characters)' % len(text))
    ctx.count('evaluations')
    t = world.input(text)
    by_begin = world.lattice(t)
    tok.tokenize(text)
    cost = check_path(ctx, world, text[:50], t, by_begin, before.nodes)
    if abs(cost) > 2 ** 31:
        ctx.count('beyond_32_bits')
