"""C13: katakana words are joined around OOV and short words."""
from rt import gen, model, sut
from rt.core import expect
from .common import check_partition, make

ID = 'C13'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 70000
RULE = ('random dictionaries with katakana words, minimum lengths from 0 to 5 (or the default), character definitions with NOOOVBOW and with several '
        'categories for katakana; texts mostly of katakana words; the path is recorded before and after the plugin and the difference compared with a '
        'reference of the joining; non-trivial: a path with a join, distinct by words')
REQUIRE = {'paths': 15000, 'joins': 4000, 'new_words': 1000, 'words_of_the_lattice': 300, 'trimmed': 100, 'around_short_words': 500, 'unchanged': 3000,
           'only_one_left': 50, 'long_runs': 100, 'late_in_long_runs': 20, 'with_four_bytes': 100, 'short_in_four_bytes': 60}
K = 'アイカキコサタナニハマヤランーャァ𛀀𛀁ｱ'
FOUR = '𛀀𛀁𛀀𛀁𛀀𛀁ア'


def judge(ctx, what, world, t, cands, rec0, rec1, plugin):
    before, after = rec0.nodes, rec1.nodes
    least = plugin.get('minLength', 1)

    def chars(v):
        return t.char_at[v['b']], t.char_at[v['e']]

    kata = ['KATAKANA' in t.range_categories(*chars(v)) for v in before]
    small = []
    for v in before:
        b, e = chars(v)
        small.append(v['oov'] or e - b < least)
    want = []
    k = 0
    while k < len(before):
        if not kata[k]:
            want.append((k, k + 1))
            k += 1
            continue
        e = k
        while e < len(before) and kata[e]:
            e += 1
        b = k
        if any(small[k:e]):
            while b < e and 'NOOOVBOW' in t.cats[chars(before[b])[0]]:
                b += 1
            if b > k:
                ctx.count('trimmed')
            if e - b <= 1:
                ctx.count('only_one_left')
                b = e
            if not any(v['oov'] for v in before[k:e]) and e - b > 1:
                ctx.count('around_short_words')
                if all((v['e'] - v['b']) // 3 >= least for v in before[k:e]):
                    ctx.count('short_in_four_bytes')
        else:
            b = e
        want += [(x, x + 1) for x in range(k, b)]
        if e > b:
            want.append((b, e))
        k = e
    ctx.count('paths')
    shown = [(v['surface'], 'OOV' if v['oov'] else '') for v in before]
    expect(len(after) == len(want), '%s: the words %r become %r, expected %r', what, shown, [v['surface'] for v in after], want)
    joined = []
    for k, (b, e) in enumerate(want):
        v = after[k]
        if e - b == 1:
            expect(rec1.raw[k] is rec0.raw[b] and v == before[b], '%s: the word %r of %r was replaced by %r', what, before[b], shown, v)
            continue
        old = before[b:e]
        ctx.count('joins')
        ctx.count('long_runs', e - b > 32)
        ctx.count('late_in_long_runs', e - b > 32 and not any(small[b:b + 17]))
        expect((v['b'], v['e']) == (old[0]['b'], old[-1]['e']), '%s: joining %r of %r gives the span %r', what, (b, e), shown, (v['b'], v['e']))
        same = [c for c in cands.get(v['b'], []) if c.e == v['e']]
        if same:
            ctx.count('words_of_the_lattice')
            low = min(c.cost for c in same)
            ok = [c for c in same if c.cost == low and (c.left, c.right, c.cost, c.dic, c.word) == (v['left'], v['right'], v['cost'], v['dic'], v['word'])]
            expect(ok, '%s: joining %r of %r gives %r, the cheapest words there are %r', what, (b, e), shown, v, [c.key() for c in same])
            if v['dic'] >= 0:
                expect(v['surface'] == world.word(v['dic'], v['word']).surface, '%s: the word is %r', what, v)
        else:
            ctx.count('new_words')
            if t.char_at[v['e']] - t.char_at[v['b']] < (v['e'] - v['b']) // 3:
                ctx.count('with_four_bytes')
            s = ''.join(o['surface'] for o in old)
            exp = {'surface': s, 'norm': s, 'dform': s, 'reading': '', 'pos_id': world.system.pos.index(tuple(plugin['oovPOS'])), 'oov': True, 'dic': -1,
                   'len': sum(o['len'] for o in old), 'a': [], 'b_': [], 'syn': []}
            got = {x: v[x] for x in exp}
            expect(got == exp, '%s: joining %r of %r gives %r, expected %r', what, (b, e), shown, got, exp)
        joined.append(tuple(o['surface'] for o in old))
    return joined


def text(rng, heads):
    kata = [h for h in heads if all(c in K for c in h)]
    if kata and rng.random() < 0.02:
        # a long run of words, few of which are out of vocabulary or short
        some = [rng.choice(kata) for _ in range(3)]
        longest = max(kata, key=len)
        some = rng.choice([some, [longest], [longest] * 30 + some])
        return ''.join([rng.choice(['', 'ア', rng.choice(heads)])] + [rng.choice(some) for _ in range(rng.choice([20, 35, 70, 140, 270]))] + [rng.choice(['', 'ヰ', 'アア', rng.choice(heads)])])
    out = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.4 and kata:
            out.append(rng.choice(kata))
        elif r < 0.75:
            out.append(''.join(rng.choice(K) for _ in range(rng.randint(1, 4))))
        elif r < 0.8:
            out.append(gen.pick_run(rng, 1, 2))
        else:
            out.append(rng.choice(heads))
    return ''.join(out)


def case(ctx, rng, i):
    # characters of four bytes: words of as many bytes as longer words have
    four = rng.random() < 0.15
    letters = FOUR if four else K
    words = [''.join(rng.choice(letters) for _ in range(rng.choice([3, 3, 4, 5, 6] if four else [1, 1, 2, 2, 3, 4]))) for _ in range(rng.randint(2, 14))]
    if rng.random() < 0.5:
        words += [rng.choice(words) + rng.choice(words) for _ in range(4)]
    s = make(ctx, rng, users=rng.choice([0, 0, 1, 2]), rewrite=rng.choice(['katakana', 'katakana', 'both']), n_words=rng.choice([1, 6]), composites=0, noov=0.6, max_ids=3,
             extra_heads=words, standard=rng.choice([0.3, 1, 1]))
    if len(s.settings['pathRewritePlugin']) == 2 and rng.random() < 0.3:
        s.settings['pathRewritePlugin'].reverse()
    which = [k for k, p in enumerate(s.settings['pathRewritePlugin']) if 'Katakana' in p['class']][0]
    plugin = s.settings['pathRewritePlugin'][which]
    plugin['oovPOS'] = list(rng.choice(s.pos[:3]))
    if four and rng.random() < 0.8:
        plugin['minLength'] = rng.choice([4, 4, 5, 6])
    sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    dic = sut.load(s)
    recs = sut.watch_each(dic)
    tok = dic.create()
    for _ in range(12):
        tx = ''.join(rng.choice(words) for _ in range(rng.randint(2, 4))) if four and rng.random() < 0.7 else text(rng, s.heads)
        if not tx:
            continue
        ctx.note(text=tx)
        ctx.count('evaluations')
        t = world.input(tx)
        cands = world.lattice(t)
        ml = tok.tokenize(tx)
        check_partition(ml, tx, 'mode C')
        joined = judge(ctx, '%r' % tx, world, t, cands, recs[which], recs[which + 1], plugin)
        if joined:
            ctx.distinct(joined)
            ctx.sample({'text': tx, 'before': [v['surface'] for v in recs[which].nodes], 'after': [v['surface'] for v in recs[which + 1].nodes]})
        else:
            ctx.count('unchanged')
