"""C25: what a morpheme reports is what the source of its word says, however often and in whatever order it is asked."""
from rt import gen, sut
from rt.core import expect
from .common import make

ID = 'C25'
LEVEL = 'exploration'
QUICK, THOROUGH = 250, 6000
CASE_CPU = 150
RULE = ('dictionaries of 20 to 3000 words (more than any cache holds), rarely beyond 65536, with up to 9000 parts of speech, and up to three user dictionaries; words are analysed in random '
        'orders with repetitions and modes, results are kept and read again later; every attribute is compared with the sources; '
        'non-trivial: a dictionary word, distinct by its attributes')
REQUIRE = {'morphemes': 20000, 'oov_morphemes': 500, 'reread': 2000, 'user_morphemes': 500, 'worlds_beyond_cache': 10, 'rounds_beyond_cache': 5, 'huge': 1, 'later_dictionaries': 100, 'many_parts_of_speech': 4, 'joined_morphemes': 200, 'joined_without_reading': 50}


def check(ctx, world, posids, m, text, node=None, joined=False):
    v = sut.view(m)
    ctx.count('morphemes')
    if node is not None:
        # a word of the path as it was after the last path rewrite plugin
        got = (v['oov'], v['dic'], v['wid'], v['norm'], v['dform'], v['reading'], v['pos_id'], v['syn'])
        want = tuple(node[x] for x in ('oov', 'dic', 'wid', 'norm', 'dform', 'reading', 'pos_id', 'syn'))
        expect(got == want, 'the word %r of %r reports %r, it was made as %r', v['surface'], text, got, want)
        expect(v['pos'] == posids['names'][v['pos_id']], 'the word %r of %r with the part of speech ID %d: %r', v['surface'], text, v['pos_id'], v['pos'])
        if joined:
            ctx.count('joined_morphemes')
            ctx.count('joined_without_reading', not v['oov'] and not v['reading'])
            return
    if v['dic'] < 0:
        expect(v['oov'], '%r in %r has dictionary ID %r but is not marked out of vocabulary', v['surface'], text, v['dic'])
        expect(v['pos'] in world.oov_pos, 'out of vocabulary %r in %r is %r', v['surface'], text, v['pos'])
        expect((v['reading'], v['syn']) == ('', []), 'out of vocabulary %r has %r %r', v['surface'], v['reading'], v['syn'])
        expect(v['norm'] == v['dform'], 'out of vocabulary %r has %r %r', v['surface'], v['norm'], v['dform'])
        ctx.count('oov_morphemes')
        return
    expect(not v['oov'], '%r in %r of dictionary %r is marked out of vocabulary', v['surface'], text, v['dic'])
    expect(v['dic'] < len(world.dics) and v['wid'] >> 28 == v['dic'] and v['wid'] & 0x0fffffff < len(world.dics[v['dic']].words),
           '%r: word ID %r, dictionary %r', v['surface'], v['wid'], v['dic'])
    w = world.word(v['dic'], v['wid'] & 0x0fffffff)
    got = (v['pos'], v['dform'], v['norm'], v['reading'], v['syn'])
    want = (w.pos, w.dicform, w.normalized, w.reading, w.syn)
    expect(got == want, 'word %r of dictionary %d in %r: %r, its source says %r', w.headword, v['dic'], text, got, want)
    expect(v['pos_id'] == posids[v['dic']][w.pos] , 'word %r of dictionary %d: part of speech ID %r, expected %r', w.headword, v['dic'],
           v['pos_id'], posids[v['dic']][w.pos])
    info = m.get_word_info()
    expect((info.surface, info.head_word_length, info.length()) == (w.surface, w.head_len, w.head_len), 'word %r: %r %r', w.headword,
           info.surface, info.head_word_length)
    for name, units in (('a_unit_split', w.a), ('b_unit_split', w.b), ('word_structure', w.c)):
        ids = [(d << 28) | k for d, k in (world.unit(v['dic'], u) for u in units)]
        expect(list(getattr(info, name)) == ids, 'word %r: %s %r, expected %r', w.headword, name, getattr(info, name), ids)
    if v['dic'] > 0:
        ctx.count('user_morphemes')
        ctx.count('later_dictionaries', v['dic'] >= 8)
    ctx.distinct(v['dic'], v['wid'], got)


def pos_ids(world):
    """Per dictionary: part of speech -> ID"""
    out = []
    base = len(world.system.pos)
    sysids = {p: i for i, p in enumerate(world.system.pos)}
    at = base
    out.append(sysids)
    for d in world.dics[1:]:
        ids = dict(sysids)
        for k, p in enumerate(d.pos):
            ids[p] = at + k
        at += len(d.pos)
        out.append(ids)
    return dict(enumerate(out), names={k: p for ids in out for p, k in ids.items()})


def case(ctx, rng, i):
    big = i % 8 == 3
    huge = i % 150 == 99
    if huge:
        ctx.count('huge')
    s = make(ctx, rng, n_words=rng.choice([1500, 3000]) if big else rng.choice([20, 60, 150]), users=1 if huge else rng.randint(8, 15) if i % 16 == 5 else rng.choice([0, 1, 2, 3]),
             plugins=False, rewrite=rng.choice([None, None, None, 'numeric', 'katakana', 'both']), composites=rng.randint(0, 10), huge=rng.randint(65600, 67000) if huge else 0, huge_user=rng.choice([0, 66000]) if huge else 0,
             user_words=(rng.randint(5, 60), rng.randint(2, 12)) if big or rng.random() < 0.3 else None)
    if big:
        ctx.count('worlds_beyond_cache')
    if i % 32 == 11:
        # more parts of speech than one might think of
        n = rng.choice([1100, 2100, 4200, 9000])
        many = ['類%s' % ''.join(chr(0x3042 + int(c)) for c in str(k)) for k in range(n)]
        for k, head in enumerate(many):
            s.syslex.add(head, pos=('名詞', '類', '第%d' % k, '*', '*', '*'))
        s.sys_texts = s.syslex.texts(len(s.sys_texts))
        sut.materialise(ctx.dir, s)
        s.heads += many[::37] + many[-20:]
        ctx.count('many_parts_of_speech')
    simple = [p for p in s.settings['oovProviderPlugin'] if 'oovPOS' in p]
    if simple and 'pathRewritePlugin' in s.settings and rng.random() < 0.5:
        simple[0]['oovPOS'] = list(gen.POS_NUM)      # numbers of words out of vocabulary are joined
        sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    world.oov_pos = {tuple(p['oovPOS']) for p in s.settings['oovProviderPlugin'] if 'oovPOS' in p}
    if world.unk:
        world.oov_pos |= {o[3] for os_ in world.unk.values() for o in os_}
    posids = pos_ids(world)
    dic = sut.load(s)
    before, after = sut.watch(dic)
    tok = dic.create()
    kept = []
    for _ in range(400 if big else 25):
        text = gen.text(rng, s.heads, 1, 12, wild=0.05)
        if 'pathRewritePlugin' in s.settings and rng.random() < 0.5:
            text += rng.choice(['12', '3.5', '一二', '1,000', 'アイア', 'ヌノイ'])
        ctx.note(text=text)
        ctx.count('evaluations')
        ml = tok.tokenize(text, sut.MODES[rng.choice('ABC')])
        old = set(map(id, before.raw))
        made = [(n, id(r) not in old) for n, r in zip(after.nodes, after.raw) if n['dic'] < 0]
        of_none = [m.dictionary_id() < 0 for m in ml]
        expect(sum(of_none) == len(made), 'of the words of %r %d are of no dictionary, %d were', text, sum(of_none), len(made))
        made = iter(made)
        known = [next(made) if x else None for x in of_none]
        for m, k in zip(ml, known):
            check(ctx, world, posids, m, text, *(k or ()))
            if k and k[1]:
                continue
            for sm in 'AB':
                for x in m.split(sut.MODES[sm]):
                    check(ctx, world, posids, x, text)
        kept.append((ml, text, known))
        if len(ml):
            ctx.sample({'text': text, 'first': sut.view(ml[0])})
        if rng.random() < 0.2:
            old, otext, known = rng.choice(kept)
            for m, k in zip(old, known):
                check(ctx, world, posids, m, otext, *(k or ()))
                ctx.count('reread')
    # the order of reading must not matter, nor how often a word was read: all words directly, in rounds
    lex = dic.lexicon
    order = [(d, k) for d in range(len(world.dics)) for k in range(len(world.dics[d].words))]
    rng.shuffle(order)
    order = order[:3000]
    first = list(order)
    if i % 3:
        rng.shuffle(order)
        order = first + order
    for d, k in order:
        info = lex.get_word_info((d << 28) | k)
        w = world.word(d, k)
        got = (info.surface, info.head_word_length, info.pos_id, info.normalized_form, info.dictionary_form, info.reading_form,
               info.dictionary_form_word_id, list(info.synonym_group_ids))
        want = (w.surface, w.head_len, posids[d][w.pos], w.normalized, w.dicform, w.reading, w.dicform_id, w.syn)
        expect(got == want, 'word %d of dictionary %d: %r, its source says %r', k, d, got, want)
        for name, units in (('a_unit_split', w.a), ('b_unit_split', w.b), ('word_structure', w.c)):
            ids = [(e << 28) | n for e, n in (world.unit(d, u) for u in units)]
            expect(list(getattr(info, name)) == ids, 'word %d of dictionary %d: %s %r, expected %r', k, d, name, getattr(info, name), ids)
        ctx.count('direct_reads')
    if len(order) > len(first) > 1100:
        ctx.count('rounds_beyond_cache')
