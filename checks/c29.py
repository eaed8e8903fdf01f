"""C29: a result is the composition of the configured steps, each as often, in the order and with the options its list of settings gives."""
from rt import gen, model, sut
from rt.core import expect
from . import c02, c12, c13
from .common import compare_input

ID = 'C29'
LEVEL = 'exploration'
QUICK, THOROUGH = 2400, 40000
RULE = ('settings with lists of up to nine input text plugins, OOV providers and path rewrite plugins, also several of one kind with different options and '
        'definitions, options and lists left out; the text that is analysed, the path found, the path after every single plugin and the morphemes in every '
        'mode are compared with a reference of each step; non-trivial: a text that some plugin changes, distinct by settings and text')
REQUIRE = {'analyses': 4000, 'input_plugins': 3000, 'several_input': 350, 'several_providers': 400, 'several_rewriting': 400, 'repeated_kind': 500, 
           'mecab_providers': 500, 'changed_texts': 1000, 'joins': 500, 'defaults': 300, 'no_lists': 50, 'unit_lists': 200, 'five_or_more': 300}


def input_plugin(rng):
    if rng.random() < 0.4:
        return {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}
    p = {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin', 'prolongedSoundMarks': rng.sample(list(gen.PSM) + ['a', 'x', 'ア'], rng.randint(1, 4))}
    if rng.random() < 0.8:
        p['replacementSymbol'] = rng.choice(['ー', '〜', 'x', 'ーー', 'アー', 'a'])
    return p


def rewrite_plugin(rng, pos):
    if rng.random() < 0.5:
        p = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin'}
        if rng.random() < 0.8:
            p['enableNormalize'] = rng.random() < 0.5
        return p
    p = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': list(rng.choice(pos))}
    if rng.random() < 0.8:
        p['minLength'] = rng.choice([0, 1, 2, 3, 5])
    return p


def text(rng, heads):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.25:
            out.append(c13.text(rng, heads))
        elif r < 0.5:
            out.append(c12.text(rng, heads)[:20])
        elif r < 0.7:
            out.append(rng.choice('あアaｱ') + ''.join(rng.choice(list(gen.PSM) + ['a', 'ア']) for _ in range(rng.randint(1, 5))))
        else:
            out.append(gen.text(rng, heads, 1, 5))
    return ''.join(out)[:60]


def case(ctx, rng, i):
    kata = [''.join(rng.choice(c13.K) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(1, 6))]
    s = gen.sources(rng, users=rng.choice([0, 0, 1, 2]), n_words=rng.choice([3, 15]), composites=rng.choice([0, 3]), max_ids=3, knum_words=rng.random() < 0.6,
                    extra_heads=kata, standard=rng.choice([0, 0.5, 1]), noov=0.3, mecab=False)
    lists = {}
    lists['inputTextPlugin'] = [input_plugin(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, rng.randint(5, 9)]))]
    lists['pathRewritePlugin'] = [rewrite_plugin(rng, s.pos) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, rng.randint(5, 9)]))]
    providers = []
    mecab = rng.choice([0.5, 0.5, 0.5, 0.9, 1])
    for k in range(rng.choice([1, 2, 3, 4, 4, rng.randint(5, 9)])):
        if rng.random() < mecab:
            one, two = rng.choice([('mchar%d.def' % k, 'unk%d.def' % k), ('%d/mchar.def' % k, '%d/unk.def' % k), ('%d/mchar.def' % k, 'unk%d.def' % k)])
            cd = gen.chardef_text(rng)
            defined = [l.split()[0] for l in cd.split('\n') if l.strip() and not l.startswith(('0x', '#')) and l.strip()[0] != '#']
            if rng.random() < 0.5 and len(defined) > 2:
                defined = rng.sample(defined, rng.choice([1, 2]))      # nothing for most characters
            s.files[one] = cd
            s.files[two] = gen.unk_text(rng, s.lsize, s.rsize, s.pos, defined)
            providers.append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': one, 'unkDef': two})
            ctx.count('mecab_providers')
        else:
            providers.append({'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(rng.choice(s.pos)), 'leftId': rng.randrange(s.rsize),
                              'rightId': rng.randrange(s.lsize), 'cost': rng.randint(-500, 20000)})
    lists['oovProviderPlugin'] = providers
    for k in list(s.settings):
        if k.endswith('Plugin'):
            del s.settings[k]
    order = list(lists)
    rng.shuffle(order)
    for k in order:
        if lists[k] or rng.random() < 0.5:
            s.settings[k] = lists[k]
        else:
            ctx.count('no_lists')
    for k, name in (('inputTextPlugin', 'several_input'), ('oovProviderPlugin', 'several_providers'), ('pathRewritePlugin', 'several_rewriting')):
        ctx.count(name, len(lists[k]) > 1)
        ctx.count('five_or_more', len(lists[k]) > 4)
        kinds = [p['class'] for p in lists[k]]
        ctx.count('repeated_kind', len(set(kinds)) < len(kinds))
        ctx.count('defaults', sum(('Numeric' in p['class'] and 'enableNormalize' not in p) or ('Katakana' in p['class'] and 'minLength' not in p)
                                  or ('Prolonged' in p['class'] and 'replacementSymbol' not in p) for p in lists[k]))
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    numeric_pos = world.system.pos.index(gen.POS_NUM)
    dic = sut.load(s)
    recs = sut.watch_each(dic)
    plain = sut.load(s)
    rewriting = lists['pathRewritePlugin']
    expect(len(recs) == len(rewriting) + 1, '%d path rewrite plugins for %r', len(recs) - 1, rewriting)
    tok, other = dic.create(), plain.create()
    for _ in range(8):
        tx = text(rng, s.heads)
        if not tx:
            continue
        ctx.note(text=tx)
        ctx.count('evaluations')
        ctx.count('analyses')
        ctx.count('input_plugins', len(lists['inputTextPlugin']))
        t = world.input(tx)
        try:
            cands = world.lattice(t)
            world.best_cost(t, cands)
        except (model.NoMorpheme, model.NotConnected):
            try:
                tok.tokenize(tx)
            except Exception:
                ctx.count('no_path')
                continue
            expect(False, '%r has no path, but was analysed', tx)
        ml = tok.tokenize(tx)
        compare_input(recs[0].text, t, 'input text plugins')
        c02.check_path(ctx, world, tx, t, cands, recs[0].nodes)
        changed = t.chars != tx
        ctx.count('changed_texts', changed)
        for k, p in enumerate(rewriting):
            what = '%r, path rewrite plugin %d of %r' % (tx, k, [q['class'].split('.')[-1] for q in rewriting])
            if 'Numeric' in p['class']:
                joined = c12.judge(ctx, what, t, recs[k], recs[k + 1], numeric_pos, p.get('enableNormalize', True))
            else:
                joined = c13.judge(ctx, what, world, t, cands, recs[k], recs[k + 1], p)
            changed = changed or joined
        final = recs[-1].nodes
        # the morphemes, in every mode
        want = {'A': [], 'B': [], 'C': []}
        for v in final:
            b, e = t.origin[t.char_at[v['b']]], t.origin[t.char_at[v['e']]]
            whole = (b, e, tx[b:e], v['dic'], v['norm'], v['dform'], v['reading'], v['oov'])
            want['C'].append(whole)
            for mode, attr in (('A', 'a'), ('B', 'b')):
                units = [world.unit(v['dic'], u) for u in getattr(world.word(v['dic'], v['word']), attr)] if v['dic'] >= 0 else []
                if len(units) < 2:
                    want[mode].append(whole)
                    continue
                ctx.count('unit_lists')
                at, ub = v['b'], b
                for d, w in units:
                    u = world.word(d, w)
                    at += u.head_len
                    ue = t.origin[t.char_at[at]]
                    want[mode].append((ub, ue, tx[ub:ue], d, u.normalized, u.dicform, u.reading, False))
                    ub = ue
        got = {m: [(x.begin(), x.end(), x.surface(), x.dictionary_id(), x.normalized_form(), x.dictionary_form(), x.reading_form(), bool(x.is_oov()))
                   for x in other.tokenize(tx, sut.MODES[m])] for m in 'ABC'}
        got['C again'] = [(x.begin(), x.end(), x.surface(), x.dictionary_id(), x.normalized_form(), x.dictionary_form(), x.reading_form(), bool(x.is_oov()))
                          for x in ml]
        want['C again'] = want['C']
        for m in got:
            expect(got[m] == want[m], 'mode %s of %r: %r, expected %r', m, tx, got[m], want[m])
        if changed:
            ctx.distinct(s.settings, tx)
            ctx.sample({'text': tx, 'rewritten': t.chars, 'settings': [p['class'].split('.')[-1] for k in order for p in lists[k]], 'morphemes': [x[2] for x in got['C']]})
