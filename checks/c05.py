"""C05: modes A and B are mode C with every word replaced by its units; split() agrees."""
from rt import gen, sut
from rt.core import expect
from .common import make

ID = 'C05'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 50000
RULE = ('random dictionaries with words composed of other words (IDs, U-IDs, inline references, one unit, A finer than B, user '
        'dictionaries referring to the system and to themselves); modes A and B and split() against mode C and the sources; '
        'non-trivial: a text with a word that has units, distinct by units')
REQUIRE = {'unit_lists': 1000, 'user_units': 50, 'split_calls': 1000, 'one_unit': 5, 'a_differs_from_b': 50, 'more_than_32_units': 40}


def ident(v):
    return (v['dic'], v['wid'])


def case(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 1, 1, 2, 4]), n_words=rng.choice([4, 10, 20]), composites=rng.choice([4, 8, 12]),
             plugins=rng.random() < 0.3)
    world = sut.reference(s)
    dic = sut.load(s)
    _, after = sut.watch(dic)
    tok = {m: dic.create(sut.MODES[m]) for m in 'ABC'}
    # favour the words that have units
    comp = []
    for d in world.dics:
        comp += [w.headword for w in d.words if w.indexed and (w.a or w.b)]
    for _ in range(12):
        text = gen.text(rng, (comp * 3 + s.heads) if comp else s.heads, 1, 5, wild=0.03)
        if not text:
            continue
        ctx.note(text=text)
        ctx.count('evaluations')
        explicit = rng.random() < 0.5
        base = tok['C'].tokenize(text, sut.MODES['C'] if explicit else None)
        nodes = after.nodes
        t = world.input(text)
        expected = {'A': [], 'B': []}
        units_seen = []
        for k, m in enumerate(base):
            v = sut.view(m)
            both = {}
            for mode, attr in (('A', 'a'), ('B', 'b')):
                units = []
                word = None
                if v['dic'] >= 0:
                    word = world.word(v['dic'], v['wid'] & 0x0fffffff)
                    units = [world.unit(v['dic'], u) for u in getattr(word, attr)]
                both[mode] = units
                if len(units) == 1:
                    ctx.count('one_unit')
                if len(units) < 2:
                    exp = [(v['begin'], v['end'], v['surface'], v['dic'], v['wid'], v['norm'], v['reading'], v['dform'], v['pos'])]
                else:
                    exp = []
                    at, b = nodes[k]['b'], v['begin']
                    for d, w in units:
                        u = world.word(d, w)
                        at += u.head_len
                        e = t.origin[t.char_at[at]]
                        exp.append((b, e, text[b:e], d, (d << 28) | w, u.normalized, u.reading, u.dicform, u.pos))
                        b = e
                        if d > 0:
                            ctx.count('user_units')
                    ctx.count('unit_lists')
                    if len(units) > 32:
                        ctx.count('more_than_32_units')
                    units_seen.append((mode, units))
                expected[mode] += exp
                got = m.split(sut.MODES[mode])
                got = [shape(x) for x in got]
                expect(got == exp, 'split(%s) of %r in %r: %r, expected %r', mode, v['surface'], text, got, exp)
                ctx.count('split_calls')
            if both['A'] != both['B'] and len(both['A']) > 1 and len(both['B']) > 1:
                ctx.count('a_differs_from_b')
            same = m.split(sut.MODES['C'])
            expect([shape(x) for x in same] == [shape(m)], 'split(C) of %r changes it', v['surface'])
        for mode in 'AB':
            ml = tok[mode].tokenize(text) if explicit else tok[rng.choice('ABC')].tokenize(text, sut.MODES[mode])
            got = [shape(x) for x in ml]
            expect(got == expected[mode], 'mode %s of %r: %r, expected %r', mode, text, got, expected[mode])
        again = [shape(x) for x in tok['C'].tokenize(text)]
        expect(again == [shape(x) for x in base], 'mode C of %r changed', text)
        if units_seen:
            ctx.distinct(text, units_seen)
            ctx.sample({'text': text, 'C': [x.surface() for x in base], 'A': [x[2] for x in expected['A']], 'B': [x[2] for x in expected['B']]})


def shape(m):
    return (m.begin(), m.end(), m.surface(), m.dictionary_id(), m.word_id(), m.normalized_form(), m.reading_form(), m.dictionary_form(),
            tuple(m.part_of_speech()))
