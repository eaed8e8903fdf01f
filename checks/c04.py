"""C04: user dictionaries on top of a system dictionary."""
import os
import subprocess
import sys

from rt import binfmt, gen, model, sut
from rt.core import expect
from .c25 import pos_ids

ID = 'C04'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 60000
CASE_CPU = 150
RULE = ('a random system dictionary with 0 to 16 user dictionaries (own words, shared headwords, references to both, new and shared parts of '
        'speech, automatic costs), in any order of the settings, some twice; every word, cost, lookup and the analysis of texts are compared '
        'with the sources; non-trivial: a user word, distinct by dictionary and fields')
REQUIRE = {'user_words': 5000, 'auto_costs': 500, 'clipped_costs': 3, 'lookups': 5000, 'mixed_lookups': 500, 'refused': 10, 'user_nodes': 500,
           'above_7': 50, 'own_pos': 300, 'by_command': 10, 'own_refs': 300, 'system_refs': 300, 'found_by_fields': 5000, 'not_found': 2000, 'huge': 1, 'line_ends_in_fields': 20, 'found_in_later': 500}


def case(ctx, rng, i):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7, 8, 9, 15]) if i % 25 != 3 else 16
    huge = i % 1250 == 600
    if huge:
        ctx.count('huge')
        n = rng.choice([1, 2])
    s = gen.sources(rng, n_words=rng.choice([3, 10, 25]), users=min(n, rng.choice([n, n, 3])) if n else 0, auto=0.01 if huge else rng.choice([0, 0.3, 0.8]),
                    plugins=rng.random() < 0.3, max_ids=4, huge_user=66000 if huge else 0)
    if rng.random() < 0.15:
        # extreme costs at both ends of the surface
        lo, hi = rng.choice([(-32767, 32767), (32767, -32767)])
        for u, ul in enumerate(s.userlex):
            if rng.random() < 0.6:
                s.syslex.add('端', params=(0, 0, lo))
                s.syslex.add('末', params=(0, 0, hi))
                ul.add('端末', params=(0, 0, -32768))
                s.users[u] = ul.texts(1)
        s.sys_texts = s.syslex.texts(1)
    if s.userlex and rng.random() < 0.05:
        # line ends in fields
        u = rng.randrange(len(s.userlex))
        s.userlex[u].add('改行', surface='改\r行', reading='カイ\r\nギョウ', normalized='\n\r', params=(0, 0, 0))
        s.users[u] = s.userlex[u].texts(1, True)
        ctx.count('line_ends_in_fields')
    # the user sources refer to the system by number, so that words appended to the system change nothing
    order = list(range(len(s.users)))
    rng.shuffle(order)
    while s.users and len(order) < n:
        order.append(rng.randrange(len(s.users)))
    if not s.users:
        order = []
    s.settings['userDict'] = ['user%d.dic' % u for u in order]
    if rng.random() < 0.2:
        s.settings['userDict'] = [os.path.join(ctx.dir, f) for f in s.settings['userDict']]
    if not order and rng.random() < 0.5:
        del s.settings['userDict']
    ctx.note(sources=s.as_json())
    ctx.count('evaluations')
    sut.write_sources(ctx.dir, s)
    sysdic = sut.build_system(os.path.join(ctx.dir, 'system.dic'), s.sys_paths, s.matrix_path)
    system = model.Dic(s.sys_texts)
    sysids = {p: k for k, p in enumerate(system.pos)}
    for u, paths in enumerate(s.user_paths):
        out = os.path.join(ctx.dir, 'user%d.dic' % u)
        if rng.random() < 0.02:
            p = subprocess.run([sys.executable, '-m', 'sudachipy.command_line', 'ubuild', '-s', sysdic, '-o', out, '-d', 'x'] + paths,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            expect(p.returncode == 0, 'ubuild of valid sources failed: %s', p.stderr.decode(errors='replace')[-1000:])
            ctx.count('by_command')
        else:
            sut.build_user(out, paths, sysdic)
        check_file(ctx, out, model.Dic(s.users[u], system), sysids)
    if len(order) > 15:
        try:
            sut.load(s)
        except Exception:
            ctx.count('refused')
        else:
            expect(False, '%d user dictionaries are accepted', len(order))
        s.settings['userDict'] = s.settings['userDict'][:15]
        order = order[:15]
        import json
        with open(s.config_path, 'w', encoding='utf-8') as f:
            json.dump(s.settings, f)
    dic = sut.load(s)
    lex, g = dic.lexicon, dic.grammar
    world = model.World(s.sys_texts, s.matrix, s.chardef, sut.rewrite_text(), s.settings, (), s.mecab_chardef, s.unk)
    for d, u in enumerate(order, 1):
        ud = model.Dic(s.users[u], world.system)
        for k, w in enumerate(ud.words):
            if w.cost == -32768:
                allowed = world.auto_cost(w.surface).values
                got = lex.get_cost(d << 28 | k)
                expect(got in allowed, 'automatic cost of %r in dictionary %d is %r, expected %r', w.surface, d, got, sorted(allowed))
                w.cost = got
                ctx.count('auto_costs')
                if got in (-32768, 32767):
                    ctx.count('clipped_costs')
        world.dics.append(ud)
        world.pos.extend(ud.pos)
        ctx.count('own_pos', len(ud.pos))
    posids = pos_ids(world)
    got = [tuple(g.get_part_of_speech_string(k)) for k in range(g.get_part_of_speech_size())]
    expect(got == world.pos, 'parts of speech %r, expected %r', got, world.pos)
    total = sum(len(d.words) for d in world.dics)
    expect(lex.size() == total, '%d words, expected %d', lex.size(), total)
    for d, wd in enumerate(world.dics):
        for k, w in enumerate(wd.words):
            wid = d << 28 | k
            v = lex.get_word_info(wid)
            units = [[dd << 28 | kk for dd, kk in (world.unit(d, u) for u in us)] for us in (w.a, w.b, w.c)]
            got = (v.surface, v.head_word_length, v.pos_id, v.normalized_form, v.dictionary_form, v.reading_form, list(v.a_unit_split),
                   list(v.b_unit_split), list(v.word_structure), list(v.synonym_group_ids), lex.get_left_id(wid), lex.get_right_id(wid), lex.get_cost(wid))
            want = (w.surface, w.head_len, posids[d][w.pos], w.normalized, w.dicform, w.reading, *units, w.syn, w.left, w.right, w.cost)
            expect(got == want, 'word %d of dictionary %d: %r, its source says %r', k, d, got, want)
            expect(tuple(g.get_part_of_speech_string(v.pos_id)) == w.pos, 'word %d of dictionary %d: part of speech', k, d)
            expect(lex.get_dictionary_id(wid) == d, 'dictionary of word ID %#x is %r', wid, lex.get_dictionary_id(wid))
            if d:
                ctx.count('user_words')
                ctx.distinct(d, w.headword, want)
                for us in (w.a, w.b, w.c):
                    for own, _ in us:
                        ctx.count('own_refs' if own else 'system_refs')
            if d > 7:
                ctx.count('above_7')
    # words are found by surface, part of speech and reading: in the first dictionary that has them
    sysids = {x: k for k, x in enumerate(world.system.pos)}
    everything = [(w.surface, w.pos, w.reading) for wd in world.dics for w in wd.words if w.pos in sysids]
    for surface, pos, reading in rng.sample(everything, min(len(everything), 8)) + [('無い', world.system.pos[0], '無い'), (everything[0][0], everything[0][1], 'ナイヨミ')]:
        want = set()
        for d, wd in enumerate(world.dics):
            want = {d << 28 | k for k, w in enumerate(wd.words) if (w.surface, w.pos, w.reading) == (surface, pos, reading)}
            if want:
                break
        got = lex.get_word_id(surface, sysids[pos], reading)
        expect(got in want or not want and got < 0, 'the word %r is found as %r, expected %r', (surface, pos, reading), got, sorted(want))
        ctx.count('found_by_fields' if want else 'not_found')
    # ... also by a part of speech of its own, which no other dictionary has under this ID
    own = [(d, w) for d, wd in enumerate(world.dics) for w in wd.words if d and w.pos not in sysids]
    for d, w in rng.sample(own, min(len(own), 6)):
        want = {d << 28 | k for k, x in enumerate(world.dics[d].words) if (x.surface, x.pos, x.reading) == (w.surface, w.pos, w.reading)}
        got = lex.get_word_id(w.surface, posids[d][w.pos], w.reading)
        expect(got in want, 'the word %r of dictionary %d is found as %r, expected %r', (w.surface, w.pos, w.reading), d, got, sorted(want))
        others = [p for p in range(len(sysids), len(world.pos)) if p != posids[d][w.pos]]
        if others:
            p = rng.choice(others)
            want = [e << 28 | k for e in range(1, len(world.dics)) for k, x in enumerate(world.dics[e].words)
                    if (x.surface, x.reading) == (w.surface, w.reading) and posids[e][x.pos] == p]
            got = lex.get_word_id(w.surface, p, w.reading)
            expect(got in want or not want and got < 0, 'the word %r is found with the part of speech %d as %r, expected %r', (w.surface, w.reading), p, got, want)
        ctx.count('found_by_own_pos')
        ctx.count('found_in_later', d > 1)
    sources = [x for x in [0] + list(range(1, len(world.dics)))]
    for text in [gen.text(rng, s.heads, 1, 8) for _ in range(6)] + ['端末']:
        raw = text.encode('utf-8')
        for off in range(len(raw)):
            got = [tuple(x) for x in lex.lookup(raw, off)]
            want = [(d << 28 | k, e) for d in sources[1:] + [0] for k, e in world.dics[d].prefixes(raw, off)]
            expect(got == want, 'lookup in %r at %d: %r, expected %r', text, off, got, want)
            ctx.count('lookups')
            if len({w >> 28 for w, _ in got}) > 1:
                ctx.count('mixed_lookups')
    before, _ = sut.watch(dic)
    tok = dic.create()
    for _ in range(6):
        text = gen.text(rng, s.heads, 1, 8, wild=0.02)
        if not text:
            continue
        ctx.note(text=text)
        t = world.input(text)
        by_begin = world.lattice(t)
        ml = tok.tokenize(text)
        path = []
        for v in before.nodes:
            match = [c for c in by_begin.get(v['b'], []) if c.e == v['e'] and (c.left, c.right, c.cost, c.dic, c.word) == (v['left'], v['right'], v['cost'], v['dic'], v['word'])]
            expect(match, 'the path of %r has %r, which is not a candidate', text, v)
            path.append((v['left'], v['right'], v['cost']))
            if v['dic'] > 0:
                ctx.count('user_nodes')
        expect(world.path_cost(path) == world.best_cost(t, by_begin), 'the path of %r is not the cheapest', text)
        for m in ml:
            if m.dictionary_id() > 0:
                w = world.word(m.dictionary_id(), m.word_id() & 0x0fffffff)
                got = (tuple(m.part_of_speech()), m.reading_form(), m.normalized_form(), m.dictionary_form(), list(m.synonym_group_ids()))
                want = (w.pos, w.reading, w.normalized, w.dicform, w.syn)
                expect(got == want, 'morpheme %r of dictionary %d: %r, expected %r', m.surface(), m.dictionary_id(), got, want)
                ctx.sample({'text': text, 'surface': m.surface(), 'dictionary': m.dictionary_id(), 'pos': w.pos})


def check_file(ctx, path, ref, sysids):
    """The file of a user dictionary by itself."""
    with open(path, 'rb') as f:
        p = binfmt.parse(f.read())
    expect(p.version == binfmt.USER_V3 and p.pos == ref.pos and (p.lsize, p.rsize) == (0, 0), 'user dictionary %r %r, expected %r', p.version, p.pos, ref.pos)
    ids = dict(sysids)
    for k, pos in enumerate(ref.pos):
        ids[pos] = len(sysids) + k
    expect(sorted(binfmt.trie_keys(p)) == sorted(ref.index), 'headwords of a user dictionary')
    for k, w in enumerate(ref.words):
        v = p.infos[k]
        units = [[own << 28 | u for own, u in us] for us in (w.a, w.b, w.c)]
        got = (v['surface'], v['head_len'], v['pos_id'], v['normalized'], v['dicform_id'], v['reading'], v['a'], v['b'], v['c'], v['syn'], p.params[k])
        want = (w.surface, w.head_len, ids[w.pos], w.normalized, w.dicform_id, w.reading, *units, w.syn, (w.left, w.right, w.cost))
        expect(got == want, 'word %d in the file of a user dictionary: %r, its source says %r', k, got, want)
