"""C26: inhibited connections are never used, and the plugin inhibits exactly what is configured."""
import hashlib
import json
import mmap
import os

from rt import gen, model, sut
from rt.core import expect
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from sudachipy.dictionarylib.grammar import Grammar
from sudachipy.plugin.connect_cost import InhibitConnectionPlugin
from .c02 import check_path
from .common import make

ID = 'C26'
LEVEL = 'exploration'
QUICK, THOROUGH = 4000, 80000
RULE = ('random sources with connection matrices of which up to 90 percent of the cells are inhibited (also those of the begin and the end of a text) and lists of inhibited '
        'pairs for the plugin (none, one, many, all of a row or column, repeated, incomplete ones); the plugin edits a private copy of the grammar, all costs of which '
        'and of the file are compared, also of a second grammar that the same plugin object edits; texts are analysed before and after, with the recorded path priced by the reference search; non-trivial: a path that is '
        'dearer, or missing, because of inhibited connections, distinct by text and path')
REQUIRE = {'paths_priced': 4000, 'no_path': 1500, 'avoided': 1000, 'plugin_runs': 400, 'second_grammars': 200, 'pairs': 1500, 'cells': 20000, 'not_square': 200, 'incomplete_pairs': 100,
           'after_plugin': 2000, 'lost_by_plugin': 200, 'begin_or_end': 500}


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def pairs_of(rng, l, r):
    kind = rng.random()
    if kind < 0.1:
        return []
    if kind < 0.2:
        k = rng.randrange(l)
        return [[k, x] for x in range(r)]
    if kind < 0.3:
        k = rng.randrange(r)
        return [[x, k] for x in range(l)]
    cells = [[a, b] for a in range(l) for b in range(r)]
    if kind < 0.4:
        # the two ends of a text
        out = [[0, rng.randrange(r)], [rng.randrange(l), 0]]
    else:
        out = rng.sample(cells, rng.randint(1, max(1, len(cells) * rng.choice([1, 2, 3, 5]) // 6)))
    if rng.random() < 0.3:
        out += [list(rng.choice(out))]
    return out


def analyse(ctx, rng, world, free, tok, recorder, text, counter=None):
    """One analysis against the reference; -> outcome"""
    t = world.input(text)
    try:
        by_begin = world.lattice(t)
    except model.NoMorpheme:
        by_begin = best = None
    if by_begin is not None:
        try:
            best = world.best_cost(t, by_begin)
        except model.NotConnected:
            best = None
    if best is None:
        try:
            ml = tok.tokenize(text)
        except Exception:
            ctx.count('no_path')
            ctx.distinct('no path', text)
            return None
        expect(False, '%r has no path without inhibited connections, but was analysed: %r', text, [m.surface() for m in ml])
    tok.tokenize(text, sut.MODES[rng.choice('ABC')])
    cost = check_path(ctx, world, text, t, by_begin, recorder.nodes)
    if any(k == 0 for k in (recorder.nodes[0]['left'], recorder.nodes[-1]['right'])):
        ctx.count('begin_or_end')
    if counter:
        ctx.count(counter)
    if free is not None:
        try:
            if free.best_cost(t, by_begin) < cost:
                ctx.count('avoided')
        except model.NotConnected:
            pass
    return cost


def case(ctx, rng, i):
    by_plugin = i % 3 != 0
    inhibit = rng.choice([0, 0, 0.1, 0.3]) if by_plugin else rng.choice([0.1, 0.3, 0.5, 0.7, 0.9])
    s = gen.sources(rng, users=rng.choice([0, 0, 1]), inhibit=inhibit, max_ids=rng.choice([2, 4, 8]), missing=rng.choice([0, 0.1]), fallback=rng.random() < 0.9, plugins=False)
    if s.lsize != s.rsize:
        ctx.count('not_square')
    pairs = pairs_of(rng, s.lsize, s.rsize) if by_plugin else []
    incomplete = [[], [0], [s.lsize - 1]]
    given = list(pairs)
    if by_plugin and rng.random() < 0.4:
        given.insert(rng.randint(0, len(given)), rng.choice(incomplete))
        ctx.count('incomplete_pairs')
    if by_plugin and (given or rng.random() < 0.5):
        s.settings['inhibitedPair'] = given
    ctx.note(sources=s.as_json(), pairs=given)
    sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    system = os.path.join(ctx.dir, 'system.dic')
    before = digest(system)
    dic = sut.load(s)
    recorder, _ = sut.watch(dic)
    tok = dic.create()
    texts = [x for x in (gen.text(rng, s.heads, 1, 5) for _ in range(10)) if x]
    first = []
    free = None
    if not by_plugin:
        free = sut.reference(s)
        free.matrix = {k: (0 if v == model.INHIBITED else v) for k, v in free.matrix.items()}
    for text in texts:
        ctx.note(text=text)
        ctx.count('evaluations')
        first.append(analyse(ctx, rng, world, free, tok, recorder, text))
    if not by_plugin:
        return
    # the plugin and a private copy of the grammar
    plugin = InhibitConnectionPlugin()
    with open(system, 'rb') as f:
        mem = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
    grammar = Grammar(mem, DictionaryHeader.from_bytes(mem, 0).storage_size())
    plugin.set_up(grammar)
    compare(ctx, world, grammar, s, 'before the plugin edits')
    plugin.edit(grammar)
    ctx.count('plugin_runs')
    ctx.count('pairs', len(pairs))
    after = sut.reference(s)
    for l, r in pairs:
        after.matrix[l, r] = model.INHIBITED
    compare(ctx, after, grammar, s, 'after the plugin inhibited %r' % (given,))
    compare(ctx, world, dic.grammar, s, 'the grammar that was not edited, after the plugin inhibited %r in a copy' % (given,))
    if rng.random() < 0.5:
        # another grammar, edited by the same plugin object, or after it was set up again
        with open(system, 'rb') as f:
            second = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
        other = Grammar(second, DictionaryHeader.from_bytes(second, 0).storage_size())
        if rng.random() < 0.5:
            plugin.set_up(other)
        for _ in range(rng.choice([1, 1, 2])):
            plugin.edit(other)
            compare(ctx, after, other, s, 'a second grammar, after the plugin inhibited %r' % (given,))
        compare(ctx, after, grammar, s, 'the first grammar, after the plugin edited a second one')
        ctx.count('second_grammars')
        if rng.random() < 0.5:
            grammar = other
    grammar.set_character_category(dic.grammar.get_character_category())
    own = dic.grammar
    dic.grammar = grammar
    edited = dic.create()
    dic.grammar = own
    for k, text in enumerate(texts):
        ctx.note(text=text, edited=True)
        ctx.count('evaluations')
        cost = analyse(ctx, rng, after, world, edited, recorder, text, 'after_plugin')
        if cost is None and first[k] is not None:
            ctx.count('lost_by_plugin')
        if rng.random() < 0.3:
            analyse(ctx, rng, world, None, tok, recorder, text)
    # single further edits
    for _ in range(3):
        l, r, c = rng.randrange(s.lsize), rng.randrange(s.rsize), rng.choice([0, -32768, 32766, 32767, rng.randint(-1000, 1000)])
        grammar.set_connect_cost(l, r, c)
        after.matrix[l, r] = c
    compare(ctx, after, grammar, s, 'after single costs were set')
    for text in texts[:3]:
        analyse(ctx, rng, after, None, edited, recorder, text)
    expect(digest(system) == before, 'the file of the dictionary was changed')
    ctx.sample({'pairs': given, 'texts': texts[:3], 'costs_before': first[:3]})


def compare(ctx, world, grammar, s, what):
    for l in range(s.lsize):
        for r in range(s.rsize):
            ctx.count('cells')
            got = grammar.get_connect_cost(l, r)
            expect(got == world.conn(l, r), '%s: the connection from %d to %d costs %r, expected %r', what, l, r, got, world.conn(l, r))
