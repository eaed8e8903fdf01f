"""C31: the dump of an analysis shows its text, its lattice and its paths."""
import logging
from collections import Counter

from rt import cli, gen, model, sut
from rt.core import expect
from .common import make

ID = 'C31'
LEVEL = 'exploration'
QUICK, THOROUGH = 1000, 30000
RULE = ('random worlds and texts analysed with a logger that keeps its messages: the nodes listed are compared with the candidates of the reference, their '
        'connection costs with the matrix, both paths with those recorded; a second analysis of the same text for another logger is dumped as the first; one without a logger gives the same; in some cases also by the command; '
        'non-trivial: a lattice of at least three nodes, distinct by messages')
REQUIRE = {'dumps': 8000, 'dumps_again': 1500, 'nodes': 100000, 'oov_nodes': 10000, 'user_nodes': 3000, 'connections': 200000, 'joined_words': 200, 'unit_words': 200, 'no_path': 20, 'by_command': 30, 'later_without': 2000}


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.said = []

    def emit(self, record):
        self.said.append(record.getMessage())


def keeper():
    log = logging.Logger('verif.dump')
    log.setLevel(logging.DEBUG)
    h = Keep()
    log.addHandler(h)
    return log, h


def sections(said):
    """[text], lines of the lattice, lines of the path before and after rewriting"""
    expect(len(said) >= 2 and said[0].startswith('==='), 'the dump begins with %r', said[:2])
    out = [[said[1]]]
    for m in said[2:]:
        if m.startswith('==='):
            out.append([])
        else:
            out[-1].append(m)
    expect(out[-1] == [] and said[-1].startswith('==='), 'the dump ends with %r', said[-3:])
    out.pop()
    return out


def nodes_of(world, t, cands):
    """The candidates and both ends as (text of the line without number and connections, begin, end, left, right)"""
    n = len(t.data)
    out = [('0 0 (null)(0) BOS/EOS 0 0 0', 0, 0, 0, 0), ('%d %d (null)(0) BOS/EOS 0 0 0' % (n, n), n, n, 0, 0)]
    for b, cs in cands.items():
        for c in cs:
            if c.dic >= 0:
                surface, wid = world.word(c.dic, c.word).surface, c.dic << 28 | c.word
            else:
                surface, wid = t.chars[t.char_at[c.b]:t.char_at[c.e]], 0
            out.append(('%d %d %s(%d) %s %d %d %d' % (c.b, c.e, surface, wid, ','.join(c.pos), c.left, c.right, c.cost), c.b, c.e, c.left, c.right))
    return out


def judge_lattice(ctx, world, what, lines, want, n):
    right = {}
    for text, b, e, l, r in want:
        right[text] = (b, e, l, r)
    seen = []
    listed = {}
    for k, line in enumerate(lines):
        head, sep, costs = line.rpartition(': ')
        number, _, text = head.partition(': ')
        expect(number == str(k + 1), '%s: the %dth node of the dump has the number %r', what, k + 1, number)
        expect(text in right, '%s: the dump shows %r, which is no candidate', what, line)
        seen.append((text, costs))
        b, e, l, r = right[text]
        listed.setdefault(e, []).append((text, r))
    got, wanted = Counter(t for t, _ in seen), Counter(x[0] for x in want)
    expect(got == wanted, '%s: not in the dump %r, too often in the dump %r', what, list((wanted - got).elements())[:10], list((got - wanted).elements())[:10])
    ends = [right[t][1] for t, _ in seen]
    expect(ends == sorted(ends, reverse=True), '%s: the nodes are not listed from the end: %r', what, ends)
    # the last node of the list is the begin of the text; the first is its end, which ends no other
    eos = seen[0][0]
    for text, costs in seen:
        b, e, l, r = right[text]
        before = [x for x in listed.get(b, []) if not (x[0] == eos and b == n)]
        expected = [str(world.conn(x[1], l)) for x in before]
        if text == eos:
            expected = [str(world.conn(x[1], 0)) for x in listed.get(n, []) if x[0] != eos] if n else expected
        expect(costs.split() == expected, '%s: %r has the connection costs %r, expected %r', what, text, costs, expected)
        ctx.count('connections', len(expected))
    ctx.count('nodes', len(lines))


def judge_path(what, lines, want):
    expect(len(lines) == len(want), '%s: %d lines for %d words: %r', what, len(lines), len(want), lines[:20])
    for k, (line, w) in enumerate(zip(lines, want)):
        full = '%d: %s' % (k, w)
        expect(line.rstrip('\uffff') == full.rstrip('\uffff'), '%s: line %r, expected %r', what, line, full)


def word_text(v):
    return '%d %d %s(%d) %d %d %d' % (v['b'], v['e'], v['surface'], v['wid'], v['left'], v['right'], v['cost'])


def case(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 0, 1, 2]), max_ids=rng.choice([2, 5]), inhibit=rng.choice([0, 0, 0.15]), composites=rng.choice([0, 4]),
             knum_words=rng.random() < 0.4, simple_last=rng.random() < 0.85)
    world = sut.reference(s)
    dic = sut.load(s)
    before, after = sut.watch(dic)
    tok = dic.create()
    plain = sut.load(s).create()
    for _ in range(10):
        tx = gen.text(rng, s.heads, 1, 12)
        if not tx:
            continue
        mode = rng.choice('ABC')
        ctx.note(text=tx, mode=mode)
        ctx.count('evaluations')
        log, kept = keeper()
        t = world.input(tx)
        try:
            cands = world.lattice(t)
            world.best_cost(t, cands)
        except (model.NoMorpheme, model.NotConnected) as err:
            try:
                tok.tokenize(tx, sut.MODES[mode], log)
            except Exception:
                ctx.count('no_path')
                expect(kept.said[1:2] == [t.chars], 'an analysis of %r that fails dumps %r', tx, kept.said[:3])
                if isinstance(err, model.NotConnected):
                    lattice = [m for m in kept.said[3:] if not m.startswith('===')]
                    judge_lattice(ctx, world, '%r (not connected)' % tx, lattice, nodes_of(world, t, cands), len(t.data))
                continue
            expect(False, '%r has no path, but was analysed', tx)
        ml = tok.tokenize(tx, sut.MODES[mode], log)
        said = sections(kept.said)
        expect(len(said) == 4, 'the dump of %r has %d sections', tx, len(said))
        expect(said[0] == [t.chars], 'the dump of %r shows the text %r, expected %r', tx, said[0], t.chars)
        want = nodes_of(world, t, cands)
        judge_lattice(ctx, world, '%r' % tx, said[1], want, len(t.data))
        ctx.count('oov_nodes', sum(c.dic < 0 for cs in cands.values() for c in cs))
        ctx.count('user_nodes', sum(c.dic > 0 for cs in cands.values() for c in cs))
        judge_path('the path of %r before rewriting' % tx, said[2], [word_text(v) for v in before.nodes])
        known = {id(n) for n in before.raw}
        final = []
        for v, n in zip(after.nodes, after.raw):
            ctx.count('joined_words', id(n) not in known)
            attr = {'A': 'a', 'B': 'b'}.get(mode)
            units = [world.unit(v['dic'], u) for u in getattr(world.word(v['dic'], v['word']), attr)] if attr and v['dic'] >= 0 else []
            if len(units) < 2:
                final.append(word_text(v))
                continue
            at = v['b']
            for d, w in units:
                u = world.word(d, w)
                final.append('%d %d %s(%d) 0 0 0' % (at, at + u.head_len, u.surface, d << 28 | w))
                at += u.head_len
                ctx.count('unit_words')
        judge_path('the path of %r after rewriting' % tx, said[3], final)
        expect(len(ml) == len(final), 'the result of %r has %d morphemes, the dump %d', tx, len(ml), len(final))
        other = plain.tokenize(tx, sut.MODES[mode])
        expect([sut.view(m) for m in other] == [sut.view(m) for m in ml], '%r is analysed differently with a logger', tx)
        if rng.random() < 0.3:
            # the same text again, for another logger
            again, told = keeper()
            tok.tokenize(tx, sut.MODES[mode], again)
            expect(told.said == kept.said, 'the second dump of %r differs from the first: %r', tx, [x for x in zip(told.said, kept.said) if x[0] != x[1]][:3] or told.said[:4])
            ctx.count('dumps_again')
        if rng.random() < 0.4:
            # the next analysis is not told of the logger
            n = len(kept.said)
            try:
                tok.tokenize(gen.text(rng, s.heads, 1, 6), rng.choice([None] + list(sut.MODES.values())))
            except Exception:
                pass
            expect(len(kept.said) == n, 'the logger of %r is told of a later analysis without a logger: %r', tx, kept.said[n:n + 3])
            ctx.count('later_without')
        ctx.count('dumps')
        if len(want) > 3:
            ctx.distinct(kept.said)
            ctx.sample({'text': tx, 'dump': kept.said[:12]})
    if i % 16 == 3:
        command(ctx, rng, s, plain)


def command(ctx, rng, s, plain):
    """The command prints the same dump, then the morphemes of the line."""
    server = ctx.state.get('server')
    if server is None:
        server = ctx.state['server'] = cli.Server(ctx.scratch)
    lines, want = [], []
    for _ in range(3):
        tx = ''.join(c for c in gen.text(rng, s.heads, 0, 8) if c not in '\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\ufeff')
        log, kept = keeper()
        try:
            ml = plain.tokenize(tx, None, log)
        except Exception:
            continue
        lines.append(tx)
        want += kept.said + ['\t'.join([m.surface(), ','.join(m.part_of_speech()), m.normalized_form()]) for m in ml] + ['EOS']
    path = sut.write(ctx.dir + '/in.txt', ''.join(l + '\n' for l in lines))
    r = server.run(['-r', s.config_path, '-d', path], cwd=ctx.dir)
    got = r.out.decode('utf-8', 'replace') if isinstance(r.out, bytes) else r.out
    expect(r.rc == 0 and got == ''.join(w + '\n' for w in want), 'the command prints for %r with -d: %d %r, expected %r (%r)', lines, r.rc, got[:2000],
           ''.join(w + '\n' for w in want)[:2000], r.err[-300:])
    ctx.count('by_command')


def finish(ctx):
    server = ctx.state.pop('server', None)
    if server:
        server.close()
