"""C12: numeric words are joined into one number."""
from fractions import Fraction

from rt import gen, model, numeric, sut
from rt.core import expect
from sudachipy.plugin.path_rewrite.numericparser import NumericParser
from . import c11
from .common import check_partition, make

ID = 'C12'
LEVEL = 'exploration'
QUICK, THOROUGH = 2000, 60000
RULE = ('random dictionaries with and without numerals as words, OOV numerals, random character definitions; texts of well-formed numbers, numbers one edit '
        'away from these, misplaced commas and points, kanji units, separators; the path is recorded before and after the plugin and the difference '
        'compared with a reference of the joining; the normalized form is also compared with the exact value; non-trivial: a path with a join, distinct '
        'by words and options')
REQUIRE = {'paths': 15000, 'joins': 5000, 'values': 3000, 'runs_that_must_join': 3000, 'trailing_separator': 100, 'split_at_commas': 100, 'split_at_points': 100,
           'not_a_numeral_first': 50, 'without_normalization': 500, 'long_runs': 60, 'unchanged': 2000}
SEP = ['円', '年', '-', 'あ', ' ', '人', '名', 'x', '第', '。', '']


def long_number(rng):
    n = rng.choice([70, 130, 260, 300, 600])
    return rng.choice([lambda: ''.join(rng.choice('0123456789') for _ in range(n)), lambda: '1' + ',234' * (n // 3), lambda: '一' * n, lambda: '0.' + '05' * n,
                       lambda: ','.join(['1'] * n), lambda: '1.' * n + '5', lambda: '9' * n + ',000'])()


def text(rng, heads):
    if rng.random() < 0.015:
        return rng.choice(SEP) + long_number(rng) + rng.choice(SEP) + rng.choice(['', '12'])
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        s = c11.well_formed(rng) if rng.random() < 0.7 else c11.numeral(rng, 12)
        s = s[:24]
        if r < 0.35:
            k = rng.randrange(len(s) + 1)
            c = rng.choice(',.,.' + numeric.ALPHABET)
            s = rng.choice([s[:k] + c + s[k:], s[:k] + s[k + 1:], s[:k] + c + s[k + 1:], s + rng.choice(',.'), rng.choice(',.') + s])
        elif r < 0.5:
            s = rng.choice([',', '.']).join(c11.digits(rng, rng.choice([1, 2, 3, 3, 3, 4]), False) for _ in range(rng.randint(2, 4)))
        elif r < 0.6:
            s = ''.join(rng.choice(numeric.ALPHABET) for _ in range(rng.randint(1, 6)))
        if rng.random() < 0.1:
            s = s.translate({ord(a): ord(b) for a, b in zip('0123456789,.', '０１２３４５６７８９，．')})
        out.append(s)
        out.append(rng.choice(SEP) if rng.random() < 0.8 else rng.choice(heads))
    return ''.join(out)


class W:
    __slots__ = ('numeric', 'norm', 'numeral', 'v')


def words_of(t, nodes, numeric_pos):
    out = []
    for v in nodes:
        w = W()
        cats = t.range_categories(t.char_at[v['b']], t.char_at[v['e']])
        w.numeric = bool(cats & {'NUMERIC', 'KANJINUMERIC'})
        w.norm = v['norm']
        w.numeral = v['pos_id'] == numeric_pos
        w.v = v
        out.append(w)
    return out


def reference(words):
    """The spans that are joined (or stay, when of one word), each with its parser after the last character."""
    found = []
    comma = point = True
    i, n = 0, len(words)

    def member(w):
        return w.numeric or (point and w.norm == '.') or (comma and w.norm == ',')

    while i < n:
        if not member(words[i]):
            comma = comma or words[i].norm != ','
            point = point or words[i].norm != '.'
            i += 1
            continue
        p = NumericParser()
        j = i
        failed = False
        while j < n and member(words[j]) and not failed:
            for c in words[j].norm:
                if not p.append(c):
                    failed = True
                    break
            else:
                j += 1
        if failed:
            if p.error_state == NumericParser.Error.COMMA and comma:
                comma = False           # try again, with commas as separators
            elif p.error_state == NumericParser.Error.POINT and point:
                point = False
            else:
                i = j + 1
            continue
        if p.done():
            end, skip = j, 2
        elif (p.error_state == NumericParser.Error.COMMA and words[j - 1].norm == ',') or \
                (p.error_state == NumericParser.Error.POINT and words[j - 1].norm == '.'):
            end, skip = j - 1, 3
        else:
            end = None
        again = j + 1
        if end is not None:
            if words[i].numeral:
                if end > i:
                    found.append((i, end, p.get_normalized()))
            elif j < n:
                again = min(i + skip, j + 1)
        if j < n:
            comma = comma or words[j].norm != ','
            point = point or words[j].norm != '.'
        i = again
    return found


def segments(words):
    """Maximal runs of words that are numeric or commas or points."""
    out = []
    b = None
    for k, w in enumerate(words + [None]):
        like = w is not None and (w.numeric or w.norm in (',', '.'))
        if like and b is None:
            b = k
        elif not like and b is not None:
            out.append((b, k))
            b = None
    return out


def rules(ctx, words, spans):
    """What has to be joined, without asking the parser of the code under test.  spans: where each word went."""
    for b, e in segments(words):
        seg = words[b:e]
        if any(len(w.norm) == 0 for w in seg):
            continue
        s = ''.join(w.norm for w in seg)
        if any(c not in numeric.ALPHABET for c in s):
            continue
        whole = numeric.evaluate(s)[0]
        if whole == 'accept' and seg[0].numeral:
            expect(spans[b] == (b, e), '%r is a number, but the words of %r became %r', s, [w.norm for w in words], sorted(set(spans.values())))
            ctx.count('runs_that_must_join')
            continue
        last = seg[-1].norm
        if any(w.numeric and set(w.norm) & set(',.') for w in seg):
            continue        # the separators are themselves of a numeric category
        if last in (',', '.') and e - b > 1 and '.' not in s[:-1] and not (last == ',' and ',' in s[:-1] and s[-2] not in numeric.DIGITS) and seg[0].numeral and numeric.evaluate(s[:-1])[0] == 'accept':
            expect(spans[b] == (b, e - 1), '%r is a number and a separator, but the words of %r became %r', s, [w.norm for w in words], sorted(set(spans.values())))
            expect(spans[e - 1] == (e - 1, e), 'the separator of %r was joined', s)
            ctx.count('trailing_separator')
            continue
        for sep, other in ((',', '.'), ('.', ',')):
            if other in s or sep not in s or any(c not in '0123456789' + sep for c in s) or any(sep in w.norm and w.norm != sep for w in seg):
                continue
            parts = s.split(sep)
            if sep == ',':
                bad = any((k == 0 and (not g or len(g) > 3 or set(g) == {'0'})) or (k > 0 and len(g) != 3) for k, g in enumerate(parts[:-1]))
            else:
                bad = len(parts) > 2 or not parts[0]
            if not bad:
                continue
            # every part is a number of its own
            at = b
            for g in parts:
                if g:
                    k = at
                    got = ''
                    while got != g:
                        got += words[k].norm
                        k += 1
                    if words[at].numeral:
                        expect(spans[at] == (at, k), '%r has misplaced separators: its part %r became %r', s, g, spans[at])
                    at = k
                if at < e:
                    expect(spans[at] == (at, at + 1), 'the separator in %r was joined: %r', s, spans[at])
                    at += 1
            ctx.count('split_at_commas' if sep == ',' else 'split_at_points')


def judge(ctx, what, t, rec0, rec1, numeric_pos, normalize):
    before, after = rec0.nodes, rec1.nodes
    words = words_of(t, before, numeric_pos)
    plan = reference(words)
    want = []
    at = 0
    for b, e, norm in plan:
        if e - b == 1 and (not normalize or norm == words[b].norm):
            continue
        want += [(k, k + 1, None) for k in range(at, b)] + [(b, e, norm)]
        at = e
    want += [(k, k + 1, None) for k in range(at, len(before))]
    ctx.count('paths')
    ctx.count('long_runs', any(e - b > 64 for b, e, _ in plan))
    shown = [v['norm'] for v in before]
    expect(len(after) == len(want), '%s: the words %r become %r, expected %r', what, shown, [v['norm'] for v in after], want)
    spans = {}
    joined = []
    for k, (b, e, norm) in enumerate(want):
        v = after[k]
        for x in range(b, e):
            spans[x] = (b, e)
        if norm is None:
            expect(rec1.raw[k] is rec0.raw[b], '%s: the word %r of %r was replaced by %r', what, before[b], shown, v)
            expect(v == before[b], '%s: the word %r became %r', what, before[b], v)
            continue
        old = before[b:e]
        s = ''.join(o['norm'] for o in old)
        exp = {'b': old[0]['b'], 'e': old[-1]['e'], 'surface': ''.join(o['surface'] for o in old), 'pos_id': numeric_pos,
               'norm': norm if normalize else s, 'dform': ''.join(o['dform'] for o in old), 'reading': ''.join(o['reading'] for o in old),
               'len': sum(o['len'] for o in old), 'oov': False, 'dic': -1, 'a': [], 'b_': [], 'syn': []}
        got = {x: v[x] for x in exp}
        expect(got == exp, '%s: the words %r were joined to %r, expected %r', what, [o['norm'] for o in old], got, exp)
        expect(b < len(words) and words[b].numeral, '%s: joined from %r on, which is no numeral', what, old[0])
        ctx.count('joins')
        joined.append((s, v['norm']))
        verdict, value = numeric.evaluate(s)
        expect(verdict != 'reject', '%s: %r is joined', what, s)
        if normalize and value is not None:
            expect(numeric.FORM.match(v['norm']) and Fraction(v['norm']) == value, '%s: %r is normalized to %r, its value is %s', what, s, v['norm'], value)
            ctx.count('values')
    rules(ctx, words, spans)
    return joined


def case(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 0, 1]), rewrite=rng.choice(['numeric', 'numeric', 'both']), knum_words=rng.random() < 0.8, n_words=rng.choice([3, 10]),
             composites=0, noov=0.2, max_ids=3, standard=rng.choice([0.3, 1, 1]), default_plugin=rng.random() < 0.8,
             extra_heads=[rng.choice(['12', '1,', ',5', '3.1', '千万', '百', '0', '五', ',', '.', '二十'])] if rng.random() < 0.3 else ())
    if len(s.settings['pathRewritePlugin']) == 2 and rng.random() < 0.3:
        s.settings['pathRewritePlugin'].reverse()
        sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    numeric_pos = world.system.pos.index(gen.POS_NUM)
    dic = sut.load(s)
    recs = sut.watch_each(dic)
    which = [k for k, p in enumerate(s.settings['pathRewritePlugin']) if 'Numeric' in p['class']][0]
    normalize = s.settings['pathRewritePlugin'][which]['enableNormalize']
    tok = dic.create()
    for _ in range(12):
        tx = text(rng, s.heads)
        if not tx:
            continue
        ctx.note(text=tx)
        ctx.count('evaluations')
        t = world.input(tx)
        ml = tok.tokenize(tx, sut.MODES[rng.choice('ABC')])
        check_partition(ml, tx, 'mode') if not any(w['a'] or w['b_'] for w in recs[-1].nodes) else None
        joined = judge(ctx, '%r' % tx, t, recs[which], recs[which + 1], numeric_pos, normalize)
        if not normalize:
            ctx.count('without_normalization')
        if joined:
            ctx.distinct(joined, normalize)
            ctx.sample({'text': tx[:100], 'before': [v['norm'] for v in recs[which].nodes][:50], 'after': [v['norm'] for v in recs[which + 1].nodes]})
        else:
            ctx.count('unchanged')
        ws = words_of(t, recs[which].nodes, numeric_pos)
        if any(w.numeric and not w.numeral for w in ws):
            ctx.count('not_a_numeral_first')
