"""C27: any sequence of edits keeps the mapping to the original text, and all queries agree with it."""
from rt import gen, model
from rt.core import expect
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from .common import compare_input, plain_grammar

ID = 'C27'
LEVEL = 'exploration'
QUICK, THOROUGH = 6000, 120000
RULE = ('random texts of all scripts and random character definitions; random sequences of up to 12 replacements (shorter, equal, longer, over and within earlier ones, '
        'from left to right, from right to left and anywhere, beyond the end), refused replacements in between; the text is built at several points, and every built text '
        'is asked everything at every byte position (and pairs of positions) and once more after all other edits; non-trivial: distinct (text, edits)')
REQUIRE = {'built': 5000, 'edits': 12000, 'edits_over_edits': 2000, 'beyond_the_end': 500, 'refused': 5000, 'positions': 100000, 'pairs': 200000, 'shared_runs': 20000,
           'inside_a_character': 50000, 'no_begin': 5000, 'asked_again': 3000, 'astral': 500, 'empty_texts': 50, 'long_texts': 100, 'shorter_by_many': 60, 'longer_by_many': 60}


def refused(f, what, *args):
    try:
        f()
    except (IndexError, AttributeError, ValueError):
        return
    expect(False, what + ' is not refused', *args)


def ask(ctx, rng, inp, t, what, all_pairs):
    """All queries at all positions against the reference."""
    compare_input(inp, t, what)
    data, chars = t.data, t.chars
    n = len(data)
    at = []         # character that holds a byte; the end belongs to none
    for i, ch in enumerate(chars):
        at += [i] * len(ch.encode('utf-8'))
    at.append(len(chars))
    bows = [k for k in range(n) if k in t.char_at and t.bow[t.char_at[k]]]
    for k in range(n + 1):
        expect(inp.get_offset_text_length(k) == at[k], '%s: byte %d of %r is in character %r, expected %d', what, k, chars, inp.get_offset_text_length(k), at[k])
    for k in range(n) if n <= 200 else sorted(rng.sample(range(n), 40)) + [n - 1]:
        ctx.count('positions')
        i = at[k]
        inside = k != t.start[i]
        if inside:
            ctx.count('inside_a_character')
        expect(inp.get_char_category_types(k) is not None and names(inp.get_char_category_types(k)) == set(t.cats[i]), '%s: the categories at byte %d of %r are %r, expected %r', what, k, chars,
               names(inp.get_char_category_types(k)), set(t.cats[i]))
        run = t.start[t.run_end[i]] - k
        expect(inp.get_char_category_continuous_length(k) == run, '%s: the run at byte %d of %r has %r bytes, expected %d (categories %r)', what, k, chars,
               inp.get_char_category_continuous_length(k), run, [sorted(c) for c in t.cats])
        bow = not inside and t.bow[i]
        if not bow:
            ctx.count('no_begin')
        expect(bool(inp.can_bow(k)) == bow, '%s: can_bow at byte %d of %r is %r (categories %r)', what, k, chars, inp.can_bow(k), [sorted(c) for c in t.cats])
        nxt = next((b for b in bows if b > k), n)
        expect(inp.get_word_candidate_length(k) == nxt - k, '%s: the next word after byte %d of %r begins %r bytes on, expected %d', what, k, chars,
               inp.get_word_candidate_length(k), nxt - k)
        for m in {0, 1, 2, 3, rng.randint(0, len(chars) + 2), len(chars) - i}:
            end = t.start[min(i + m, len(chars))]
            want = max(0, end - k)
            expect(inp.get_code_points_offset_length(k, m) == want, '%s: %d characters from byte %d of %r are %r bytes, expected %d', what, m, k, chars,
                   inp.get_code_points_offset_length(k, m), want)
    if n <= 200:
        pairs = [(b, e) for b in range(n + 1) for e in range(b, n + 1)]
    else:
        pairs = [tuple(sorted((rng.randint(0, n), rng.randint(0, n)))) for _ in range(60)] + [(0, n)]
    if not all_pairs and len(pairs) > 80:
        pairs = rng.sample(pairs, 80)
    for b, e in pairs:
        ctx.count('pairs')
        expect(inp.get_substring(b, e) == chars[at[b]:at[e]], '%s: bytes %d to %d of %r are %r, expected %r', what, b, e, chars, inp.get_substring(b, e), chars[at[b]:at[e]])
        expect(inp.code_point_count(b, e) == at[e] - at[b], '%s: bytes %d to %d of %r are %r characters, expected %d', what, b, e, chars, inp.code_point_count(b, e), at[e] - at[b])
        if b in t.char_at and e in t.char_at and b < e:
            want = t.range_categories(t.char_at[b], t.char_at[e])
            got = names(inp.get_char_category_types(b, e))
            if want and at[e] - at[b] > 1:
                ctx.count('shared_runs')
            expect(got == set(want), '%s: the categories of bytes %d to %d of %r are %r, expected %r', what, b, e, chars, got, set(want))
    for _ in range(3):
        b, e = rng.randint(0, n), rng.randint(0, n)
        if b > e:
            refused(lambda: inp.get_substring(b, e), '%s: the part from %d to %d of %r', what, b, e, chars)
            ctx.count('refused')
    refused(lambda: inp.get_substring(-rng.randint(1, 3), n), '%s: the part from before the begin of %r', what, chars)
    refused(lambda: inp.get_substring(rng.randint(0, n), n + rng.randint(1, 3)), '%s: the part to beyond the end of %r', what, chars)
    ctx.count('refused', 2)


def names(cats):
    return {c.name for c in cats}


def replacement(rng, there, text):
    if rng.random() < 0.08:
        return there            # by itself
    if rng.random() < 0.08 and len(text) > 1:
        return ''.join(rng.sample(there, len(there))) if rng.random() < 0.5 else rng.choice(text) * len(there)
    if rng.random() < 0.15:
        return gen.any_char(rng)
    if rng.random() < 0.02:
        return gen.pick_run(rng, 1, rng.choice([3, 17, 100, 300, 700]))
    s = gen.pick_run(rng, 1, rng.choice([1, 1, 2, 3, 8]))
    return s


def case(ctx, rng, i):
    ctx.count('evaluations')
    chardef = gen.chardef_text(rng, props=rng.random() < 0.5)
    cd = model.CharDef(chardef)
    grammar = plain_grammar(ctx, chardef)
    text = '' if rng.random() < 0.03 else gen.text(rng, (), 1, rng.choice([1, 2, 4, 6]), 0.2)
    if i % 30 == 7:
        # long, and what replaces it may be short
        text = (text or 'あ') * rng.choice([100, 300])
        text = text[:1500]
        ctx.count('long_texts')
    if not text:
        ctx.count('empty_texts')
    if any(ord(c) > 0xffff for c in text):
        ctx.count('astral')
    ctx.note(text=text, chardef=chardef)
    builder = UTF8InputTextBuilder(text, grammar)
    t = model.MText(text)
    edits, built = [], []
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if text else 0
    order = rng.choice(['any', 'any', 'forwards', 'backwards'])
    at = 0 if order == 'forwards' else len(text)
    touched = set()

    def build():
        copy = model.MText(text)
        copy.chars, copy.origin = t.chars, list(t.origin)
        copy.finish(cd)
        inp = builder.build()
        ctx.count('built')
        what = 'after %r' % (edits,)
        ask(ctx, rng, inp, copy, what, len(copy.data) <= 12)
        built.append((inp, copy, what))

    if rng.random() < 0.3 or not text:
        build()
    for _ in range(n):
        size = len(t.chars)
        if order == 'forwards':
            if at >= size:
                break
            b = rng.randint(at, size - 1)
        elif order == 'backwards':
            if at <= 0:
                break
            b = rng.randint(0, at - 1)
        else:
            b = rng.randint(0, size - 1)
        e = min(b + rng.choice([1, 1, 1, 2, 3, size] + [rng.randint(1, size)] * (size > 50)), size, at if order == 'backwards' else size)
        new = replacement(rng, t.chars[b:e], text)
        if e == size and rng.random() < 0.3:
            given = e + rng.choice([1, 2, 1000])
            ctx.count('beyond_the_end')
        else:
            given = e
        edits.append((b, given, new))
        ctx.note(edits=edits)
        if rng.random() < 0.5:
            x, y = rng.choice([(-1, e), (-rng.randint(1, 9), -1), (size + 1, size + 2), (size + rng.randint(1, 50), size + 60), (b, b), (0, 0), (size, size), (e, b), (size, 0)])
            refused(lambda: builder.replace(x, y, new), 'replacing %d to %d of %r', x, y, t.chars)
            ctx.count('refused')
            expect(builder.get_text() == t.chars, 'a refused replacement changes %r to %r', t.chars, builder.get_text())
        builder.replace(b, given, new)
        t.apply([(b, e, new)])
        ctx.count('edits')
        ctx.count('shorter_by_many', e - b - len(new) > 100)
        ctx.count('longer_by_many', len(new) - (e - b) > 100)
        if len(set(t.origin[b:b + len(new) + 1])) and any(k in touched for k in range(b, e)):
            ctx.count('edits_over_edits')
        shift = len(new) - (e - b)
        touched = {k if k < b else k + shift for k in touched if not b <= k < e} | set(range(b, b + len(new)))
        at = b + len(new) if order == 'forwards' else b
        expect(builder.get_text() == t.chars, 'after %r %r is %r, expected %r', edits, text, builder.get_text(), t.chars)
        expect(builder.get_original_text() == text, 'after %r the original text %r is %r', edits, text, builder.get_original_text())
        if rng.random() < 0.2:
            build()
    build()
    # what was built before is not touched by later edits
    for inp, copy, what in built[:-1]:
        ask(ctx, rng, inp, copy, 'asked again, ' + what, False)
        ctx.count('asked_again')
    ctx.distinct(text, tuple(edits))
    ctx.sample({'text': text, 'edits': edits, 'result': t.chars, 'origins': t.origin})
