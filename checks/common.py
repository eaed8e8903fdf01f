"""Shared steps of the checks that analyse texts in random worlds."""
from rt import gen, sut
from rt.core import Violation, expect


def make(ctx, rng, **kw):
    s = gen.sources(rng, **kw)
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    return s


def texts(rng, s, n, lo=0, hi=12, wild=0.1):
    return [gen.text(rng, s.heads, lo, hi, wild) for _ in range(n)]


def check_partition(ml, text, what):
    """The morphemes cover the text without gap or overlap, each with the text it covers."""
    at = 0
    n = 0
    joined = []
    for k, m in enumerate(ml):
        b, e, srf = m.begin(), m.end(), m.surface()
        expect(b == at, '%s: morpheme %d of %r begins at %r, the one before ended at %r', what, k, text, b, at)
        expect(b <= e <= len(text), '%s: morpheme %d of %r is [%r, %r)', what, k, text, b, e)
        expect(srf == text[b:e], '%s: morpheme %d of %r is [%r, %r) but its surface is %r', what, k, text, b, e, srf)
        expect(str(m) == srf, '%s: str of morpheme %d of %r is %r, its surface %r', what, k, text, str(m), srf)
        joined.append(srf)
        at = e
        n += 1
    expect(at == len(text), '%s: the morphemes of %r end at %r of %r', what, text, at, len(text))
    expect(''.join(joined) == text and str(ml) == text, '%s: the surfaces of %r make %r', what, text, str(ml))
    return n


def plain_grammar(ctx, chardef=None):
    """A grammar with a character definition, made once per worker: for input texts outside a dictionary."""
    import os
    from rt import sut
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    from sudachipy.dictionarylib.charactercategory import CharacterCategory
    d = ctx.state.get('plain')
    if d is None:
        base = os.path.join(str(ctx.scratch), 'plain')
        os.makedirs(base, exist_ok=True)
        lex = sut.write(os.path.join(base, 'l.csv'), '名,0,0,0,名,名詞,*,*,*,*,*,名,名,*,A,*,*,*,*\n')
        mat = sut.write(os.path.join(base, 'm.def'), '1 1\n0 0 0\n')
        path = sut.build_system(os.path.join(base, 's.dic'), [lex], mat)
        d = ctx.state['plain'] = BinaryDictionary.from_system_dictionary(path)
    if chardef is not None:
        path = sut.write(os.path.join(str(ctx.scratch), 'plain', 'c.def'), chardef)
        cc = CharacterCategory()
        cc.read_character_definition(path)
        d.grammar.set_character_category(cc)
    return d.grammar


def compare_input(inp, t, what):
    """A built input text against the reference: texts and the original index of every position."""
    expect(inp.get_text() == t.chars, '%s: %r is rewritten to %r, expected %r', what, t.original, inp.get_text(), t.chars)
    expect(inp.get_original_text() == t.original, '%s: the original text %r becomes %r', what, t.original, inp.get_original_text())
    expect(inp.get_byte_text() == t.data, '%s: the bytes of %r are %r', what, t.chars, inp.get_byte_text())
    last = -1
    for i in range(len(t.chars) + 1):
        b = t.start[i]
        end = t.start[i + 1] if i < len(t.chars) else b + 1
        for k in range(b, end):
            o = inp.get_original_index(k)
            expect(o == t.origin[i], '%s: %r rewritten to %r: byte %d (character %d) comes from %r, expected %r', what, t.original, t.chars, k, i, o,
                   t.origin[i])
        expect(t.origin[i] >= last, 'reference: origins decrease in %r', t.original)
        last = t.origin[i]
