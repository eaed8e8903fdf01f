"""C01: the morphemes of any text, in any mode, partition it."""
from rt import gen, sut
from rt.core import expect
from .common import check_partition, make

ID = 'C01'
LEVEL = 'exploration'
QUICK, THOROUGH = 4000, 100000
RULE = ('random dictionaries, character definitions and plugin settings; random texts (words, all scripts, astral, '
        'compatibility, combining and control characters) in modes A, B, C and split() of every morpheme; non-trivial: '
        'a text with at least two morphemes, distinct by its spans')
REQUIRE = {'analyses': 1000, 'splits': 100, 'rewritten_texts': 50, 'empty_texts': 1, 'beyond_65536_bytes': 5}


def case(ctx, rng, i):
    s = make(ctx, rng, users=rng.choice([0, 0, 1, 2]))
    dic = sut.load(s)
    before, after = sut.watch(dic)
    tok = dic.create()
    if i % 250 == 57:
        # long texts, around and beyond what 15 and 16 bits count
        size = rng.choice([32760, 65530, 66000, 70000, 140000])
        pieces = []
        while size > 0:
            pieces.append(gen.text(rng, s.heads, 3, 12) if rng.random() < 0.9 else '\ufdfa' * 3)
            size -= len(pieces[-1].encode())
        text = ''.join(pieces)
        ctx.note(text=text)
        ml = tok.tokenize(text, sut.MODES[rng.choice('ABC')])
        check_partition(ml, text, 'long')
        ctx.count('long_texts')
        ctx.count('beyond_65536_bytes', len(text.encode()) > 65536 and len(after.text.get_byte_text()) > 65536)
        at = 0
        for v in after.nodes:
            expect(v['b'] == at and v['e'] > at, 'path of a long text: node [%r, %r) after %r', v['b'], v['e'], at)
            at = v['e']
        expect(at == len(after.text.get_byte_text()), 'path of a long text ends at %r', at)
    for _ in range(20):
        text = gen.text(rng, s.heads, 0, 12)
        ctx.note(text=text)
        for mode in ('A', 'B', 'C'):
            ml = tok.tokenize(text, sut.MODES[mode])
            if not text:
                expect(len(ml) == 0 and list(ml) == [] and str(ml) == '', 'the empty text has %d morphemes', len(ml))
                ctx.count('empty_texts')
                continue
            n = check_partition(ml, text, 'mode ' + mode)
            expect(n >= 1, 'no morphemes in %r', text)
            ctx.count('evaluations')
            ctx.count('analyses')
            # the list is a sequence
            expect(len(ml) == n and ml.size() == n, 'len %d, size %d, iterated %d', len(ml), ml.size(), n)
            for k in {0, n - 1, rng.randrange(n)}:
                span = (ml[k].begin(), ml[k].end(), ml[k].word_id())
                neg = (ml[k - n].begin(), ml[k - n].end(), ml[k - n].word_id())
                it = list(ml)[k]
                expect(span == neg == (it.begin(), it.end(), it.word_id()), 'item %d of %r: %r %r', k, text, span, neg)
            for bad in (n, n + 3, -n - 1):
                try:
                    ml[bad]
                except IndexError:
                    pass
                else:
                    expect(False, 'index %d of %d morphemes is accepted', bad, n)
            # the whole path, in the bytes of the rewritten text
            at = 0
            for v in after.nodes:
                expect(v['b'] == at and v['e'] > at, 'path of %r: node [%r, %r) after %r', text, v['b'], v['e'], at)
                at = v['e']
            expect(at == len(after.text.get_byte_text()), 'path of %r ends at %r', text, at)
            if after.text.get_text() != text:
                ctx.count('rewritten_texts')
            if n > 1:
                ctx.distinct(text, [(m.begin(), m.end()) for m in ml])
                ctx.peak('morphemes', n)
            for m in ml:
                for sm in ('A', 'B', 'C'):
                    sub = m.split(sut.MODES[sm])
                    at = m.begin()
                    for x in sub:
                        expect(x.begin() == at and x.surface() == text[x.begin():x.end()],
                               'unit %r [%r, %r) of %r in mode %s', x.surface(), x.begin(), x.end(), m.surface(), sm)
                        at = x.end()
                    expect(at == m.end() and len(sub) >= 1, 'the units of %r in mode %s end at %r, not %r', m.surface(), sm, at, m.end())
                    if len(sub) > 1:
                        ctx.count('splits')
                        units = [(x.begin(), x.end(), x.word_id()) for x in sub]
                        by_index = [(x.begin(), x.end(), x.word_id()) for k in range(len(sub)) for x in (sub[k], sub[k - len(sub)])]
                        expect(by_index == [u for u in units for _ in (0, 1)], 'the units of %r in mode %s: %r, by index %r', m.surface(), sm, units, by_index)
                        for bad in (len(sub), -len(sub) - 1):
                            try:
                                sub[bad]
                            except IndexError:
                                pass
                            else:
                                expect(False, 'index %d of %d units is accepted', bad, len(sub))
                        if not isinstance(sub, list):
                            expect(str(sub) == m.surface(), 'str of the units of %r is %r', m.surface(), str(sub))
            if n > 2:
                ctx.sample({'text': text, 'mode': mode, 'spans': [[m.begin(), m.end(), m.surface()] for m in ml]})
