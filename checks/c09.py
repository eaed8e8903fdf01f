"""C09: the OOV candidates at each position are exactly those that the definitions prescribe."""
from rt import gen, model, sut
from rt.core import expect
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.plugin.oov import OovProviderPlugin

ID = 'C09'
LEVEL = 'exploration'
QUICK, THOROUGH = 5000, 120000
RULE = ('random character definitions (overlapping ranges, several categories per character, all invoke/group/length values), unk.def '
        'files and lexicons; every call of an OOV provider during analysis is recorded, and each provider is asked again at every word '
        'position with and without other words; compared with a reference; non-trivial: at least one word provided, distinct by words')
REQUIRE = {'calls_in_analysis': 2000, 'direct_calls': 4000, 'mecab_words': 2000, 'simple_words': 500, 'several_categories': 200,
           'fallback_calls': 20, 'not_invoked': 100, 'more_than_100_words': 5, 'single_lengths_of_9_or_more': 300, 'runs_of_20_or_more': 100, 'four_or_more_providers': 200, 'long_runs': 150,
           'words_of_16_bits': 30, 'indented_lines': 100}


class Spy(OovProviderPlugin):
    """Stands in for a provider and records what passes."""

    def __init__(self, inner, log, k):
        self.inner, self.log, self.k = inner, log, k

    def set_up(self, grammar):
        pass

    def provide_oov(self, input_text, offset, has_other_words):
        return self.inner.provide_oov(input_text, offset, has_other_words)

    def get_oov(self, input_text, offset, has_other_words):
        nodes = list(self.inner.get_oov(input_text, offset, has_other_words))
        self.log.append((self.k, input_text, offset, bool(has_other_words), [shape(n) for n in nodes]))
        return nodes


def shape(n):
    info = n.get_word_info()
    return (n.get_begin(), n.get_end(), n.get_left_id(), n.get_right_id(), n.get_path_cost(), info.pos_id, info.surface, info.normalized_form,
            info.dictionary_form, info.reading_form, info.head_word_length, bool(n.is_oov()), n.get_dictionary_id(),
            tuple(info.a_unit_split), tuple(info.b_unit_split), tuple(info.synonym_group_ids))


def expected(world, t, c):
    b, e = t.char_at[c.b], t.char_at[c.e]
    s = t.chars[b:e]
    return (c.b, c.e, c.left, c.right, c.cost, world.system.pos.index(c.pos), s, s, s, '', c.e - c.b, True, -1, (), (), ())


def indented(ctx, rng, text):
    if rng.random() > 0.3:
        return text
    ctx.count('indented_lines')
    blanks = ['', '', ' ', '\t', '   ', ' \t']
    return ''.join(rng.choice(blanks) + l + rng.choice(blanks) + '\n' for l in text.split('\n')[:-1])


def more_providers(ctx, rng, s):
    plugins = s.settings['oovProviderPlugin']
    for k in range(rng.choice([1, 2, 3, 4, 7])):
        if rng.random() < 0.6:
            cd = gen.chardef_text(rng)
            defined = [l.split()[0] for l in cd.split('\n') if l.strip() and not l.strip().startswith(('0x', '#'))]
            s.files['mchar%d.def' % k] = cd
            s.files['unk%d.def' % k] = indented(ctx, rng, gen.unk_text(rng, s.lsize, s.rsize, s.pos, defined))
            p = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'mchar%d.def' % k, 'unkDef': 'unk%d.def' % k}
        else:
            p = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(rng.choice(s.pos)), 'leftId': rng.randrange(s.rsize),
                 'rightId': rng.randrange(s.lsize), 'cost': rng.randint(-500, 20000)}
        plugins.insert(rng.randint(0, len(plugins)), p)
    ctx.count('four_or_more_providers', len(plugins) > 3)


def long_run(ctx, rng, s, world, dic, plugins):
    """Providers asked at the begin, in the middle and at the end of a run of tens of thousands of bytes."""
    unit = rng.choice([gen.pick_run(rng, 1, 2), gen.any_char(rng), 'あ'])
    n = rng.choice([300, 1100, 11000, 22000, 33000])
    text = rng.choice(['', 'x', '漢']) + unit * (n // len(unit)) + rng.choice(['', gen.any_char(rng)])
    ctx.note(text=None, unit=unit, characters=len(text))
    builder = UTF8InputTextBuilder(text, dic.grammar)
    for p in dic.input_text_plugins:
        p.rewrite(builder)
    inp = builder.build()
    t = world.input(text)
    size = len(t.chars)
    for k in sorted({0, 1, 2, 3, size // 2, size - 1, size - 2, rng.randrange(size)}):
        if not 0 <= k < size or not t.bow[k]:
            continue
        for p, spy in enumerate(dic.oov_provider_plugins):
            for has in (False, True):
                ns = sorted(shape(n) for n in spy.inner.get_oov(inp, t.start[k], has))
                want = sorted(expected(world, t, c) for c in world.oov(plugins[p], t, k, has))
                expect(len(ns) == len(want), 'provider %d asked at %d of %d times %r (other words: %s): %d words, expected %d', p, t.start[k], n, unit, has, len(ns), len(want))
                expect(ns == want, 'provider %d asked at %d of %d times %r (other words: %s): other words', p, t.start[k], n, unit, has)
                ctx.count('words_of_16_bits', sum(1 for x in ns if x[1] - x[0] > 32767))
                ctx.count('direct_calls')
    ctx.count('long_runs')


def case(ctx, rng, i):
    s = gen.sources(rng, mecab=rng.random() < 0.9, n_words=rng.choice([1, 5, 15]), composites=0, simple_last=rng.random() < 0.8,
                    standard=rng.choice([0.0, 0.5, 1.0]), fallback=rng.random() < 0.9)
    if i % 10 == 3:
        more_providers(ctx, rng, s)
    ctx.note(sources=s.as_json())
    sut.materialise(ctx.dir, s)
    world = sut.reference(s)
    plugins = s.settings['oovProviderPlugin']
    dic = sut.load(s)
    log = []
    dic.oov_provider_plugins = [Spy(p, log, k) for k, p in enumerate(dic.oov_provider_plugins)]
    before, _ = sut.watch(dic)
    tok = dic.create()
    if i % 25 == 8:
        long_run(ctx, rng, s, world, dic, plugins)
    for _ in range(10):
        text = gen.text(rng, s.heads, 1, 7, wild=0.15)
        if not text:
            continue
        ctx.note(text=text)
        ctx.count('evaluations')
        t = world.input(text)
        del log[:]
        try:
            tok.tokenize(text)
            failed = False
        except Exception:
            failed = True
        # the calls the analysis has to make
        calls = []
        ends = {0}
        dead = False
        for k in range(len(t.chars)):
            if t.start[k] not in ends or not t.bow[k]:
                continue
            cands = world.lexical(t, k)
            has = bool(cands)
            if 'NOOOVBOW' not in t.cats[k]:
                for p, plug in enumerate(plugins):
                    new = world.oov(plug, t, k, has)
                    calls.append((p, t.start[k], has, new))
                    new = [c for c in new if t.can_end(c.e)]
                    has = has or bool(new)
                    cands += new
            else:
                ctx.count('no_oov_here')
            if not has:
                new = world.oov(plugins[-1], t, k, False)
                calls.append((len(plugins) - 1, t.start[k], False, new))
                ctx.count('fallback_calls')
                has = bool(new)
                cands += new
            for c in cands:
                ends.add(c.e)
            if not has:
                dead = True
                break
        got = [(p, off, has, sorted(ns)) for p, _, off, has, ns in log]
        want = [(p, off, has, sorted(expected(world, t, c) for c in new)) for p, off, has, new in calls]
        for g, w in zip(got, want):
            expect(g == w, 'in %r: provider, position, other words, words: %r, expected %r', text, g, w)
        expect(len(got) == len(want), '%d calls of OOV providers for %r, expected %d', len(got), text, len(want))
        if dead:
            expect(failed, 'no word can begin somewhere in %r, but it was analysed', text)
        ctx.count('calls_in_analysis', len(got))
        for p, off, has, ns in got:
            ctx.count('mecab_words' if 'MeCab' in plugins[p]['class'] else 'simple_words', len(ns))
            ctx.count('more_than_100_words', len(ns) > 100)
            ctx.count('single_lengths_of_9_or_more', sum(1 for n in ns if 9 <= len(n[6]) and 'MeCab' in plugins[p]['class'] and n[1] != max(m[1] for m in ns)))
            ctx.count('runs_of_20_or_more', sum(1 for n in ns if 20 <= len(n[6])))
            if ns:
                ctx.distinct(plugins[p]['class'], has, [n[:7] for n in ns])
        # ask each provider at every position
        if not log:
            continue
        inp = log[0][1]
        for k in range(len(t.chars)):
            if not t.bow[k]:
                continue
            if len(t.cats[k]) > 1:
                ctx.count('several_categories')
            for p, spy in enumerate(dic.oov_provider_plugins):
                for has in (False, True):
                    ns = sorted(shape(n) for n in spy.inner.get_oov(inp, t.start[k], has))
                    want = sorted(expected(world, t, c) for c in world.oov(plugins[p], t, k, has))
                    expect(ns == want, 'provider %d asked at %d of %r (other words: %s): %r, expected %r', p, t.start[k], text, has, ns, want)
                    ctx.count('direct_calls')
                    if has and not ns and 'MeCab' in plugins[p]['class']:
                        ctx.count('not_invoked')
                    if ns:
                        ctx.sample({'text': text, 'at': t.start[k], 'other_words': has, 'words': [[n[6], n[2], n[3], n[4]] for n in ns][:6]})
