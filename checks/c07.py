"""C07: the prolonged sound mark plugin."""
import itertools

from rt import gen, model, sut
from rt.core import expect
from .common import compare_input, plain_grammar
from sudachipy.plugin.input_text import DefaultInputTextPlugin, ProlongedSoundMarkInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder

ID = 'C07'
LEVEL = 'exploration'
SYMBOLS = ['ー', '〜', 'x', 'ーー', 'あい', '𠮟', 'abc', '𠮟ー〜〜']
QUICK, THOROUGH = 1600, 60000
RULE = ('all texts of up to 7 characters (thorough: 9) over two marks and two other characters with each of 8 replacement symbols (cases 0 to 7); random '
        'sets of marks, symbols and texts, alone and with the default plugin in either order, and through whole analyses; compared with '
        'a reference; non-trivial: a run was replaced, distinct by text, marks and symbol')
REQUIRE = {'evaluations': 50000, 'replaced': 20000, 'several_runs': 3000, 'with_default': 500, 'analyses': 500, 'at_end': 1000, 'at_begin': 1000, 'long_texts': 150}


def setup(ctx):
    ctx.state['cd'] = model.CharDef('0x0041..0x005A ALPHA\n')
    ctx.state['ref'] = model.Rewrite(sut.rewrite_text())
    ctx.state['default'] = p = DefaultInputTextPlugin()
    p.set_up()


def judge(ctx, plugin, marks, symbol, grammar, text, default=None):
    b = UTF8InputTextBuilder(text, grammar)
    t = model.MText(text)
    if default == 'before':
        ctx.state['default'].rewrite(b)
        t.apply(ctx.state['ref'].edits(t.chars))
    plugin.rewrite(b)
    edits = model.psm_edits(t.chars, marks, symbol)
    t.apply(edits)
    if default == 'after':
        ctx.state['default'].rewrite(b)
        t.apply(ctx.state['ref'].edits(t.chars))
    compare_input(b.build(), t.finish(ctx.state['cd']), 'marks %r, symbol %r, default plugin %s' % (''.join(sorted(marks)), symbol, default))
    ctx.count('evaluations')
    if default:
        ctx.count('with_default')
    if edits:
        ctx.count('replaced')
        if len(edits) > 1:
            ctx.count('several_runs')
        if edits[0][0] == 0:
            ctx.count('at_begin')
        if edits[-1][1] == len(text):
            ctx.count('at_end')
        ctx.distinct(text, sorted(marks), symbol, default)


def case(ctx, rng, i):
    grammar = plain_grammar(ctx, '0x0041..0x005A ALPHA\n')
    if i < len(SYMBOLS):
        symbol = SYMBOLS[i]
        plugin = ProlongedSoundMarkInputTextPlugin({'prolongedSoundMarks': ['ー', '〜'], 'replacementSymbol': symbol})
        top = 7 if ctx.tier == 'quick' else 9
        for n in range(0, top + 1):
            for tup in itertools.product('ー〜あ𠮟' if n < 7 else 'ー〜あ', repeat=n):
                judge(ctx, plugin, {'ー', '〜'}, symbol, grammar, ''.join(tup))
        return
    chars = [gen.any_char(rng)] + [rng.choice(gen.PSM + gen.KATA + 'a.𠮟') for _ in range(6)]
    marks = {rng.choice(chars) for _ in range(rng.randint(0, 4))}
    symbol = rng.choice(SYMBOLS + [c for c in chars])
    conf = {}
    if marks or rng.random() < 0.5:
        conf['prolongedSoundMarks'] = sorted(marks)
    if rng.random() < 0.8:
        conf['replacementSymbol'] = symbol
    else:
        symbol = 'ー'
    ctx.note(conf=conf)
    plugin = ProlongedSoundMarkInputTextPlugin(conf)
    plugin.set_up()
    for _ in range(20):
        text = ''.join(rng.choice(chars) * rng.choice([1, 1, 2, 3, 10]) if rng.random() < .8 else gen.text(rng, (), 0, 2) for _ in range(rng.randint(0, 7)))
        ctx.note(text=text)
        judge(ctx, plugin, marks, symbol, grammar, text, rng.choice([None, None, 'before', 'after']))
    if i % 8 == 3:
        # long runs, and runs at the end of a long text
        filler = ''.join(rng.choice(chars) for _ in range(rng.randint(1, 4)))
        text = text + filler * (rng.choice([600, 1100, 2100, 5000] + [33000, 66000] * (i % 160 == 3)) // len(filler) if len(marks.intersection(filler)) < 1 else 20)
        text += rng.choice(['', rng.choice(chars)]) + ''.join(rng.choice(sorted(marks) or ['ー']) for _ in range(rng.choice([2, 3, 40, 255, 256, 257, 300, 700, 1100])))
        text += rng.choice(['', 'x', 'あーーx〜〜'])
        ctx.note(text=None, filler=filler, length=len(text))
        judge(ctx, plugin, marks, symbol, grammar, text, rng.choice([None, None, 'before', 'after']))
        ctx.count('long_texts')
        ctx.peak('longest', len(text))
    if i % 8 == 0:
        s = gen.sources(rng, psm=True, n_words=4)
        sut.materialise(ctx.dir, s)
        dic = sut.load(s)
        before, _ = sut.watch(dic)
        tok = dic.create()
        world = sut.reference(s)
        for _ in range(12):
            text = ''.join(rng.choice([rng.choice(gen.PSM), rng.choice(gen.PSM) * 2, 'ーーー', gen.text(rng, s.heads, 0, 2)]) for _ in range(rng.randint(1, 8)))
            if not text:
                continue
            ctx.note(text=text)
            tok.tokenize(text)
            t = world.input(text)
            compare_input(before.text, t, 'analysis')
            ctx.count('analyses')
            ctx.sample({'text': text, 'rewritten': t.chars, 'origin': t.origin})
