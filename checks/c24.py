"""C24: what was opened, analysed and dropped leaves nothing behind."""
import gc
import io
import json
import logging
import os
import sys
import threading
import weakref

from rt import gen, sut
from rt.core import expect
from .common import make
from sudachipy.dictionary import Dictionary
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder

ID = 'C24'
LEVEL = 'exploration'
QUICK, THOROUGH = 420, 8000
RULE = ('random histories of opening (also failing: missing and invalid files, malformed settings, too many user dictionaries), creating tokenizers, analysing (also failing, '
        'with dumps), splitting, keeping and dropping results, closing before and after dropping, and not closing; mappings, file descriptors, threads, loggers, modules, live '
        'objects of the package and allocated blocks are compared with those before; one tokenizer analyses thousands of texts of growing and varying lengths; dictionaries are built again and again, also failing, and their messages compared; non-trivial: a comparison '
        'after which nothing was left, distinct by the history')
REQUIRE = {'opened': 1500, 'failed_opens': 500, 'closed': 500, 'closed_in_use': 100, 'never_closed': 300, 'analyses': 20000, 'failed_analyses': 500, 'releases_compared': 1000,
           'mappings_seen': 1500, 'live_seen': 20000, 'long_histories': 50, 'growing': 12, 'many_openings': 50, 'builds': 500, 'failed_builds': 100}


def live():
    """The objects of the package that are alive, by type."""
    out = {}
    for o in gc.get_objects():
        t = type(o)
        mod = getattr(t, '__module__', None)
        if isinstance(mod, str) and mod.startswith('sudachipy') and not issubclass(t, type):
            out[t.__name__] = out.get(t.__name__, 0) + 1
    return out


def maps(d):
    with open('/proc/self/maps') as f:
        return [l.split(None, 5)[-1].strip() for l in f if d in l]


def fds():
    return sorted(os.readlink('/proc/self/fd/' + n) for n in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + n) or os.path.islink('/proc/self/fd/' + n))


def count_fds():
    return len(os.listdir('/proc/self/fd'))


def loggers():
    return len(logging.root.manager.loggerDict)


class Before:
    def __init__(self, ctx):
        gc.collect()
        self.ctx = ctx
        self.fds, self.live, self.threads, self.loggers, self.modules = count_fds(), live(), threading.active_count(), loggers(), len(sys.modules)
        self.maps = maps(ctx.dir)

    def compare(self, what, history):
        gc.collect()
        expect(maps(self.ctx.dir) == self.maps, '%s: still mapped: %r', what, maps(self.ctx.dir))
        expect(count_fds() == self.fds, '%s: %d file descriptors, %d before: %r', what, count_fds(), self.fds, fds())
        now = live()
        expect(now == self.live, '%s: objects are left over: %r', what, {k: n - self.live.get(k, 0) for k, n in now.items() if n != self.live.get(k, 0)})
        expect(threading.active_count() == self.threads, '%s: threads are left over', what)
        expect(loggers() == self.loggers, '%s: %d loggers, %d before', what, loggers(), self.loggers)
        expect(len(sys.modules) == self.modules, '%s: %d modules, %d before', what, len(sys.modules), self.modules)
        self.ctx.count('releases_compared')
        self.ctx.distinct(what, tuple(history))


def failing_open(ctx, rng, s, broken):
    settings = dict(s.settings)
    kind = rng.choice(['user dictionary missing', 'user dictionary invalid', 'system invalid', 'system missing', 'no OOV provider', 'plugin', 'char.def missing', 'char.def',
                       'not JSON', 'too many', 'system is a user dictionary', 'unk.def', 'rewrite plugin', 'truncated'])
    if kind == 'user dictionary missing':
        settings['userDict'] = settings.get('userDict', []) + ['none.dic']
    elif kind == 'user dictionary invalid':
        settings['userDict'] = settings.get('userDict', []) + [rng.choice(['system.dic', 'char.def'])]
    elif kind == 'system invalid':
        settings['systemDict'] = 'char.def'
    elif kind == 'system missing':
        settings['systemDict'] = 'none.dic'
    elif kind == 'no OOV provider':
        settings['oovProviderPlugin'] = []
    elif kind == 'plugin':
        settings['inputTextPlugin'] = settings['inputTextPlugin'] + [{'class': 'nothing'}]
    elif kind == 'char.def missing':
        settings['characterDefinitionFile'] = 'none.def'
    elif kind == 'char.def':
        settings['characterDefinitionFile'] = 'broken.def'
    elif kind == 'too many':
        settings['userDict'] = ['user%d.dic' % k for k in range(16)]
    elif kind == 'system is a user dictionary':
        settings['systemDict'] = 'user0.dic'
    elif kind == 'unk.def':
        settings['oovProviderPlugin'] = [{'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'broken.def'}]
    elif kind == 'rewrite plugin':
        settings['pathRewritePlugin'] = [{'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': ['無'] * 6}]
    elif kind == 'truncated':
        settings['systemDict'] = 'truncated.dic'
    with open(broken, 'w') as f:
        f.write('{' if kind == 'not JSON' else json.dumps(settings))
    try:
        Dictionary(config_path=broken, resource_dir=s.dir)
    except Exception:
        ctx.count('failed_opens')
        return kind
    expect(kind == 'truncated', 'the settings with the defect "%s" are accepted', kind)
    return kind


def use(ctx, rng, dic, s):
    """Analyse and look at the results in many ways; what is returned is all that is kept."""
    toks = [dic.create(rng.choice([None] + list(sut.MODES.values()))) for _ in range(rng.choice([1, 1, 2, 4]))]
    kept = []
    for _ in range(rng.choice([0, 1, 10, 25])):
        tok = rng.choice(toks)
        try:
            ml = tok.tokenize(gen.text(rng, s.heads, 0, 10), sut.MODES[rng.choice('ABC')])
        except Exception:
            ctx.count('failed_analyses')
            continue
        ctx.count('analyses')
        if rng.random() < 0.5:
            sut.views(ml)
        if rng.random() < 0.3:
            kept += [m.split(sut.MODES[rng.choice('AB')]) for m in ml]
        if rng.random() < 0.3:
            kept += list(ml)
        kept.append(rng.choice([ml, ml.get_internal_cost() if len(ml) else 0, str(ml)]))
    n = sum(live().values())
    ctx.count('live_seen', n)
    return toks, kept


def case(ctx, rng, i):
    ctx.count('evaluations')
    if i % 12 == 3:
        return many_builds(ctx, rng, i)
    if i % 3 == 2:
        return (many_openings if i % 6 == 2 else long_history)(ctx, rng, i)
    s = make(ctx, rng, users=rng.choice([1, 1, 2]), composites=3, n_words=rng.choice([3, 10]), inhibit=rng.choice([0, 0.3]), auto=0.3, fallback=rng.random() < 0.8)
    sut.write(os.path.join(ctx.dir, 'broken.def'), '0x0041..0x0050 NOTHING\nNOTHING,0,0,0,*,*,*,*,*,*\n')
    with open(os.path.join(ctx.dir, 'system.dic'), 'rb') as f, open(os.path.join(ctx.dir, 'truncated.dic'), 'wb') as g:
        data = f.read()
        g.write(data[:rng.randrange(272, len(data))])
    # an automatic cost may fail when connections are forbidden: then opening fails, as any other failure
    broken = os.path.join(ctx.dir, 'broken.json')
    # what is made once and for all is made
    try:
        d = sut.load(s)
        sut.views(d.create().tokenize('あ'))
    except Exception:
        pass
    d = None
    before = Before(ctx)
    history = []
    for _ in range(rng.randint(5, 12)):
        if rng.random() < 0.3:
            history.append(failing_open(ctx, rng, s, broken))
            ctx.note(history=history)
            before.compare('after a failure to open (%s)' % history[-1], history)
            continue
        dics = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            try:
                dics.append(sut.load(s))
            except Exception:
                ctx.count('failed_opens')
        ctx.count('opened', len(dics))
        ctx.count('mappings_seen', len(maps(ctx.dir)))
        used = [use(ctx, rng, d, s) for d in dics if rng.random() < 0.9]
        how = rng.choice(['dropped, closed', 'dropped, closed', 'closed in use, dropped', 'not closed'])
        history.append((how, len(dics)))
        ctx.note(history=history)
        if how == 'dropped, closed':
            ref = [weakref.ref(t) for toks, _ in used for t in toks if hasattr(t, '__weakref__')]
            used = None
            if rng.random() < 0.5:
                gc.collect()
            rng.shuffle(dics)
            for d in dics:
                try:
                    d.close()
                except BufferError as e:
                    expect(False, 'close() after everything was dropped: %s', e)
                ctx.count('closed')
            # the dictionaries themselves are still there
            gc.collect()
            expect(maps(ctx.dir) == before.maps, 'still mapped after close(): %r', maps(ctx.dir))
        elif how == 'closed in use, dropped':
            for d in dics:
                try:
                    d.close()
                except Exception:
                    pass
                ctx.count('closed_in_use')
        else:
            ctx.count('never_closed', len(dics))
        d = dics = used = None
        before.compare(how, history)
    ctx.sample({'history': [str(h) for h in history], 'live': sum(before.live.values())})


def long_history(ctx, rng, i):
    """One tokenizer and many texts."""
    s = make(ctx, rng, users=rng.choice([0, 1]), composites=3, n_words=10, inhibit=rng.choice([0, 0, 0.2]))
    dic = None
    try:
        dic = sut.load(s)
    except Exception:
        return
    tok = dic.create()
    growing = rng.random() < 0.5
    longest = 0

    def analyse(text):
        nonlocal longest
        longest = max(longest, 3 * len(text.encode()))      # each character may be rewritten to longer ones
        try:
            ml = tok.tokenize(text, sut.MODES[rng.choice('ABC')])
        except Exception:
            ctx.count('failed_analyses')
            return
        ctx.count('analyses')
        for m in ml:
            m.surface(), m.part_of_speech(), m.reading_form()

    texts = [gen.text(rng, s.heads, 0, 6, wild=0.05) for _ in range(12)]
    for t in texts * 3:
        analyse(t)
    gc.collect()
    base, blocks, n_fds = live(), sys.getallocatedblocks(), count_fds()
    gc_base = len(gc.get_objects())
    long0 = longest
    if growing:
        # each text a little longer than the one before: what the lattice holds grows as the longest text does
        unit = rng.choice(['あ', 'x', '1'])
        top = rng.choice([60, 150, 250])
        for n in range(1, top):
            analyse(unit * n)
        ctx.count('growing')
        analyse(unit)       # an analysis that failed keeps its lattice until the next one begins
        gc.collect()
        grown = len(gc.get_objects()) - gc_base
        limit = 3 * top + 2000
        expect(grown <= limit, 'after texts of up to %d bytes %d objects more are alive', 3 * top, grown)
        ctx.peak('objects_after_growing', grown)
    rounds = []
    for k in range(4):
        for t in texts * 5:
            analyse(t)
        gc.collect()
        now = live()
        now.pop('WordInfo', None)       # cached, up to a limit
        was = dict(base)
        was.pop('WordInfo', None)
        expect(now == was, 'after %d analyses objects are left over: %r', 60 * (k + 1), {x: n - was.get(x, 0) for x, n in now.items() if n != was.get(x, 0)})
        expect(count_fds() == n_fds, 'after %d analyses %d file descriptors, %d before', 60 * (k + 1), count_fds(), n_fds)
        rounds.append(sys.getallocatedblocks())
    ctx.count('long_histories')
    # the same texts again and again do not take more and more memory
    steps = [b - a for a, b in zip(rounds, rounds[1:])]
    expect(min(steps) < 30, 'each 60 analyses of the same texts take %r blocks more', steps)
    ctx.distinct('long', growing, tuple(texts))


BROKEN = [('あ,0,0,0\n', 'too few columns'), ('あ,x,0,0,あ,名詞,普通名詞,一般,*,*,*,ア,あ,*,A,*,*,*,*\n', 'a connection ID'),
          ('あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,ア,あ,*,C,999,*,*,*\n', 'a reference'), (',0,0,0,あ,名詞,普通名詞,一般,*,*,*,ア,あ,*,A,*,*,*,*\n', 'no headword'),
          ('あ,0,0,0,' + 'あ' * 32768 + ',名詞,普通名詞,一般,*,*,*,ア,あ,*,A,*,*,*,*\n', 'a long string'), ('\udcff', 'not UTF-8')]


def many_builds(ctx, rng, i):
    """Dictionaries built one after another in a process, also failing: nothing is left, and each build writes its own messages, once."""
    s = make(ctx, rng, users=1, composites=3, n_words=rng.choice([3, 10, 30]))
    bad, what = rng.choice(BROKEN)
    with open(os.path.join(ctx.dir, 'bad.csv'), 'wb') as f:
        f.write(bad.encode('utf-8', 'surrogateescape'))
    mine = []
    logger = logging.Logger('mine')
    handler = logging.Handler()
    handler.emit = lambda record: mine.append(record.getMessage())
    logger.addHandler(handler)

    def build(kind):
        """What the build writes on the standard error output and to its own logger."""
        args = {} if kind != 'logger' else {'logger': logger}
        del mine[:]
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            paths = s.sys_paths + ([os.path.join(ctx.dir, 'bad.csv')] if kind == 'failing' else [])
            out = io.BytesIO() if kind != 'user' else None
            if kind == 'user':
                dic = BinaryDictionary.from_system_dictionary(os.path.join(ctx.dir, 'system.dic'))
                try:
                    UserDictionaryBuilder(dic.grammar, dic.lexicon).build(s.user_paths[0], None, io.BytesIO())
                finally:
                    dic.close()
            else:
                with open(s.matrix_path, encoding='utf-8') as f:
                    try:
                        DictionaryBuilder(**args).build(paths, f, out)
                        expect(kind != 'failing', 'the build with %s succeeds', what)
                    except (ValueError, UnicodeError, IndexError):
                        expect(kind == 'failing', 'the build fails')
                        ctx.count('failed_builds')
            return sys.stderr.getvalue(), ''.join(mine)
        finally:
            sys.stderr = err

    kinds = ['system', 'failing', 'user', 'logger']
    first = {k: build(k) for k in kinds}
    expect(first['logger'] == ('', first['system'][0]), 'the messages to the own logger are %r, those on the standard error output are %r', first['logger'], first['system'][0])
    for k in ('system', 'user'):
        expect(first[k][0].count('reading the source file') == 1, 'the messages of the first builds (%s): %r', k, first[k][0])
    for k in kinds:
        build(k)
    before = Before(ctx)
    handlers = count_handlers()
    rounds = []
    for _ in range(4):
        for _ in range(6):
            k = rng.choice(kinds)
            now = build(k)
            expect(now == first[k], 'a later build (%s) writes %r, the first one %r', k, now, first[k])
            ctx.count('builds')
        gc.collect()
        rounds.append(sys.getallocatedblocks())
    before.compare('after building 24 times', ['builds', what])
    expect(count_handlers() == handlers, '24 builds leave %d handlers of messages more', count_handlers() - handlers)
    steps = [b - a for a, b in zip(rounds, rounds[1:])]
    ctx.peak('left_by_6_builds_blocks', max(min(steps), 0))
    expect(min(steps) <= 200, 'each six builds leave blocks: %r', steps)
    ctx.distinct('builds', what, len(s.sys_paths), first['system'][0])


def count_handlers():
    return sum(len(g.handlers) for g in list(logging.root.manager.loggerDict.values()) + [logging.root] if hasattr(g, 'handlers'))


def many_openings(ctx, rng, i):
    """The same again and again: what is left by one opening, tokenizer or analysis adds up."""
    s = make(ctx, rng, users=rng.choice([0, 1]), composites=3, n_words=10, inhibit=rng.choice([0, 0.2]))
    try:
        sut.load(s)
    except Exception:
        return
    texts = [gen.text(rng, s.heads, 0, 6, wild=0.05) for _ in range(4)]
    n_toks, closing, modes = rng.choice([1, 3, 30]), rng.choice([True, False]), [rng.choice([None] + list(sut.MODES.values())) for _ in range(30)]
    views = rng.random() < 0.5

    def once():
        dic = sut.load(s)
        for k in range(n_toks):
            tok = dic.create(modes[k])
            for t in texts[:1 + k % 4]:
                try:
                    ml = tok.tokenize(t)
                    if views:
                        sut.views(ml)
                except Exception:
                    ctx.count('failed_analyses')
        tok = ml = None
        if closing:
            dic.close()

    for _ in range(3):
        once()
    before = Before(ctx)
    rounds = []
    for _ in range(4):
        for _ in range(4):
            once()
            ctx.count('opened')
        gc.collect()
        rounds.append((sys.getallocatedblocks(), len(gc.get_objects())))
    before.compare('after opening and dropping it 16 times', [i])
    # open() of Python 3.12 itself leaves a block at most of the first calls, some 350 in all
    for what, k, limit in (('blocks', 0, 200), ('objects', 1, 3)):
        steps = [b[k] - a[k] for a, b in zip(rounds, rounds[1:])]
        ctx.peak('left_by_4_openings_' + what, max(min(steps), 0))
        expect(min(steps) <= limit, 'each four openings with %d tokenizers each leave %s: %r', n_toks, what, steps)
    ctx.count('many_openings')
    ctx.distinct('openings', n_toks, closing, views, tuple(texts))
