"""C18: a build that fails or is interrupted leaves no file that loads."""
import hashlib
import os
import signal

from rt import faults, gen, sut
from rt.core import expect
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary

ID = 'C18'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 80, 1500
RULE = ('for each of the random sources, the build and ubuild commands are run once per event of their output (open, each write, close) and fault: killed before, '
        'after and within it, no space from it on, one I/O error, SIGINT and SIGTERM (also at random calls of the package); also with file size limits and with an invalid line at every row; what is left is then loaded; '
        'non-trivial: distinct (event of the output, fault, position in the file)')
REQUIRE = {'faults': 4000, 'killed': 1000, 'write_errors': 1000, 'invalid_rows': 300, 'user_builds': 1000, 'left_complete': 10, 'left_missing_or_refused': 3000, 'size_limits': 300, 'large': 4, 'signals': 1000}
ASSUMPTIONS = ['A write that does not extend the file takes effect as a whole or not at all; pages reach the disk in order (no power loss).']


def setup(ctx):
    ctx.state['server'] = faults.Server(ctx.scratch)


def finish(ctx):
    ctx.state['server'].close()


def content(path):
    with open(path, 'rb') as f:
        data = f.read()
    return hashlib.sha256(data[:8] + data[16:]).hexdigest()


def loads(path, user):
    try:
        d = (BinaryDictionary.from_user_dictionary if user else BinaryDictionary.from_system_dictionary)(path)
    except Exception:
        return False
    return d is not None


def judge(ctx, what, r, path, user, good, old):
    ctx.count('faults')
    ctx.count('evaluations')
    if user:
        ctx.count('user_builds')
    if r['rc'] < 0:
        ctx.count('killed')
    here = content(path) if os.path.exists(path) else None
    if r['rc'] == 0:
        expect(here == good, '%s: the command reports success, but the file is %s', what, 'missing' if here is None else 'not complete (%d bytes)' % os.path.getsize(path))
        return
    if here is None or not loads(path, user):
        ctx.count('left_missing_or_refused')
        return
    if here == good:
        ctx.count('left_complete')
        expect(r['rc'] < 0 or good is not None, '%s: complete', what)
        return
    if old is not None and here == old:
        return
    expect(False, '%s: the command ended with %r and left a file of %d bytes that loads, although it is not complete', what, r['rc'], os.path.getsize(path))


BAD_ROWS = ['', 'あ', 'あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,A,*,*', ',0,0,0,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,A,*,*,*,*', 'あ,0,0,x,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,A,*,*,*,*',
            'あ,0,0,99999,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,A,*,*,*,*', 'あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,あ,あ,999999,A,*,*,*,*',
            'あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,C,999999,999999,*,*', 'あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,C,な/い,*,*,*',
            'あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,あ,あ,*,A,*,*,*,x', 'あ,0,0,0,あ,名詞,普通名詞,一般,*,*,*,%s,あ,*,A,*,*,*,*' % ('あ' * 40000)]


def case(ctx, rng, i):
    server = ctx.state['server']
    user = i % 2 == 1
    big = rng.random() < 0.5
    large = i % 20 in (6, 17)
    s = gen.sources(rng, users=1, n_words=rng.choice([5, 40, 120]) if big else 3, composites=3, big=big and rng.random() < 0.5, mecab=False)
    base = os.path.join(ctx.dir, 'in')
    out_dir = os.path.join(ctx.dir, 'out')
    os.makedirs(base)
    os.makedirs(out_dir)
    sut.write_sources(base, s)
    if large:
        # more words than the offsets of which fit into a buffer
        n = rng.choice([2200, 4000])
        target = rng.choice(s.user_paths[0] if user else s.sys_paths)
        with open(target, encoding='utf-8', newline='') as f:
            end = f.read()[-1:]
        with open(target, 'a', encoding='utf-8', newline='') as f:
            f.write('' if end in ('', '\n') else '\n')
            for k in range(n):
                f.write('語%d,0,0,%d,語%d,名詞,普通名詞,一般,*,*,*,*,*,*,A,*,*,*,*\n' % (k, k % 100, k))
        ctx.count('large')
    sysdic = sut.build_system(os.path.join(base, 'system.dic'), s.sys_paths, s.matrix_path)
    system_before = content(sysdic), os.stat(sysdic).st_mtime_ns
    path = os.path.join(out_dir, 'x.dic')
    desc = rng.choice(['', 'a description', 'あ' * 20])
    rows = s.user_paths[0] if user else s.sys_paths

    def argv(paths):
        if user:
            return ['ubuild', '-o', path, '-d', desc, '-s', sysdic] + paths
        return ['build', '-o', path, '-d', desc, '-m', s.matrix_path] + paths

    ctx.note(sources=s.as_json(), argv=argv(rows))
    r = server.run(argv(rows), out_dir)
    expect(r['rc'] == 0, 'the build without faults fails: %s', r['err'])
    expect(loads(path, user), 'what was built without faults does not load')
    good = content(path)
    size = os.path.getsize(path)
    trace = r['trace']
    ctx.peak('events_of_one_build', len(trace))

    def reset():
        old = None
        if os.path.exists(path):
            os.unlink(path)
        if rng.random() < 0.3:
            # there is something of that name already
            if rng.random() < 0.5:
                with open(path, 'wb') as f, open(sysdic, 'rb') as g:
                    f.write(g.read())
            else:
                with open(path, 'wb') as f:
                    f.write(b'x' * 5000)
            old = content(path)
        return old

    events = list(range(1, len(trace) + 1))
    if large and len(events) > 24:
        events = events[:4] + sorted(rng.sample(events[4:-10], 10)) + events[-10:]
    elif len(events) > 60:
        events = events[:15] + sorted(rng.sample(events[15:-15], 30)) + events[-15:]
    for e in events:
        name, at, n = trace[e - 1][1], int(trace[e - 1][2]), int(trace[e - 1][3])
        todo = [(faults.KILL, 0), (faults.KILL_AFTER, 0), (faults.ENOSPC, 0), (faults.EIO_ONCE, 0), (rng.choice([faults.SIGINT, faults.SIGINT, faults.SIGTERM]), 0)]
        if name == 'write+':
            parts = {1, n // 2, n - 1, rng.randrange(1, n) if n > 1 else 1}
            todo += [(m, p) for p in sorted(parts) for m in (faults.PARTIAL_KILL, faults.PARTIAL_ENOSPC)]
        if large:
            todo = [(faults.EIO_ONCE, 0), rng.choice(todo)]
        for mode, part in todo:
            old = reset()
            what = '%s %s %d of %d (%s of %d bytes at %d%s)' % (faults.NAMES[mode], 'event', e, len(trace), name, n, at, ', %d bytes written' % part if part else '')
            ctx.note(fault=what)
            r = server.run(argv(rows), out_dir, event=e, mode=mode, part=part)
            if mode in (faults.ENOSPC, faults.EIO_ONCE, faults.PARTIAL_ENOSPC):
                ctx.count('write_errors')
            if mode in (faults.SIGINT, faults.SIGTERM):
                ctx.count('signals')
            judge(ctx, what, r, path, user, good, old)
            ctx.distinct(name, mode, at, n, part)
    # interrupted by hand at any call, also while the sources are read
    calls = server.run(argv(rows), out_dir, calls=[0, 0])['calls']
    for _ in range(4 if large else 10):
        at, sig = rng.randint(1, max(calls, 1)), rng.choice([signal.SIGINT, signal.SIGINT, signal.SIGTERM])
        old = reset()
        ctx.note(fault='signal %d at call %d of %d' % (sig, at, calls))
        r = server.run(argv(rows), out_dir, calls=[at, int(sig)])
        ctx.count('signals')
        ctx.distinct('call', at, int(sig))
        judge(ctx, 'signal %d at call %d of %d' % (sig, at, calls), r, path, user, good, old)
    limits = {0, 1, 8, 16, 271, 272, 273, size - 1, size // 2} | {rng.randrange(size) for _ in range(6)}
    for limit in sorted(limits) if not large else sorted(rng.sample(sorted(limits), 4)):
        old = reset()
        if old is not None and os.path.exists(path):
            os.unlink(path)
            old = None
        ctx.note(fault='files limited to %d bytes' % limit)
        r = server.run(argv(rows), out_dir, fsize=limit)
        expect(r['rc'] != 0, 'with files limited to %d of %d bytes the command reports success', limit, size)
        judge(ctx, 'files limited to %d bytes' % limit, r, path, user, good, old)
        ctx.count('size_limits')
    # an invalid line at every row
    k = rng.randrange(len(rows))
    with open(rows[k], encoding='utf-8', newline='') as f:
        lines = f.read().split('\n')[:-1]
    import csv
    import io
    n_rows = len(list(csv.reader(io.StringIO('\n'.join(lines) + '\n', newline=''))))
    if n_rows == len(lines) and not large:
        for at in sorted(rng.sample(range(len(lines) + 1), min(len(lines) + 1, 12))):
            bad = rng.choice(BAD_ROWS)
            changed = os.path.join(base, 'changed.csv')
            sut.write(changed, '\n'.join(lines[:at] + [bad] + lines[at:]) + '\n')
            paths = rows[:k] + [changed] + rows[k + 1:]
            old = reset()
            ctx.note(fault='row %d is %r' % (at, bad[:80]))
            r = server.run(argv(paths), out_dir)
            expect(r['rc'] > 0, 'with the row %r at %d the command reports success', bad[:80], at)
            judge(ctx, 'row %d is %r' % (at, bad[:80]), r, path, user, None, old)
            ctx.count('invalid_rows')
    expect((content(sysdic), os.stat(sysdic).st_mtime_ns) == system_before, 'the system dictionary was changed')
    ctx.sample({'events': trace[:8], 'size': size, 'user': user})
