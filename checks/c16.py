"""C16: results and files are the same in every process."""
import os

from rt import child, cli, gen, sut
from rt.core import expect

ID = 'C16'
LEVEL = 'exploration'
QUICK, THOROUGH = 240, 5000
RULE = ('the same random sources are built and the same texts analysed in this process and in three others with hash seeds 0, 1 and a random one; files (without '
        'the creation time) and results are compared, and with those of the commands, whose files are built over files that are already there; non-trivial: distinct sources with several categories per character and OOV entries')
REQUIRE = {'processes': 500, 'files': 1000, 'analyses': 5000, 'ties': 30, 'ambiguous_references': 60, 'words_alike': 60, 'built_over': 150}


def setup(ctx):
    ctx.state['server'] = cli.Server(ctx.scratch)


def finish(ctx):
    ctx.state['server'].close()


def built_over(ctx, rng, s, files):
    """The commands build the same files, whatever was there under the same name."""
    d = os.path.join(ctx.dir, 'commands')
    os.makedirs(d)
    want = dict(zip(['system.dic'] + ['user%d.dic' % u for u in range(len(s.user_paths))], files))
    for k in range(2):
        for u, name in enumerate(want):
            out = os.path.join(d, name)
            before = rng.choice(['nothing', 'junk', 'other', 'same', 'half'])
            there = os.path.join(ctx.dir, 'here', name)
            if before == 'nothing':
                if os.path.exists(out):
                    os.unlink(out)
            elif before == 'junk':
                with open(out, 'wb') as f:
                    f.write(rng.randbytes(rng.choice([1, 100, 10 ** 5, os.path.getsize(there) + rng.randint(1, 5000)])))
            elif before == 'other':
                with open(there, 'rb') as f, open(out, 'wb') as g:
                    g.write(f.read() + b'\0' * rng.randint(0, 3))
            elif before == 'half':
                with open(there, 'rb') as f, open(out, 'wb') as g:
                    g.write(f.read()[:rng.randint(0, 400)])
            elif not os.path.exists(out):
                before = 'nothing'
            argv = ['build', '-m', s.matrix_path, '-o', name] + s.sys_paths if u == 0 else \
                ['ubuild', '-s', os.path.join(d, 'system.dic'), '-o', name] + s.user_paths[u - 1]
            r = ctx.state['server'].run(argv, d)
            expect(r.rc == 0, 'the command %r fails: %s', argv, r.err.decode(errors='replace')[-800:])
            got = child.digest(out)
            expect(got == want[name], 'the command %r (in its place there was: %s) builds a file of %d bytes with the digest %r, expected %r of %d bytes',
                   argv, before, os.path.getsize(out), got, want[name], os.path.getsize(there))
            ctx.count('built_over')
            ctx.count('evaluations')


def case(ctx, rng, i):
    alike = ''.join(rng.choice('アカサタナ') for _ in range(rng.choice([2, 2, 3]))) if rng.random() < 0.5 else ''
    s = gen.sources(rng, users=rng.choice([0, 1, 2]), standard=rng.choice([0, 0.5]), mecab=rng.random() < 0.9, composites=6, knum_words=rng.random() < 0.3,
                    extra_heads=[alike] + sorted(set(alike)) if alike else (), homographs=rng.randint(3, 10) if alike else 0, rewrite='katakana' if alike else None)
    if alike:
        # several words that are equally good for the katakana that are joined
        params = rng.randrange(s.rsize), rng.randrange(s.lsize), 12000
        for row in s.syslex.rows:
            if row[0] == alike and row[1] != -1:
                row[1:4] = params
            elif row[0] in alike:
                row[3] = -9000
        s.settings['pathRewritePlugin'][-1]['minLength'] = 4
        s.sys_texts = s.syslex.texts(len(s.sys_texts))
    if rng.random() < 0.5:
        # many ties: every cost the same, so that the order of candidates decides
        s.matrix = '%d %d\n' % (s.lsize, s.rsize)
        if s.unk is not None:
            rows = [l.split(',') for l in s.unk.split('\n') if l.strip()]
            s.unk = '\n'.join(','.join(r[:3] + ['100'] + r[4:]) for r in rows) + '\n'
        ctx.count('ties')
    if rng.random() < 0.5:
        # references in words that fit several words: it does not matter here which of them is meant
        for lex in [s.syslex] + list(s.userlex):
            rows = [r for r in lex.rows if lex.inline(r) is not None]
            if not rows:
                continue
            row = rng.choice(rows)
            for k in range(rng.randint(1, 6)):
                lex.rows.append(row[:12] + ['別%d' % k] + row[13:])
            inl = lex.inline(row)
            lex.add(row[0] * 2, mode='C', a=inl + '/' + inl, b=rng.choice(['*', inl + '/' + inl]), c=rng.choice(['*', inl]))
            ctx.count('ambiguous_references')
        s.sys_texts = s.syslex.texts(len(s.sys_texts))
        s.users = [u.texts(1) for u in s.userlex]
    ctx.note(sources=s.as_json())
    sut.write_sources(ctx.dir, s)
    runs = [[gen.text(rng, s.heads, 0, 8), rng.choice('ABC')] for _ in range(25)]
    if alike:
        runs += [[rng.choice(['', 'あ']) + alike + rng.choice(['', '。', '東']), 'C'] for _ in range(6)]
        ctx.count('words_alike')
    job = {'analyse': [{'config': s.config_path, 'runs': runs}]}
    procs = []
    seeds = ['0', '1', str(rng.randrange(2, 2 ** 32))][:3 if ctx.tier == 'thorough' else 2 + i % 2]
    jobs = []
    for k, h in enumerate(seeds):
        out = os.path.join(ctx.dir, 'out%d' % k)
        os.makedirs(out)
        for name in ('char.def', 'mchar.def', 'unk.def'):
            src = os.path.join(ctx.dir, name)
            if os.path.exists(src):
                os.link(src, os.path.join(out, name))
        jobs.append({'build': [{'out': out, 'lex': s.sys_paths, 'matrix': s.matrix_path, 'users': s.user_paths}],
                     'analyse': [{'config': s.config_path, 'dir': out, 'runs': runs}]})
        procs.append(child.start(jobs[-1], PYTHONHASHSEED=h))
    out = os.path.join(ctx.dir, 'here')
    os.makedirs(out)
    for name in ('char.def', 'mchar.def', 'unk.def'):
        src = os.path.join(ctx.dir, name)
        if os.path.exists(src):
            os.link(src, os.path.join(out, name))
    import json
    here = json.loads(json.dumps(child.run({'build': [dict(jobs[0]['build'][0], out=out)], 'analyse': [dict(jobs[0]['analyse'][0], dir=out)]})))
    for h, p in zip(seeds, procs):
        got = child.result(p)
        ctx.count('processes')
        ctx.count('files', len(here['built'][0]))
        expect(got['built'] == here['built'], 'with hash seed %s the files differ: %r and %r', h, got['built'], here['built'])
        for (text, mode), a, b in zip(runs, here['analysed'][0], got['analysed'][0]):
            ctx.count('analyses')
            ctx.count('evaluations')
            expect(a == b, 'with hash seed %s, %r in mode %s gives %r, here %r', h, text, mode, b, a)
    if i % 2:
        built_over(ctx, rng, s, here['built'][0])
    ctx.distinct(s.sys_texts, s.matrix, s.chardef)
    ctx.sample({'hash_seeds': seeds, 'files': here['built'][0]})
