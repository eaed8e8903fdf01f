"""C21: the tokenize command prints what the analysis gives."""
import os

from rt import cli, gen, sut
from rt.core import expect
from .common import make

ID = 'C21'
LEVEL = 'exploration'
QUICK, THOROUGH = 160, 4000
RULE = ('random worlds; 12 runs each of the command over random options (-r, -m, -a, -d, -o, with and without the name tokenize), 0 to 3 files or standard input, '
        '0 to 12 lines each (empty, without a final line feed, with other separators), in forks of a loaded process and a share in processes of their own, '
        'some in the C locale; output compared byte by byte with the analysis through the API; missing input files, settings and wrong options; '
        'non-trivial: distinct (options, source of the text, number of files, output)')
REQUIRE = {'runs': 1500, 'lines': 5000, 'morphemes': 15000, 'from_stdin': 400, 'from_files': 400, 'several_files': 200, 'to_file': 400, 'all_fields': 400, 'with_dump': 100,
           'oov_marks': 500, 'synonyms': 50, 'user_words': 50, 'missing_files': 100, 'wrong_options': 100, 'own_processes': 20, 'c_locale': 5, 'information': 300, 'long_lines': 12, 'many_lines': 12}
REQUIRE.update({'mode %s' % m: 200 for m in 'ABC'})


def setup(ctx):
    ctx.state['server'] = cli.Server(ctx.scratch)


def finish(ctx):
    ctx.state['server'].close()


def lines_of(ctx, tok, mode, full, lines):
    out = []
    for line in lines:
        ctx.count('lines')
        block = []
        for m in tok.tokenize(line, sut.MODES[mode]):
            cols = [m.surface(), ','.join(m.part_of_speech()), m.normalized_form()]
            if full:
                cols += [m.dictionary_form(), m.reading_form(), str(m.dictionary_id()), '[' + ','.join('%d' % g for g in m.synonym_group_ids()) + ']']
                if m.synonym_group_ids():
                    ctx.count('synonyms')
                if m.is_oov():
                    cols.append('(OOV)')
                    ctx.count('oov_marks')
            if m.dictionary_id() > 0:
                ctx.count('user_words')
            ctx.count('morphemes')
            block.append('\t'.join(cols))
        block.append('EOS')
        out.append(block)
    return out


def long_line(rng, heads):
    n = rng.choice([300, 1100, 4200, 8300, 9000])
    out = ''.join(gen.text(rng, heads, 4, 8) for _ in range(4))
    out = (out * (n // len(out) + 1))[:n] + gen.text(rng, heads, 1, 8)
    return out.replace('\r', '').replace('\n', '')


def content(rng, heads):
    """The lines of a file, and the file."""
    lines = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12])):
        r = rng.random()
        t = '' if r < 0.15 else gen.text(rng, heads, 1, 8)
        if r > 0.9:
            at = rng.randint(0, len(t))
            t = t[:at] + rng.choice(['\t', ' ', '\u3000', '\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\ufeff', 'EOS', '  ']) + t[at:]
        lines.append(t.replace('\r', '').replace('\n', ''))
    if rng.random() < 0.01:
        lines.insert(rng.randint(0, len(lines)), long_line(rng, heads))
    if rng.random() < 0.01:
        lines += [gen.pick_run(rng, 1, 2) for _ in range(rng.choice([300, 1100]))]
        lines = [x.replace('\r', '').replace('\n', '') for x in lines]
    text = '\n'.join(lines)
    if lines and (rng.random() < 0.7 or lines[-1] == ''):
        text += '\n'
    return lines, text.encode('utf-8')


def case(ctx, rng, i):
    server = ctx.state['server']
    s = make(ctx, rng, users=rng.choice([0, 1, 2]), composites=rng.randint(0, 6))
    dic = sut.load(s)
    tok = dic.create()
    work = os.path.join(ctx.dir, 'work')
    os.makedirs(work)
    for run in range(12):
        mode = rng.choice(['A', 'B', 'C', None])
        full, dump = rng.random() < 0.5, rng.random() < 0.12
        sources = [content(rng, s.heads) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        out = os.path.join(work, 'out%d.txt' % run) if rng.random() < 0.4 else None
        opts = [['-r', s.config_path]]
        if mode:
            opts.append(['-m', mode])
        if full:
            opts.append(['-a'])
        if dump:
            opts.append(['-d'])
        if out:
            name = rng.choice([out, os.path.basename(out)])
            opts.append(['-o', name])
            if rng.random() < 0.3:
                with open(out, 'wb') as f:
                    f.write(b'something that was there before\n' * rng.randint(1, 100))
        rng.shuffle(opts)
        argv = (['tokenize'] if rng.random() < 0.5 else []) + [x for o in opts for x in o]
        stdin, lines = b'', []
        if sources:
            names = []
            for k, (ls, data) in enumerate(sources):
                p = os.path.join(work, 'in%d_%d.txt' % (run, k))
                with open(p, 'wb') as f:
                    f.write(data)
                names.append(rng.choice([p, os.path.basename(p)]))
                lines += ls
            if rng.random() < 0.1:
                names.append(names[0])
                lines += sources[0][0]
            if rng.random() < 0.2:
                argv = argv[:1] + names + argv[1:] if argv[0] == 'tokenize' else names + argv
            else:
                argv += names
            stdin = b'this must not be read\n' if rng.random() < 0.3 else b''
            ctx.count('from_files')
            if len(sources) > 1:
                ctx.count('several_files')
        else:
            lines, stdin = content(rng, s.heads)
            ctx.count('from_stdin')
        ctx.note(argv=argv, stdin=stdin.decode(), files=[d.decode() for _, d in sources])
        ctx.count('long_lines', sum(1 for x in lines if len(x) > 250))
        ctx.count('many_lines', len(lines) > 250)
        if rng.random() < 0.04:
            ctx.count('own_processes')
            if out and sources and rng.random() < 0.6:
                ctx.count('c_locale')
                r = cli.own_process(argv, work, stdin, LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
            else:
                r = cli.own_process(argv, work, stdin)
        else:
            r = server.run(argv, work, stdin)
        ctx.count('runs')
        ctx.count('evaluations')
        ctx.count('mode %s' % (mode or 'C'))
        if full:
            ctx.count('all_fields')
        expect(r.rc == 0, 'the command %r ended with %r: %s', argv, r.rc, r.err.decode(errors='replace')[-1500:])
        if out:
            ctx.count('to_file')
            expect(r.out == b'', 'the command %r with an output file prints %r', argv, r.out[:500])
            expect(os.path.exists(out), 'the command %r wrote no output file', argv)
            with open(out, 'rb') as f:
                got = f.read()
        else:
            got = r.out
        got = got.decode('utf-8')
        blocks = lines_of(ctx, tok, mode or 'C', full, lines)
        if dump:
            ctx.count('with_dump')
            rest = got.split('\n')
            expect(rest.pop() == '', 'the output of %r does not end with a line feed', argv)
            at = 0
            if any(len(b) > 1 for b in blocks):
                expect(len(rest) > sum(x.count('\n') + 1 for b in blocks for x in b), 'the output of %r has no debug information', argv)
            for line in [x for b in blocks for x in b]:
                for part in line.split('\n'):
                    while at < len(rest) and rest[at] != part:
                        at += 1
                    expect(at < len(rest), 'the output of %r with dumps has no line %r after the one before', argv, line)
                    at += 1
            expect(at == len(rest), 'the output of %r goes on after the last EOS: %r', argv, rest[at:at + 3])
        else:
            want = ''.join(x + '\n' for b in blocks for x in b)
            if got != want:
                g, w = got.split('\n'), want.split('\n')
                k = next((k for k in range(min(len(g), len(w))) if g[k] != w[k]), min(len(g), len(w)))
                expect(False, 'the command %r prints in line %d %r, the analysis gives %r', argv, k, g[k:k + 2], w[k:k + 2])
        ctx.distinct(mode, full, dump, bool(out), len(sources), got)
    # what cannot be done
    good = os.path.join(work, 'good.txt')
    with open(good, 'w') as f:
        f.write('あ\n')
    for _ in range(2):
        names = [good] * rng.randint(0, 2)
        names.insert(rng.randint(0, len(names)), os.path.join(work, 'missing.txt'))
        out = os.path.join(work, 'never.txt')
        existed = rng.random() < 0.5
        if existed:
            with open(out, 'w') as f:
                f.write('before')
        elif os.path.exists(out):
            os.unlink(out)
        with_out = rng.random() < 0.5
        argv = ['-r', s.config_path] + (['-o', out] if with_out else []) + names
        ctx.note(argv=argv)
        r = server.run(argv, work)
        expect(r.rc not in (0, None), 'the command %r with a missing file ended with %r', argv, r.rc)
        expect(b'EOS' not in r.out and b'missing.txt' in r.err, 'the command %r with a missing file prints %r and %r', argv, r.out[:300], r.err[:300])
        if existed:
            with open(out) as f:
                expect(f.read() == 'before', 'the command %r with a missing file changed the output file', argv)
        else:
            expect(not os.path.exists(out), 'the command %r with a missing file wrote an output file', argv)
        ctx.count('missing_files')
    for argv in (['-r', s.config_path, '-m', rng.choice(['D', 'a', 'AB', ''])], ['-r', os.path.join(work, 'nothing.json'), good], ['--nothing', '-r', s.config_path],
                 ['-r', s.config_path, '-s', rng.choice(['large', 'Core', ''])]):
        ctx.note(argv=argv)
        r = server.run(argv, work, 'あ\n'.encode())
        expect(r.rc not in (0, None) and b'EOS' not in r.out, 'the command %r ended with %r and prints %r', argv, r.rc, r.out[:300])
        ctx.count('wrong_options')
    # what asks for nothing but information
    for argv in (rng.choice([['-v'], ['--version'], ['tokenize', '-v'], ['-r', s.config_path, '-v'], ['-v', good]]),
                 rng.choice([['-h'], ['--help'], ['tokenize', '-h'], ['build', '-h'], ['ubuild', '--help'], ['tokenize', '--help', good]])):
        ctx.note(argv=argv)
        r = server.run(argv, work, 'あ\n'.encode())
        expect(r.rc == 0 and r.out.strip() and b'EOS' not in r.out, 'the command %r ended with %r and prints %r %r', argv, r.rc, r.out[:300], r.err[-500:])
        if '-v' in argv or '--version' in argv:
            expect(r.out.decode().split()[:1] == ['sudachipy'] and len(r.out.split()) == 2, 'the command %r prints %r', argv, r.out[:300])
        else:
            expect(b'usage' in r.out, 'the command %r prints %r', argv, r.out[:300])
        ctx.count('information')
    # the commands that build, without their sources
    outp = os.path.join(work, 'new.dic')
    csv, matrix, sysdic = s.sys_paths[0], s.matrix_path, os.path.join(s.dir, 'system.dic')
    none = os.path.join(work, 'none')
    for argv in (['build', '-o', outp, '-m', none, csv], ['build', '-o', outp, '-m', matrix, csv, none], ['ubuild', '-o', outp, '-s', none, csv],
                 ['ubuild', '-o', outp, '-s', sysdic, none], ['build', '-o', outp, csv], ['build', '-o', outp, '-m', matrix], ['ubuild', '-o', outp, '-s', sysdic]):
        ctx.note(argv=argv)
        r = server.run(argv, work)
        expect(r.rc not in (0, None), 'the command %r ended with %r', argv, r.rc)
        expect(not os.path.exists(outp), 'the command %r wrote a file', argv)
        ctx.count('missing_files')
    ctx.sample({'argv': argv, 'lines': lines[:3], 'output': got[:300]})
