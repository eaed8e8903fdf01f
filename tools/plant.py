"""Plant a bug:  python tools/plant.py SPEC.py [--keep] [--checks C01,C02]

SPEC.py defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (text of demo.py), optionally CHECKS.
The change is made in a scratch copy of /repo; the stable tests run there, the demonstration runs with and without
it, and the checks run on it.  With --keep, a change that counts is kept in /verif/seeded/ID."""
import json
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
PL = Path('/tmp/pl')


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None)


def copy(name):
    w = PL / name
    if w.exists():
        shutil.rmtree(w)
    PL.mkdir(exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', str(w)])
    return w


def run_tests(w):
    """The stable tests that fail in the copy."""
    vp = w.parent / (w.name + '.vp')
    vp.mkdir(exist_ok=True)
    for n in ('build.sh', 'test.sh'):
        t = Path('/opt/vp', n).read_text().replace('/repo', str(w)).replace('/opt/vp/build.sh', str(vp / 'build.sh'))
        (vp / n).write_text(t)
    b = sh(['bash', str(vp / 'build.sh')])
    if b.returncode:
        shutil.rmtree(vp)
        return ['BUILD ' + b.stdout.decode()[-600:]]
    r = sh(['bash', str(vp / 'test.sh'), str(vp / 'out.json')], timeout=600)
    try:
        out = json.loads((vp / 'out.json').read_text())
        passed = set(out['passed'])
    except Exception:
        passed = set()
    shutil.rmtree(vp)
    stable = json.loads(Path('/opt/vp/BASELINE.json').read_text())['stable']
    return [t for t in stable if t not in passed] if r is not None else None


def original_lines(w, diff):
    """Does the change touch a line of the base commit?"""
    base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.decode().split()[0]
    for part in re.split(r'(?m)^diff --git ', diff)[1:]:
        f = re.search(r' b/(\S+)', part).group(1)
        blame = sh(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', f]).stdout.decode().splitlines()
        n = 0
        for line in part.splitlines():
            m = re.match(r'@@ -(\d+)', line)
            if m:
                n = int(m.group(1))
            elif n and line.startswith('-'):
                if base.startswith(blame[n - 1].split()[0].lstrip('^')):
                    return True
                n += 1
            elif n and not line.startswith('+'):
                n += 1
    return False


def demo(folder, cwd):
    return sh(['bash', str(folder / 'demo.sh')], cwd=cwd, timeout=300)


def main():
    spec = {}
    exec(compile(Path(sys.argv[1]).read_text(), sys.argv[1], 'exec'), spec)
    keep = '--keep' in sys.argv
    checks = spec.get('CHECKS', [spec['PROP']])
    for a in sys.argv:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
    name = spec['ID']
    w = copy(name)
    try:
        for f, old, new in spec['EDITS']:
            p = w / f
            t = p.read_text()
            if t.count(old) != 1:
                print(name, 'EDIT: %d matches in %s of %r' % (t.count(old), f, old))
                return 2
            p.write_text(t.replace(old, new))
        diff = sh(['git', '-C', str(w), 'diff']).stdout.decode()
        if not original_lines(w, diff):
            print(name, 'NOT ORIGINAL LINES')
            return 2
        bad = run_tests(w)
        if bad:
            print(name, 'TESTS FAIL:', bad[:4])
            return 2
        folder = PL / (name + '.seed')
        shutil.rmtree(folder, ignore_errors=True)
        folder.mkdir()
        (folder / 'demo.py').write_text('from kit import *      # noqa: F403\n\n' + spec['DEMO'].strip() + '\n')
        shutil.copy(V / 'tools' / 'kit.py', folder / 'kit.py')
        (folder / 'demo.sh').write_text('#!/bin/bash\n# run in the directory of the repository, after it was built\n'
                                        'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8\n'
                                        'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (folder / 'meta.json').write_text(json.dumps({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                                                     ensure_ascii=False, indent=1) + '\n')
        (folder / 'patch.diff').write_text(diff)
        good = demo(folder, '/repo')
        if good.returncode:
            print(name, 'DEMO FAILS ON THE UNCHANGED TREE', good.stdout.decode()[-1500:])
            return 2
        hit = demo(folder, str(w))
        if not hit.returncode:
            print(name, 'DEMO DOES NOT SHOW IT', hit.stdout.decode()[-1500:])
            return 2
        print(name, 'demo:', hit.stdout.decode().strip().splitlines()[-1][:200])
        res = []
        for c in checks:
            r = sh([PY, 'check.py', c, '--tier', 'quick'], cwd=str(V), env={'VERIF_REPO': str(w), 'VERIF_SEED': '1'})
            out = r.stdout.decode()
            res.append('%s=%s' % (c, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + c in out else 'MISSED(%d) %s' % (r.returncode, out[-300:])))
            print(name, res[-1], '|', next((x[:200] for x in out.splitlines() if 'VIOLATION' in x), ''), flush=True)
        if keep:
            dest = V / 'seeded' / name
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(folder, dest)
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(PL / (name + '.seed'), ignore_errors=True)


sys.exit(main())
