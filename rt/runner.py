"""Runs a check in worker processes, judges their reports, writes the evidence."""
import argparse
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

from . import lines
from .core import Hang, Inconclusive, Violation

VERIF = Path(__file__).resolve().parent.parent
WORK = VERIF / '.work'
CLK = os.sysconf('SC_CLK_TCK')


def rng_for(seed, prop, case):
    return random.Random('%s/%s/%s' % (seed, prop, case))


class Ctx:
    """What a case can use: a scratch directory and counters of what was observed."""

    def __init__(self, prop, seed, tier, scratch):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.scratch = Path(scratch)
        self.root = os.environ['VERIF_ROOT']
        self.counters = {}
        self.seen = set()
        self.samples = []
        self.state = {}
        self.dir = None
        self.detail = {}
        self.set_aside = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, n):
        self.counters['max:' + name] = max(self.counters.get('max:' + name, 0), n)

    def distinct(self, *key):
        self.seen.add(int.from_bytes(hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'little'))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, **kw):
        """Remember what the case is doing, for the report of a violation."""
        self.detail.update(kw)

    def aside(self, what):
        """A violation that need not end the case (one of the known findings is expected here)."""
        if what not in [v['what'] for v in self.set_aside]:
            self.set_aside.append({'what': what, 'where': '', 'detail': dict(self.detail), 'case': self.case})

    def fresh(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = tempfile.mkdtemp(prefix='case-', dir=self.scratch)
        return self.dir


def run_case(mod, ctx, case):
    """-> None or the description of the violation"""
    rng = rng_for(ctx.seed, ctx.prop, case)
    ctx.detail = {}
    ctx.case = case
    ctx.fresh()
    limit = getattr(mod, 'CASE_CPU', 60)

    def fire(signum, frame):
        raise Hang()

    signal.signal(signal.SIGVTALRM, fire)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.case(ctx, rng, case)
        return None
    except Inconclusive:
        raise
    except Violation as e:
        return {'what': str(e), 'where': ''}
    except Hang:
        return {'what': 'no result within %d s of CPU time' % limit, 'where': traceback.format_exc()[-3000:]}
    except Exception as e:
        return {'what': 'unexpected %s: %s' % (type(e).__name__, str(e)[:500]), 'where': traceback.format_exc()[-6000:]}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def dump(path, obj):
    tmp = str(path) + '.tmp'
    with open(tmp, 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(obj, f, ensure_ascii=True, default=repr)
    os.replace(tmp, path)


def worker(args):
    if os.environ.get('VERIF_FLAVOUR') != 'asan':
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hit = {}
    if os.environ.get('VERIF_FLAVOUR') != 'count':      # there every step counts
        hit = lines.start(os.environ['VERIF_ROOT'])
    mod = importlib.import_module('checks.' + args.property.lower())
    out = Path(args.out)
    ctx = Ctx(args.property, args.seed, args.tier, out)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    violations = []
    deadline = time.monotonic() + args.cap
    done = 0
    status = 'complete'
    # slanted, so that cases of a kind (by their number) are spread over the workers
    for case in (c for c in range(args.cases) if (c + c // args.shards) % args.shards == args.shard):
        if time.monotonic() > deadline:
            status = 'capped'
            break
        (out / 'current').write_text(str(case))
        try:
            v = run_case(mod, ctx, case)
        except Inconclusive as e:
            dump(out / 'report.json', {'status': 'inconclusive', 'why': str(e)})
            return 0
        done += 1
        if v:
            v.update(case=case, detail=ctx.detail)
            violations.append(v)
            if len(violations) >= 2:
                break
    if hasattr(mod, 'finish'):
        mod.finish(ctx)
    dump(out / 'report.json', {'status': status, 'done': done, 'violations': violations + ctx.set_aside, 'counters': ctx.counters,
                               'seen': sorted(ctx.seen), 'samples': ctx.samples, 'lines': {f: sorted(n) for f, n in hit.items()}})
    return 0


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            parts = f.read().rsplit(')', 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / CLK
    except (OSError, IndexError):
        return 0.0


def known_findings(prop):
    path = VERIF / 'known_findings.json'
    if not path.exists():
        return []
    return [k for k in json.loads(path.read_text()).get('known', []) if k['property'] == prop]


def write_replay(args, v):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    path = d / ('%s-seed%s-case%s.json' % (args.property, args.seed, v['case']))
    dump(path, dict(property=args.property, seed=args.seed, tier=args.tier, **v))
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--cap', type=float)
    args = ap.parse_args(argv)
    if args.worker:
        return worker(args)
    mod = importlib.import_module('checks.' + args.property.lower())
    start = time.monotonic()
    WORK.mkdir(exist_ok=True)
    if args.replay:
        env = flavour_env(mod)
        if env is not None and os.environ.get('VERIF_FLAVOUR') != mod.FLAVOUR:
            sys.stdout.flush()
            rc = subprocess.call([sys.executable, '-m', 'rt.runner', args.property, '--replay', args.replay], env=env, cwd=str(VERIF))
            if rc < 0:
                print('the process died of signal %d' % -rc)
                print('VIOLATION property=%s replay=%s' % (args.property, args.replay))
                return 1
            return rc
        rec = json.loads(Path(args.replay).read_text())
        args.seed, args.tier = rec['seed'], rec['tier']
        scratch = tempfile.mkdtemp(prefix='replay-', dir=WORK)
        try:
            ctx = Ctx(args.property, args.seed, args.tier, scratch)
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
            v = run_case(mod, ctx, rec['case'])
            for other in ctx.set_aside:
                hit = [k for k in known_findings(args.property) if k['match'] in other['what']]
                if hit:
                    print('KNOWN-FINDING: property=%s %s' % (args.property, hit[0]['what']))
                else:
                    v = v or other
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if v:
            print(v['what'])
            print(v['where'])
            print(json.dumps(ctx.detail, ensure_ascii=False, default=repr)[:8000])
            print('VIOLATION property=%s replay=%s' % (args.property, args.replay))
            return 1
        print('held')
        return 0

    cases = args.cases or (mod.QUICK if args.tier == 'quick' else mod.THOROUGH)
    cap = getattr(mod, 'CAP', {}).get(args.tier) or (400 if args.tier == 'quick' else 1500)
    jobs = min(args.jobs, getattr(mod, 'JOBS', args.jobs), cases)
    scratch = Path(tempfile.mkdtemp(prefix=args.property + '-', dir=WORK))
    try:
        return supervise(args, mod, cases, cap, jobs, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def flavour_env(mod):
    """The environment of the workers of a check that wants another build of the extensions."""
    flavour = getattr(mod, 'FLAVOUR', None)
    if flavour is None:
        return None
    from . import build
    try:
        root = build.ensure(flavour)
    except build.BuildError as e:
        print('inconclusive: %s' % e, file=sys.stderr)
        sys.exit(3)
    if flavour == 'count':
        return build.environment(root, VERIF_ROOT=root, VERIF_FLAVOUR=flavour, LD_PRELOAD=build.helper('steps'))
    libs = [subprocess.check_output(['gcc', '-print-file-name=' + n]).decode().strip() for n in ('libasan.so', 'libubsan.so')]
    return build.environment(root, VERIF_ROOT=root, VERIF_FLAVOUR=flavour, LD_PRELOAD=' '.join(libs), PYTHONMALLOC='malloc',
                             ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1',
                             UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:print_stacktrace=1')


def supervise(args, mod, cases, cap, jobs, scratch, start):
    procs = []
    limit = getattr(mod, 'CASE_CPU', 60)
    env = flavour_env(mod)
    for shard in range(jobs):
        out = scratch / str(shard)
        out.mkdir()
        log = open(out / 'log', 'wb')
        p = subprocess.Popen([sys.executable, '-m', 'rt.runner', args.property, '--worker', '--shard', str(shard), '--shards', str(jobs),
                              '--cases', str(cases), '--tier', args.tier, '--seed', str(args.seed), '--out', str(out), '--cap', str(cap)],
                             stdout=log, stderr=subprocess.STDOUT, cwd=str(VERIF), env=env)
        procs.append({'p': p, 'out': out, 'log': log, 'case': None, 'cpu': 0.0, 'hung': False})
    while any(w['p'].poll() is None for w in procs):
        time.sleep(0.1)
        wall = time.monotonic() - start
        for w in procs:
            if w['p'].poll() is not None:
                continue
            try:
                cur = (w['out'] / 'current').read_text()
            except OSError:
                cur = None
            cpu = cpu_of(w['p'].pid)
            if cur != w['case']:
                w['case'], w['cpu'] = cur, cpu
            elif cur is not None and cpu - w['cpu'] > limit + 30:
                w['hung'] = True
                w['p'].kill()
            if wall > cap + 300:
                w['p'].kill()
    violations, counters, seen, samples, done, problems = [], {}, set(), [], 0, []
    capped = False
    ran = {}
    for w in procs:
        w['log'].close()
        rc = w['p'].returncode
        log = (w['out'] / 'log').read_text(errors='replace')[-6000:]
        try:
            case = int((w['out'] / 'current').read_text())
        except (OSError, ValueError):
            case = None
        report = w['out'] / 'report.json'
        if report.exists():
            r = json.loads(report.read_text())
            if r['status'] == 'inconclusive':
                problems.append(r['why'])
                continue
            capped |= r['status'] == 'capped'
            done += r['done']
            violations += r['violations']
            seen.update(r['seen'])
            samples += r['samples']
            for f, ns in r.get('lines', {}).items():
                ran.setdefault(f, set()).update(ns)
            for k, n in r['counters'].items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith('max:') else counters.get(k, 0) + n
        elif w['hung'] and case is not None:
            violations.append({'case': case, 'what': 'no result within %d s of CPU time (native code)' % (limit + 30), 'where': log, 'detail': {}})
        elif rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and case is not None:
            violations.append({'case': case, 'what': 'the process died of signal %d' % -rc, 'where': log, 'detail': {}})
        else:
            problems.append('a worker ended with %s: %s' % (rc, log[-1500:]))
    known, fresh = [], []
    for v in violations:
        hit = [k for k in known_findings(args.property) if k['match'] in v['what']]
        (known if hit else fresh).append((v, hit))
    for name, least in getattr(mod, 'REQUIRE', {}).items():
        if capped:
            least = least * done // (2 * cases)
        if counters.get(name, 0) < least and not fresh:
            problems.append('the monitor saw %s only %d times' % (name, counters.get(name, 0)))
    if not fresh and (done == 0 or not seen):
        problems.append('nothing was observed')
    wall = time.monotonic() - start
    evidence = {
        'property': args.property, 'tier': args.tier, 'seed': int(args.seed), 'level': mod.LEVEL,
        'coverage': {'evaluations': counters.get('evaluations', done), 'distinct_nontrivial': len(seen), 'rule': mod.RULE,
                     'samples': samples[:3], 'cases': done, 'observed': dict(sorted(counters.items())), 'capped_by_time': capped},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(fresh)}
    if ran:
        evidence['coverage']['lines_run_in_workers'] = {f: '%d of %d' % (len(ns & lines.executable(os.path.join(os.environ['VERIF_ROOT'], 'sudachipy', f))),
                                                                   len(lines.executable(os.path.join(os.environ['VERIF_ROOT'], 'sudachipy', f))))
                                                for f, ns in sorted(ran.items())}
        if os.environ.get('VERIF_LINES'):
            dump(os.path.join(os.environ['VERIF_LINES'], args.property + '.json'), {f: sorted(ns) for f, ns in ran.items()})
    (VERIF / 'evidence').mkdir(exist_ok=True)
    dump(VERIF / 'evidence' / (args.property + '.json'), evidence)
    for what in sorted({hit[0]['what'] for _, hit in known}):
        print('KNOWN-FINDING: property=%s %s' % (args.property, what))
    if fresh:
        fresh.sort(key=lambda x: x[0]['case'])
        for v, _ in fresh[:3]:
            path = write_replay(args, v)
            print('case %s: %s' % (v['case'], v['what'][:1500]))
            if v['where']:
                print(v['where'][-1200:])
            print('VIOLATION property=%s replay=%s' % (args.property, path))
        return 1
    if problems:
        print('inconclusive: ' + '\n'.join(problems), file=sys.stderr)
        return 3
    print('%s held: %d cases, %d evaluations, %d distinct, %.1f s%s' % (
        args.property, done, evidence['coverage']['evaluations'], len(seen), wall, ' (capped by time)' if capped else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
