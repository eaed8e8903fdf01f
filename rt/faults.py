"""Runs commands of the code under test in forked processes, with faults injected by the shim."""
import ctypes
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
from pathlib import Path

KILL, ENOSPC, EIO_ONCE, PARTIAL_KILL, PARTIAL_ENOSPC, KILL_AFTER, SIGINT, SIGTERM = 1, 2, 3, 4, 5, 6, 7, 8
NAMES = {1: 'killed before', 2: 'no space from', 3: 'I/O error at', 4: 'killed within', 5: 'no space within', 6: 'killed after', 7: 'interrupted at', 8: 'terminated at', 0: 'no fault'}


def ensure_shim():
    from rt import build
    return build.helper('shim')


def count_calls(log, at, sig):
    """Count the calls of functions of the package; at the given one (0: none) the process gets a signal."""
    n = 0

    def profile(frame, event, arg):
        nonlocal n
        if event == 'call' and 'sudachipy' in frame.f_code.co_filename:
            n += 1
            if at == 0 and n % 16 == 0:
                os.write(log.fileno(), b'0 call %d 0\n' % n)
            if n == at:
                sys.setprofile(None)
                os.kill(os.getpid(), sig)
    sys.setprofile(profile)


def serve():
    import sudachipy.command_line as cli
    # everything is loaded before a fault can hit
    import sudachipy.dictionarylib.userdictionarybuilder  # noqa: F401
    shim = ctypes.CDLL(os.environ['VERIF_SHIM'])
    for line in sys.stdin:
        job = json.loads(line)
        log = tempfile.TemporaryFile(dir=job['log'])
        err = tempfile.TemporaryFile(dir=job['log'])
        pid = os.fork()
        if pid == 0:
            rc = 97
            try:
                signal.alarm(60)
                os.dup2(err.fileno(), 1)
                os.dup2(err.fileno(), 2)
                os.chdir(job['cwd'])
                sys.argv = ['sudachipy'] + job['argv']
                if job.get('fsize') is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (job['fsize'], resource.RLIM_INFINITY))
                shim.shim_arm(job['dir'].encode(), ctypes.c_long(job.get('event', 0)), ctypes.c_int(job.get('mode', 0)), ctypes.c_long(job.get('part', 0)),
                              ctypes.c_int(log.fileno()))
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                if job.get('calls'):
                    count_calls(log, *job['calls'])
                try:
                    cli.main()
                    rc = 0
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    rc = 1
                finally:
                    sys.setprofile(None)
                    sys.stdout.flush()
                    sys.stderr.flush()
                    import gc
                    gc.collect()
            finally:
                os._exit(rc)
        _, status = os.waitpid(pid, 0)
        log.seek(0)
        err.seek(0)
        # the last line is cut where the size of files is limited
        trace = [x for x in (l.split() for l in log.read().decode().splitlines()) if len(x) == 4]
        calls = max((int(x[2]) for x in trace if x[1] == 'call'), default=0)
        trace = [x for x in trace if x[1] != 'call']
        print(json.dumps({'rc': os.waitstatus_to_exitcode(status), 'trace': trace, 'calls': calls, 'err': err.read().decode(errors='replace')[-1500:]}), flush=True)
        log.close()
        err.close()


class Server:
    def __init__(self, scratch):
        from rt import build
        shim = str(ensure_shim())
        self.log = tempfile.mkdtemp(prefix='faultlog-', dir=scratch)
        env = build.environment(os.environ['VERIF_ROOT'], VERIF_SHIM=shim, LD_PRELOAD=shim, VERIF_ROOT=os.environ['VERIF_ROOT'])
        self.p = subprocess.Popen([build.PY, '-m', 'rt.faults'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def run(self, argv, directory, cwd=None, **kw):
        job = dict(argv=argv, dir=str(directory), log=self.log, cwd=str(cwd or directory), **kw)
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            from rt.core import Inconclusive
            raise Inconclusive('the fault server died')
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait(timeout=30)


if __name__ == '__main__':
    serve()
