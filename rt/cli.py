"""Runs the command of the code under test: in forks of a process that has it loaded, or in a process of its own."""
import json
import os
import signal
import subprocess
import sys
from pathlib import Path


def serve():
    import sudachipy.command_line as cli
    for line in sys.stdin:
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            rc = 97
            try:
                signal.alarm(60)
                for name, fd, flags in (('stdin', 0, os.O_RDONLY), ('stdout', 1, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), ('stderr', 2, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
                    f = os.open(job[name], flags)
                    os.dup2(f, fd)
                    os.close(f)
                os.chdir(job['cwd'])
                sys.stdin = open(0, encoding='utf-8', newline='\n')
                sys.argv = ['sudachipy'] + job['argv']
                for p in job.get('path', []):
                    sys.path.insert(0, p)
                try:
                    cli.main()
                    rc = 0
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    rc = 1
                finally:
                    import logging
                    logging.shutdown()
                    sys.stdout.flush()
                    sys.stderr.flush()
            finally:
                os._exit(rc)
        _, status = os.waitpid(pid, 0)
        print(json.dumps(os.waitstatus_to_exitcode(status)), flush=True)


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


class Server:
    """run(argv) -> Result; the command runs in a fork of a process in which it is loaded"""

    def __init__(self, scratch, root=None):
        from rt import build
        self.files = {n: os.path.join(str(scratch), 'cli-' + n) for n in ('stdin', 'stdout', 'stderr')}
        env = build.environment(root or os.environ['VERIF_ROOT'])
        self.p = subprocess.Popen([build.PY, '-m', 'rt.cli'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  cwd=str(Path(__file__).resolve().parent.parent))

    def run(self, argv, cwd, stdin=b'', path=()):
        with open(self.files['stdin'], 'wb') as f:
            f.write(stdin)
        job = dict(self.files, argv=argv, cwd=str(cwd), path=list(path))
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            from rt.core import Inconclusive
            raise Inconclusive('the command server died')
        with open(self.files['stdout'], 'rb') as f, open(self.files['stderr'], 'rb') as g:
            return Result(json.loads(line), f.read(), g.read())

    def close(self):
        self.p.stdin.close()
        self.p.wait(timeout=30)


def own_process(argv, cwd, stdin=b'', path=(), **env):
    from rt import build
    root = os.environ['VERIF_ROOT']
    e = build.environment(root, **env)
    e['PYTHONPATH'] = ':'.join(list(path) + [root])
    for k in [k for k, v in env.items() if v is None]:
        del e[k]
    p = subprocess.run([build.PY, '-m', 'sudachipy.command_line'] + argv, cwd=str(cwd), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120)
    return Result(p.returncode, p.stdout, p.stderr)


if __name__ == '__main__':
    serve()
