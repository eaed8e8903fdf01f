"""Build a private copy of /repo's working tree.

The three Cython extensions are compiled from the .pyx/.pxd files that are in the
working tree right now; nothing that was built in /repo is used.  The result is
cached (in the git-ignored .cache) under a hash of everything that goes into it.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
CACHE = VERIF / '.cache'
PY = '/opt/venv/bin/python'

COMMON = ['-DNDEBUG', '-fwrapv', '-fPIC', '-shared', '-w']
FLAVOURS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fno-wrapv'],
    'count': ['-O1', '-fsanitize-coverage=trace-pc'],
}
SKIP = {'.so', '.c', '.pyc', '.pyo'}


class BuildError(Exception):
    pass


def sources():
    pkg = REPO / 'sudachipy'
    out = []
    for path in sorted(pkg.rglob('*')):
        if path.is_dir() or '__pycache__' in path.parts:
            continue
        if path.suffix in SKIP and not (path.suffix == '.c' and not path.with_suffix('.pyx').exists()):
            continue
        if path.suffix == '.c':
            continue
        out.append(path)
    return out


def digest(flavour):
    h = hashlib.sha256()
    for path in sources():
        h.update(str(path.relative_to(REPO)).encode())
        h.update(b'\0')
        h.update(hashlib.sha256(path.read_bytes()).digest())
    h.update(repr((FLAVOURS[flavour], COMMON, sys.version)).encode())
    h.update(Path(__file__).read_bytes())
    return h.hexdigest()[:24]


def _prune(pattern):
    """Remove all but the newest entries of the cache that nobody can be using any more."""
    old = sorted((p for p in CACHE.glob(pattern) if p.is_dir()), key=lambda p: p.stat().st_mtime)
    for p in old[:-3]:
        if time.time() - p.stat().st_mtime > 1800:
            shutil.rmtree(p, ignore_errors=True)


def _extensions(root, flavour):
    """Compile the extensions in root, or take them from an earlier build of the same Cython sources."""
    h = hashlib.sha256(repr((FLAVOURS[flavour], COMMON, sys.version)).encode() + Path(__file__).read_bytes())
    for path in sorted(p for p in (root / 'sudachipy').rglob('*') if p.suffix in ('.pyx', '.pxd', '.pxi', '.h', '.c')):
        h.update(str(path.relative_to(root)).encode() + b'\0' + hashlib.sha256(path.read_bytes()).digest())
    kept = CACHE / ('ext-%s-%s' % (flavour, h.hexdigest()[:24]))
    if not (kept / '.ok').exists():
        _prune('ext-%s-*' % flavour)
        _compile(root, flavour)
        shutil.rmtree(kept, ignore_errors=True)
        for so in sorted((root / 'sudachipy').rglob('*.so')):
            to = kept / so.relative_to(root)
            to.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(so, to)
        (kept / '.ok').write_text('')
    else:
        os.utime(kept)
        for so in sorted(kept.rglob('*.so')):
            shutil.copyfile(so, root / so.relative_to(kept))


def _compile(root, flavour):
    pyxs = sorted((root / 'sudachipy').rglob('*.pyx'))
    if not pyxs:
        raise BuildError('no Cython sources')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    cy = ['/opt/venv/bin/cython']

    def par(cmds):
        procs = [subprocess.Popen(c, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env) for c in cmds]
        bad = []
        for c, p in zip(cmds, procs):
            out, _ = p.communicate(timeout=600)
            if p.returncode:
                bad.append('%s\n%s' % (' '.join(map(str, c)), out.decode(errors='replace')[-3000:]))
        if bad:
            raise BuildError('\n'.join(bad))

    par([cy + [str(p.relative_to(root))] for p in pyxs])
    inc = sysconfig.get_paths()['include']
    if PY != sys.executable:
        inc = subprocess.check_output([PY, '-c', "import sysconfig;print(sysconfig.get_paths()['include'])"]).decode().strip()
    suffix = subprocess.check_output([PY, '-c', "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().strip()
    par([['gcc'] + COMMON + FLAVOURS[flavour] + ['-I' + inc, '-o', str(p.with_suffix('')) + suffix, str(p.with_suffix('.c'))]
         for p in pyxs])


def ensure(flavour='plain'):
    """Return the directory to put first on PYTHONPATH."""
    CACHE.mkdir(exist_ok=True)
    key = '%s-%s' % (flavour, digest(flavour))
    dest = CACHE / key
    if (dest / '.ok').exists():
        os.utime(dest)
        return dest
    with open(CACHE / '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if (dest / '.ok').exists():
            return dest
        _prune(flavour + '-*')
        tmp = Path(tempfile.mkdtemp(prefix='.build-', dir=CACHE))
        try:
            for path in sources():
                to = tmp / path.relative_to(REPO)
                to.parent.mkdir(parents=True, exist_ok=True)
                shutil.copyfile(path, to)
            _extensions(tmp, flavour)
            (tmp / '.ok').write_text(key)
            if dest.exists():
                shutil.rmtree(dest)
            os.rename(tmp, dest)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return dest


def helper(name):
    """A library made from a C file beside this one."""
    src = Path(__file__).with_name(name + '.c')
    CACHE.mkdir(exist_ok=True)
    dest = CACHE / ('%s-%s.so' % (name, hashlib.sha256(src.read_bytes()).hexdigest()[:16]))
    if not dest.exists():
        tmp = tempfile.mktemp(prefix='.%s-' % name, suffix='.so', dir=CACHE)
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, str(src), '-ldl'], check=True)
        os.replace(tmp, dest)
    return dest


def environment(root, **extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_PRELOAD'))}
    env.update(PATH='/opt/venv/bin:' + os.environ.get('PATH', '/usr/bin:/bin'), LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
               SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4', PYTHONPATH='%s:%s' % (root, VERIF))
    env.update({k: str(v) for k, v in extra.items()})
    return env


if __name__ == '__main__':
    for fl in sys.argv[1:] or ['plain', 'asan', 'count']:
        print(ensure(fl))
