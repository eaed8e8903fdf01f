#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--cases N] [--jobs N]

Exit 0: held on everything that was run.  Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 3: inconclusive (the monitors observed too little, or the harness could not run).
"""
import os
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True

from rt import build  # noqa: E402


def main():
    try:
        root = build.ensure('plain')
    except build.BuildError as e:
        print('inconclusive: the extensions of the working tree do not compile\n%s' % e, file=sys.stderr)
        return 3
    env = build.environment(root)
    env['VERIF_ROOT'] = str(root)
    return subprocess.call([build.PY, '-m', 'rt.runner'] + sys.argv[1:], env=env, cwd=str(HERE))


if __name__ == '__main__':
    sys.exit(main())
