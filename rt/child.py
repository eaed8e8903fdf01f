"""A process of its own: reads one job as JSON from stdin, writes the result as JSON to stdout.

{"build": [{"dir":, "lex": [...], "matrix":, "users": [[...]], "out": ...}], "analyse": [{"config":, "dir":, "runs": [[text, mode], ...]}]}
"""
import hashlib
import json
import os
import sys


def analyse(dic_or_tok, text, mode):
    from rt import sut
    try:
        ml = dic_or_tok.tokenize(text, sut.MODES[mode])
        out = []
        for m in ml:
            v = sut.view(m)
            v['pos'] = list(v['pos'])
            v['units'] = {k: [[u.surface(), u.word_id()] for u in m.split(sut.MODES[k])] for k in 'AB'}
            out.append(v)
        return out
    except Exception as e:
        return 'error ' + type(e).__name__


def digest(path):
    with open(path, 'rb') as f:
        data = f.read()
    return hashlib.sha256(data[:8] + data[16:]).hexdigest()     # without the creation time


def run(job):
    from rt import sut
    from sudachipy.dictionary import Dictionary
    result = {'built': [], 'analysed': []}
    for b in job.get('build', []):
        os.makedirs(b['out'], exist_ok=True)
        sysdic = sut.build_system(os.path.join(b['out'], 'system.dic'), b['lex'], b['matrix'])
        files = [digest(sysdic)]
        for u, paths in enumerate(b['users']):
            files.append(digest(sut.build_user(os.path.join(b['out'], 'user%d.dic' % u), paths, sysdic)))
        result['built'].append(files)
    for a in job.get('analyse', []):
        dic = Dictionary(config_path=a['config'], resource_dir=a['dir'])
        tok = dic.create()
        result['analysed'].append([analyse(tok, t, m) for t, m in a['runs']])
    return result


def start(job, **env):
    import subprocess
    from rt import build
    p = subprocess.Popen([build.PY, '-m', 'rt.child'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(build.environment(os.environ['VERIF_ROOT'], **env), VERIF_ROOT=os.environ['VERIF_ROOT']))
    p.stdin.write(json.dumps(job).encode())
    p.stdin.close()
    p.stdin = None
    return p


def result(p, timeout=120):
    from rt.core import Violation
    out, err = p.communicate(timeout=timeout)
    if p.returncode:
        raise Violation('a process ended with %r: %s' % (p.returncode, err.decode(errors='replace')[-1500:]))
    return json.loads(out)


if __name__ == '__main__':
    json.dump(run(json.load(sys.stdin)), sys.stdout)
