"""Mutation testing of the checks.

python tools/mutate.py list                       how many mutants there are
python tools/mutate.py run OUT.jsonl K N [FILTER] worker K of N: mutants that pass the stable tests go through the checks

Every worker has copies of /repo and /verif of its own under /tmp/mut."""
import ast
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
CHECKS = {
    'tokenizer.pyx': 'C02 C05 C09 C10 C14 C31 C01 C29 C23 C24 C21', 'lattice.pyx': 'C02 C26 C14 C13 C31 C10 C24 C23',
    'latticenode.pyx': 'C02 C25 C13 C12 C04 C23 C10', 'morphemelist.py': 'C01 C05 C25 C04', 'morpheme.py': 'C25 C01 C05 C14',
    'utf8inputtextbuilder.py': 'C27 C06 C07 C01', 'utf8inputtext.py': 'C27 C09 C12 C13 C01', 'default_input_text_plugin.py': 'C06 C10 C28',
    'prolongedsoundmark.py': 'C07 C28 C29', 'input_text/utils.py': 'C28 C06 C07 C22', 'mecab_oov_plugin.py': 'C09 C28 C16 C02 C22',
    'simple_oov_plugin.py': 'C09 C02 C10 C28', 'oov_provider_plugin.py': 'C09 C02', 'oov/utils.py': 'C28 C09',
    'inhibitconnectioncost.py': 'C26', 'editconnectioncost.py': 'C26', 'numericparser.py': 'C11 C12', 'join_katakana_oov_plugin.py': 'C13 C10 C28 C29',
    'path_rewrite_plugin.py': 'C12 C13 C25', 'join_numeric_plugin.py': 'C12 C10 C29', 'path_rewrite/utils.py': 'C28 C12 C13',
    'binarydictionary.py': 'C20 C03 C17 C24 C28 C18 C04', 'jtypedbytebuffer.py': 'C03 C19', 'dictionarybuilder.py': 'C03 C19 C04 C18 C16 C21',
    'categorytype.py': 'C08 C09', 'dictionaryheader.py': 'C20 C03 C19 C18', 'wordidtable.py': 'C03 C04 C24', 'doublearraylexicon.py': 'C03 C04 C17 C24',
    'wordinfo.py': 'C03', 'lexiconset.py': 'C04 C25 C02 C17 C24 C15', 'dictionaryversion.py': 'C20', 'wordinfolist.py': 'C03 C20 C25 C15 C24',
    'grammar.py': 'C03 C26 C04 C02 C25', 'charactercategory.py': 'C08 C28', 'wordparameterlist.py': 'C03 C04 C26', 'userdictionarybuilder.py': 'C04 C19 C18',
    'dictionary.py': 'C22 C28 C29 C04 C17 C24 C09 C05 C25', 'config.py': 'C22 C28 C17 C21', 'command_line.py': 'C21 C18 C22 C03 C04',
}
SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], 'in': ['not in'], 'not in': ['in'], 'is': ['is not'],
        'is not': ['is'], '+': ['-'], '-': ['+'], '*': ['+'], '//': ['*'], '/': ['+'], '>>': ['<<'], '<<': ['>>'], '&': ['|'], '|': ['&'],
        'and': ['or'], 'or': ['and'], '+=': ['-=', '='], '-=': ['+=', '=']}


def checks_of(path):
    for k, v in CHECKS.items():
        if path.endswith('/' + k):
            return v.split()
    return []


def py_mutants(text):
    """(line, what, new text)"""
    lines = text.split('\n')
    starts = [0]
    raw = [l.encode() for l in lines]
    for l in raw:
        starts.append(starts[-1] + len(l) + 1)
    data = text.encode()
    tree = ast.parse(text)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def sub(a, b, new):
        return (data[:a] + new.encode() + data[b:]).decode()
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def message(n):
        """Is it the text of an error, a log or a help?"""
        while n in parents:
            p = parents[n]
            if isinstance(p, ast.Raise) or isinstance(p, ast.keyword) and p.arg in ('help', 'description'):
                return True
            if isinstance(p, ast.Call) and re.match(r'(print|(self\.)?(__)?logger\.\w+|warnings\.warn)$', ast.unparse(p.func)):
                return True
            n = p
        return False
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) or isinstance(n, ast.BinOp) or isinstance(n, ast.BoolOp):
            if isinstance(n, ast.Compare):
                parts = [n.left] + n.comparators
            elif isinstance(n, ast.BinOp):
                parts = [n.left, n.right]
            else:
                parts = n.values
            for x, y in zip(parts, parts[1:]):
                a, b = pos(x, True), pos(y)
                mid = data[a:b].decode()
                m = re.search(r'not\s+in|is\s+not|<=|>=|==|!=|<<|>>|//|<|>|\bin\b|\bis\b|\band\b|\bor\b|[-+*/&|]', mid)
                if not m:
                    continue
                op = re.sub(r'\s+', ' ', m.group(0))
                for new in SWAP.get(op, []):
                    yield n.lineno, '%s -> %s' % (op, new), sub(a + len(mid[:m.start()].encode()), a + len(mid[:m.end()].encode()), new)
            if isinstance(n, ast.BoolOp):
                for v in n.values:
                    yield n.lineno, 'drop %s' % data[pos(v):pos(v, True)].decode()[:40], sub(pos(v), pos(v, True), 'True' if isinstance(n.op, ast.And) else 'False')
        if isinstance(n, ast.AugAssign):
            a, b = pos(n.target, True), pos(n.value)
            mid = data[a:b].decode()
            for op in ('+=', '-='):
                if op in mid:
                    for new in SWAP[op]:
                        yield n.lineno, '%s -> %s' % (op, new), sub(a, b, mid.replace(op, new))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                yield n.lineno, '%d -> %d' % (n.value, n.value + d), sub(pos(n), pos(n, True), '(%d)' % (n.value + d))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n.lineno, '%r -> %r' % (n.value, not n.value), sub(pos(n), pos(n, True), repr(not n.value))
        if isinstance(n, ast.Constant) and type(n.value) is str and not isinstance(parents.get(n), ast.JoinedStr) and not message(n):
            yield n.lineno, '%r -> other' % n.value[:20], sub(pos(n), pos(n, True), repr('' if n.value else 'XX'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, 'drop not', sub(pos(n), pos(n.operand), '')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for new in ('True', 'False'):
                if isinstance(n, ast.While) and new == 'True':
                    continue
                yield n.lineno, 'condition -> %s' % new, sub(pos(n.test), pos(n.test, True), new)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            yield n.lineno, 'delete %s' % data[pos(n):pos(n, True)].decode().split('\n')[0][:50], sub(pos(n), pos(n, True), 'pass')
        if isinstance(n, ast.Return) and n.value is not None:
            yield n.lineno, 'return None', sub(pos(n.value), pos(n.value, True), 'None')
        if isinstance(n, ast.Continue):
            yield n.lineno, 'continue -> break', sub(pos(n), pos(n, True), 'break')
            yield n.lineno, 'continue -> pass', sub(pos(n), pos(n, True), 'pass')
        if isinstance(n, ast.Break):
            yield n.lineno, 'break -> continue', sub(pos(n), pos(n, True), 'continue')
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for x, y in zip(n.args, n.args[1:]):
                sx, sy = data[pos(x):pos(x, True)].decode(), data[pos(y):pos(y, True)].decode()
                yield n.lineno, 'swap arguments %s and %s' % (sx[:20], sy[:20]), (data[:pos(x)] + sy.encode() + data[pos(x, True):pos(y)] + sx.encode() + data[pos(y, True):]).decode()


def pyx_mutants(text):
    lines = text.split('\n')
    in_doc = False
    for i, line in enumerate(lines):
        code = line.split('#')[0]
        if line.count('"""') == 1:
            in_doc = not in_doc
            continue
        if in_doc or not code.strip() or code.strip().startswith(('def ', 'cdef class', 'cdef void', 'cpdef', 'class', 'from', 'import', '@', 'cimport', '"""')):
            continue

        def out(new):
            return '\n'.join(lines[:i] + [new] + lines[i + 1:])
        for m in re.finditer(r'not in\b|is not\b|<=|>=|==|!=|<<|>>|//|<|>|\bin\b|\bis\b|\band\b|\bor\b|\+=|-=|[-+*&|]', code):
            if m.group(0) == 'in' and re.match(r'\s*for\b', code):
                continue
            for new in SWAP.get(m.group(0), []):
                yield i + 1, '%s -> %s' % (m.group(0), new), out(line[:m.start()] + new + line[m.end():])
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
            for d in (1, -1):
                yield i + 1, '%s %+d' % (m.group(0), d), out(line[:m.start()] + '(%d)' % (int(m.group(0), 0) + d) + line[m.end():])
        for m in re.finditer(r'\bnot (?!in\b)', code):
            yield i + 1, 'drop not', out(line[:m.start()] + line[m.end():])
        m = re.match(r'(\s*)(if|elif|while) (.*):\s*$', code)
        if m:
            for new in ('True', 'False'):
                if m.group(2) != 'while' or new == 'False':
                    yield i + 1, 'condition -> ' + new, out('%s%s %s:' % (m.group(1), m.group(2), new))
        elif re.match(r'\s*(for|else|try|with|cdef)\b', code) or code.rstrip().endswith((',', '(', '\\')) or code.strip().startswith(')'):
            pass
        else:
            ind = re.match(r'\s*', code).group(0)
            if code.count('(') == code.count(')'):
                s = code.strip()
                if s == 'continue':
                    yield i + 1, 'continue -> break', out(ind + 'break')
                    yield i + 1, 'continue -> pass', out(ind + 'pass')
                elif s == 'break':
                    yield i + 1, 'break -> continue', out(ind + 'continue')
                elif s.startswith('return '):
                    yield i + 1, 'return None', out(ind + 'return None')
                elif s != 'return' and s != 'pass':
                    yield i + 1, 'delete ' + s[:50], out(ind + 'pass')
        for m in re.finditer(r'\b(True|False)\b', code):
            yield i + 1, 'flip ' + m.group(0), out(line[:m.start()] + str(m.group(0) == 'False') + line[m.end():])


def mutants(repo):
    for path in sorted((repo / 'sudachipy').rglob('*')):
        rel = str(path.relative_to(repo))
        if path.suffix not in ('.py', '.pyx') or path.name == '__init__.py' or not checks_of(rel):
            continue
        text = path.read_text()
        seen = {text}
        for k, (line, what, new) in enumerate(py_mutants(text) if path.suffix == '.py' else pyx_mutants(text)):
            if new in seen:
                continue
            seen.add(new)
            yield '%s#%d' % (rel, k), rel, line, what, new


def run_tests(w, pyx):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED='0', SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4')

    def go(*cmd, t=100):
        try:
            return subprocess.run(cmd, cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))).returncode
        except subprocess.TimeoutExpired:
            return 99
    if pyx and go(PY, 'setup.py', 'build_ext', '--inplace', t=300):
        return 'build'
    r = 'tests/resources/'
    for f in ('system', 'user', 'large_user'):
        if (w / (r + f + '.dic')).exists():
            (w / (r + f + '.dic')).unlink()
    m = [PY, '-m', 'sudachipy.command_line']
    if go(*m, 'build', '-o', r + 'system.dic', '-d', 'the system dictionary for the unit tests', '-m', r + 'dict/matrix.def', r + 'dict/lex.csv') or \
            go(*m, 'ubuild', '-o', r + 'user.dic', '-s', r + 'system.dic', r + 'dict/user.csv') or \
            go(*m, 'ubuild', '-o', r + 'large_user.dic', '-s', r + 'system.dic', r + 'dict/large_user.csv'):
        return 'dic'
    if go(PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'):
        return 'tests'
    return None


def quick_cases(v, c, scale):
    t = (v / 'checks' / (c.lower() + '.py')).read_text()
    m = re.search(r'^QUICK, THOROUGH = (SWEEP \+ )?(\d+)', t, re.M)
    n = max(8, int(int(m.group(2)) * scale))
    if m.group(1):
        n += eval(re.search(r'^SWEEP = ([^#\n]*)', t, re.M).group(1), {'SMALL_SET': '05一十千万億,.'})     # the whole sweep
    return n


def main():
    if sys.argv[1] == 'list':
        n = {}
        for _, rel, *_ in mutants(Path('/repo')):
            n[rel] = n.get(rel, 0) + 1
        print(json.dumps(n, indent=1), sum(n.values()))
        return
    out, k, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    flt = sys.argv[5] if len(sys.argv) > 5 else ''
    scale = float(os.environ.get('SCALE', '0.3'))
    base = Path('/tmp/mut') / Path(out).stem
    shutil.rmtree(base, ignore_errors=True)
    base.mkdir(parents=True)
    w, v = base / 'repo', base / 'verif'
    subprocess.check_call(['cp', '-a', '/repo', str(w)])
    subprocess.check_call(['cp', '-a', str(V), str(v)])
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    todo = [x for x in mutants(w) if not flt or re.search(flt, x[1])]
    if os.environ.get('ONLY'):
        only = set(open(os.environ['ONLY']).read().split())
        todo = [x for x in todo if x[0] in only]
    random.Random(1).shuffle(todo)      # what is done early is a sample of all
    for j, (mid, rel, line, what, new) in enumerate(todo):
        if j % n != k or mid in done:
            continue
        path = w / rel
        old = path.read_text()
        path.write_text(new)
        t0 = time.time()
        by = run_tests(w, rel.endswith('.pyx'))
        tried = []
        if by is None:
            for c in checks_of(rel):
                try:
                    p = subprocess.run([PY, 'check.py', c, '--cases', str(quick_cases(v, c, scale)), '--jobs', os.environ.get('JOBS', '2')], cwd=v,
                                       env=dict(os.environ, VERIF_REPO=str(w), VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    rc, txt = p.returncode, p.stdout.decode(errors='replace')
                except subprocess.TimeoutExpired:
                    rc, txt = 'timeout', ''
                tried.append([c, rc])
                if rc == 1 and 'VIOLATION' in txt:
                    by = c
                    break
        path.write_text(old)
        with open(out, 'a') as f:
            f.write(json.dumps({'id': mid, 'file': rel, 'line': line, 'what': what, 'src': old.split('\n')[line - 1].strip(), 'by': by, 'tried': tried,
                                's': round(time.time() - t0, 1)}, ensure_ascii=False) + '\n')
        if rel.endswith('.pyx'):
            os.utime(path)
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
