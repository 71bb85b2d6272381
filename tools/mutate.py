"""Mutation campaign (development tool; no check uses it).

usage: mutate.py gen N SEED FILES... > muts.json     sample of mutants
       mutate.py test muts.json survivors.json       the ones the test suite passes
       mutate.py check survivors.json result.json    which checks report them
All of it in copies under /tmp/mut."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = '/tmp/mut'
NW = int(os.environ.get('NW', '8'))
PY = '/opt/venv/bin/python'
L = 'longitudinal_tomography/'
MAP = {
    'cpp_routines/reconstruct.cpp': 'P09 P11 P10 P16 P01 P02 P18',
    'cpp_routines/kick_and_drift.cpp': 'P03 P04 P18 P16 P01 P02',
    'cpp_routines/libtomo.cpp': 'P03 P09 P11 P12 P16 P17 P18 P01 P02',
    'cpp_routines/data_treatment.cpp': 'P12 P01',
    'cpp_routines/tomolib_wrappers.py': 'P03 P09 P12 P17 P18',
    'compat/fortran.py': 'P15 P13 P22', 'compat/tomoscope.py': 'P15 P22 P12',
    'data/data_treatment.py': 'P12 P13 P25 P17 P23', 'data/post_process.py': 'P20',
    'data/pre_process.py': 'P23 P24 P13', 'data/profiles.py': 'P13 P21 P19',
    'tomography/__tomography.py': 'P10 P19 P09 P17', 'tomography/tomography.py': 'P09 P10 P16 P17 P18 P19',
    'tomography/tomography_multibunch.py': 'P11 P16 P17 P19',
    'tracking/__tracking.py': 'P03 P19 P21 P17', 'tracking/machine.py': 'P07 P19 P23', 'tracking/machine_base.py': 'P07 P06 P14 P08 P19',
    'tracking/particles.py': 'P05 P06 P19 P17', 'tracking/phase_space_info.py': 'P06', 'tracking/programs_machine.py': 'P08',
    'tracking/tracking.py': 'P03 P21 P16 P17 P18 P04', 'utils/physics.py': 'P07 P08 P23 P06 P21', 'utils/tomo_config.py': 'P18 P27',
    'utils/tomo_input.py': 'P14 P13 P19 P22', 'utils/tomo_output.py': 'P15 P12 P22', 'utils/tomo_run.py': 'P22',
    'utils/tomographics.py': 'P26', 'shortcuts.py': 'P22 P16', 'assertions.py': 'P19', '__main__.py': 'P22',
    'python_routines/data_treatment.py': 'P12 P27',
}
ALL = [f'P{i:02d}' for i in range(1, 28)]


def py_mutants(f, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno))
    skip = set()
    for n in ast.walk(tree):
        for fld in ('annotation', 'returns'):
            a = getattr(n, fld, None)
            if a is not None:
                skip.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('log.', 'warn', 'logging')):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        u = ast.unparse
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
            o = sw.get(type(n.ops[0]))
            if o:
                add(n, f'({u(n.left)} {o} {u(n.comparators[0])})', 'compare')
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}
            o = sw.get(type(n.op))
            if o and not isinstance(n.left, ast.Constant) or o and not isinstance(n.left.value, str):
                add(n, f'(({u(n.left)}) {o} ({u(n.right)}))', 'binop')
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    add(n, f'({u(n.left)})', 'drop term')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'const+1')
                if n.value > 0:
                    add(n, str(n.value - 1), 'const-1')
            elif isinstance(n.value, float) and n.value:
                add(n, repr(n.value * 1.07), 'const')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(f'({u(v)})' for v in n.values) + ')', 'boolop')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, f'(not ({u(n.test)}))', 'negate')
        elif isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Call) and not u(n.value.func).startswith(('log.', 'warn')):
            add(n, 'pass', 'delete call')
        elif isinstance(n, ast.AugAssign):
            sw = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}
            o = sw.get(type(n.op))
            if o:
                add(n, f'{u(n.target)} {o} {u(n.value)}', 'augassign')
            add(n, 'pass', 'delete augassign')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            add(n, 'pass', 'delete assign')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(n, f'({u(n.operand)})', 'unary')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            nm = n.func.attr
            sw = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'sin': 'cos', 'cos': 'sin', 'amax': 'amin', 'argmax': 'argmin',
                  'copy': None, 'sqrt': None, 'abs': None, 'astype': None, 'round': None, 'clip': None, 'sum': None}
            if nm in sw:
                s, e = span(n.func)
                if sw[nm]:
                    out.append((e - len(nm), e, sw[nm], 'call', n.lineno))
                elif nm in ('copy', 'sqrt', 'abs', 'round', 'clip') and n.args and u(n.func.value) == 'np':
                    add(n, f'({u(n.args[0])})', 'drop ' + nm)
                elif nm in ('copy', 'astype') and not u(n.func.value) == 'np':
                    add(n, f'({u(n.func.value)})', 'drop ' + nm)
    res = []
    for s, e, new, what, line in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        if m != src:
            res.append(dict(file=f, start=s, end=e, new=new, old=b[s:e].decode(), what=what, line=line))
    return res


def cpp_mutants(f, src):
    res = []
    code = re.sub(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"|#include[^\n]*', lambda m: ' ' * len(m.group(0)), src, flags=re.S)
    ops = [(r'(?<![<>=!+\-*/])<(?![<=])(?=\s)', ['<=']), (r'(?<=\s)>(?!=)(?=\s)', ['>=']), (r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']),
           (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=[\w\])\s])\*(?=\s?[\w(])', ['/']),
           (r'(?<=\s)/(?=\s)', ['*']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![\w.])(\d+)(?![\w.])', ['+1']), (r'\bstd::max\b', ['std::min']), (r'\bstd::min\b', ['std::max']),
           (r'#pragma omp[^\n]*', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?m)^\s+[a-z_:]+\([^;{}]*\);', [';'])]
    b = src
    for rx, news in ops:
        for m in re.finditer(rx, code):
            for new in news:
                v = str(int(m.group(0)) + 1) if new == '+1' else new
                line = src.count('\n', 0, m.start()) + 1
                res.append(dict(file=f, start=m.start(), end=m.end(), new=v, old=b[m.start():m.end()], what='cpp ' + rx[:12], line=line, cpp=True))
    # pragmas added: loops without one get one
    for m in re.finditer(r'(?m)^([ \t]+)for \(', code):
        prev = src[:m.start()].rstrip().splitlines()[-1]
        if 'omp' not in prev:
            res.append(dict(file=f, start=m.start(), end=m.start(), new='#pragma omp parallel for\n', old='', what='cpp add pragma', line=src.count('\n', 0, m.start()) + 1, cpp=True))
    return res


def sh(cmd, timeout=900, **k):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def apply(w, m):
    p = f'{w}/{m["file"]}'
    s = open('/tmp/mut/base/' + m['file'], 'rb').read()
    if m.get('cpp'):
        t = s.decode()
        t = t[:m['start']] + m['new'] + t[m['end']:]
        t = t.encode()
    else:
        t = s[:m['start']] + m['new'].encode() + s[m['end']:]
    open(p, 'wb').write(t)


def restore(w, m):
    shutil.copy2('/tmp/mut/base/' + m['file'], f'{w}/{m["file"]}')


def env(w):
    e = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
             MPLCONFIGDIR='/tmp/mut/mpl', SETUPTOOLS_SCM_PRETEND_VERSION='3.4.1', CCACHE_DIR='/tmp/mut/ccache', PYTHONNOUSERSITE='1')
    return e


def setup(verif=False):
    os.makedirs(ROOT, exist_ok=True)
    sh(f'rm -rf {ROOT}/base; cp -a /repo {ROOT}/base; cp /verif/tools/vtmut.py {ROOT}/base/{L}_vtmut.py')
    for i in range(NW):
        sh(f'rm -rf {ROOT}/w{i}; cp -a {ROOT}/base {ROOT}/w{i}')
        if verif:
            sh(f'rm -rf {ROOT}/v{i}; mkdir -p {ROOT}/v{i}; cd /verif && cp -a bin vt known-findings.txt {ROOT}/v{i}/; [ -d .build ] && cp -a .build {ROOT}/v{i}/')


def pool(items, fn, out):
    q = Queue()
    for i in range(NW):
        q.put(i)
    done = []

    def one(m):
        i = q.get()
        try:
            r = fn(i, m)
        except Exception as e:
            r = dict(m, error=repr(e))
        finally:
            q.put(i)
        done.append(r)
        if len(done) % 10 == 0:
            json.dump(done, open(out, 'w'), indent=1)
            print(len(done), '/', len(items), flush=True)
        return r
    with ThreadPoolExecutor(NW) as ex:
        list(ex.map(one, items))
    json.dump(done, open(out, 'w'), indent=1)
    return done


def test(i, m):
    w = f'{ROOT}/w{i}'
    apply(w, m)
    try:
        if m.get('cpp'):
            r = sh(f'cd {w} && taskset -c {i} {PY} setup.py build_ext --inplace --force', env=env(w), timeout=300)
            if r.returncode:
                return dict(m, tests='nobuild')
        r = sh(f'cd {w} && taskset -c {i} {PY} -m pytest -p no:cacheprovider -q -x --timeout=60 unit_tests', env=env(w), timeout=300)
        return dict(m, tests='pass' if r.returncode == 0 else 'fail')
    finally:
        restore(w, m)


def check(i, m):
    w, v = f'{ROOT}/w{i}', f'{ROOT}/v{i}'
    apply(w, m)
    res = {}
    try:
        key = m['file'][len(L):]
        props = MAP.get(key, '').split()
        if os.environ.get('FULL'):
            props = props + [p for p in ALL if p not in props]
        for p in props:
            r = sh(f'cd {v} && taskset -c {i} bin/check {p}', env=dict({k: x for k, x in os.environ.items() if k in ('PATH', 'HOME', 'LANG')}, VT_REPO=w, VT_PROCS='1'), timeout=1500)
            res[p] = r.returncode
            if r.returncode == 1:
                m = dict(m, by=p, msg=[x for x in r.stdout.splitlines() if x.startswith('  ')][:1])
                break
            if r.returncode not in (0, 1):
                m = dict(m, odd=(r.stdout + r.stderr)[-500:])
        return dict(m, checks=res)
    finally:
        restore(w, m)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'gen':
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        rnd = random.Random(seed)
        allm = []
        for f in sys.argv[4:]:
            src = open('/repo/' + f).read()
            ms = (cpp_mutants if f.endswith('.cpp') else py_mutants)(f, src)
            allm += ms
        print(len(allm), 'possible', file=sys.stderr)
        rnd.shuffle(allm)
        json.dump(allm[:n], sys.stdout, indent=1)
    elif cmd == 'test':
        setup()
        ms = json.load(open(sys.argv[2]))
        d = pool(ms, test, sys.argv[3] + '.all')
        s = [m for m in d if m.get('tests') == 'pass']
        json.dump(s, open(sys.argv[3], 'w'), indent=1)
        print('survive the tests:', len(s), 'of', len(d))
    elif cmd == 'check':
        setup(True)
        d = pool(json.load(open(sys.argv[2])), check, sys.argv[3])
        print('caught', sum('by' in m for m in d), 'of', len(d))
        for m in d:
            if 'by' not in m:
                print(m['file'], m['line'], m['what'], repr(m['old'][:70]), '->', repr(m['new'][:70]), m.get('checks'), m.get('odd', '')[-200:], m.get('error', ''))
