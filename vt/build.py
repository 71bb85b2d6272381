"""Out-of-tree builds of the native library from /repo's *current* working tree.

Nothing is written to /repo or /opt/vp.  Each variant is keyed on the content
of every C++ file and header plus the flags, so a changed tree is always
rebuilt and an unchanged one is reused inside the same sandbox copy.
"""
import fcntl
import hashlib
import os
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VT_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, '.build')
SRC = os.path.join(REPO, 'longitudinal_tomography', 'cpp_routines')

# the flags of /repo/setup.py
COMMON = ['-std=c++17', '-fPIC', '-fvisibility=hidden', '-fopenmp',
          '-ffast-math', '-g1']
VARIANTS = {
    # what users run
    'plain': (['-O2'], []),
    # memory errors and undefined behaviour
    'asan': (['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
              '-fno-sanitize=vptr', '-fsanitize-recover=undefined',
              '-D_GLIBCXX_ASSERTIONS'],
             ['-fsanitize=address,undefined']),
    # data races
    'tsan': (['-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
             ['-fsanitize=thread']),
}
# the library as users run it, and the kernels for the emulated device
GPU = {
    'gpu': '-fsanitize=address,undefined -fno-sanitize=vptr -fsanitize-recover=undefined -D_GLIBCXX_ASSERTIONS',
    'gpurace': '-fsanitize=thread',
}


class BuildError(Exception):
    pass


def _sources():
    cpp, hdr = [], []
    for base, _, files in os.walk(SRC):
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith(('.cpp', '.cc', '.cxx')):
                cpp.append(p)
            elif f.endswith(('.h', '.hpp', '.inc', '.ipp', '.tpp')):
                hdr.append(p)
    return sorted(cpp), sorted(hdr)


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace')
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def _env_clean():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CCACHE') or k in ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS',
                                           'LD_PRELOAD'):
            del e[k]
    return e


def build_gpu(variant):
    """A copy of the packages with the kernels compiled by the repository's own
    routine (with a stand-in for nvcc); returns the extension module in it."""
    import shutil
    plain = build('plain')
    h = hashlib.sha256(repr((variant, GPU[variant], plain)).encode())
    files = []
    for root in (os.path.join(REPO, 'longitudinal_tomography'), os.path.join(REPO, 'tomo'), os.path.join(HERE, 'gpu')):
        for base, dirs, names in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            files += [os.path.join(base, f) for f in sorted(names) if f.endswith(('.py', '.cu', '.cuh', '.h')) or f == 'nvcc']
    for p in files:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    out = os.path.join(BUILD, f'{variant}-{h.hexdigest()[:16]}')
    so = os.path.join(out, os.path.basename(plain))
    with open(os.path.join(BUILD, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        for d in os.listdir(BUILD):
            if d.startswith(variant + '-'):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tree = os.path.join(out, 'tree')
        for p in ('longitudinal_tomography', 'tomo'):
            shutil.copytree(os.path.join(REPO, p), os.path.join(tree, p),
                            ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.cubin', '*.o'))
        e = _env_clean()
        e.update(VT_REPO=tree, PYTHONPATH=VERIF + ':' + os.path.join(HERE, 'gpu'), CUDA_PATH=os.path.join(HERE, 'gpu', 'cuda'),
                 VT_NVCC_FLAGS=GPU[variant], PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(BUILD, 'mpl'))
        p = subprocess.run([sys.executable, '-m', 'vt.gpu.prepare', plain], env=e, cwd=out, text=True, errors='replace',
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError('kernels for the emulated device\n' + p.stdout[-4000:])
        shutil.copy2(plain, so + '.tmp')
        os.rename(so + '.tmp', so)
    return so


def build(variant):
    """Returns the path of the built extension module."""
    if variant in GPU:
        return build_gpu(variant)
    cpp, hdr = _sources()
    cflags, lflags = VARIANTS[variant]
    cflags = COMMON + cflags
    h = hashlib.sha256()
    h.update(repr((variant, cflags, lflags, sys.version)).encode())
    for p in cpp + hdr:
        h.update(os.path.relpath(p, SRC).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    if variant == 'tsan':
        with open(os.path.join(HERE, 'native', 'gomp_hb.c'), 'rb') as f:
            h.update(f.read())
    key = h.hexdigest()[:16]
    out = os.path.join(BUILD, f'{variant}-{key}')
    so = os.path.join(out, 'libtomo' + sysconfig.get_config_var('EXT_SUFFIX'))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        # drop stale builds of this variant: disk space is limited
        import shutil
        for d in os.listdir(BUILD):
            if d.startswith(variant + '-'):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        import pybind11
        inc = ['-I' + pybind11.get_include(),
               '-I' + sysconfig.get_paths()['include'], '-I' + SRC]
        objs, jobs = [], []
        for p in cpp:
            o = os.path.join(tmp, os.path.relpath(p, SRC).replace('/', '_') + '.o')
            objs.append(o)
            jobs.append(['g++', *cflags, *inc, '-c', p, '-o', o])
        if variant == 'tsan':
            o = os.path.join(tmp, 'gomp_hb.so')
            jobs.append(['gcc', '-O1', '-g', '-fPIC', '-shared', '-o', o,
                         os.path.join(HERE, 'native', 'gomp_hb.c'),
                         '-ldl'])
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(_run, jobs))
        _run(['g++', '-shared', '-fopenmp', *objs, *lflags, '-o',
              os.path.join(tmp, os.path.basename(so)), '-lgomp'])
        for o in objs:
            os.unlink(o)
        os.rename(tmp, out)
    return so


def runtime_lib(name):
    p = subprocess.run(['g++', f'-print-file-name={name}'], text=True,
                       stdout=subprocess.PIPE).stdout.strip()
    return os.path.realpath(p)


if __name__ == '__main__':
    for v in sys.argv[1:] or list(VARIANTS):
        print(v, build(v))
