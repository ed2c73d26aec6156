"""Build /repo's extensions, from its current working tree, against the deterministic runtime.

Output goes to a content-addressed scratch directory outside /repo and /verif (ACVSIM_BUILD, or
/tmp/acvsim-build); nothing is assumed to be there beforehand.  Cython 0.29.37 from the PyPy
environment is run under CPython (the generated C++ is the same, four times faster)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ACVSIM_REPO', '/repo')
PYPY = '/opt/pypyvenv/bin/python'
SP = '/opt/pypyvenv/lib/pypy3.9/site-packages'
INC = ['-I/usr/include/pypy3.9', '-I' + SP + '/numpy/core/include']
SUF = '.pypy39-pp73-x86_64-linux-gnu.so'
ROOT = os.environ.get('ACVSIM_BUILD', '/tmp/acvsim-build')
CY = 'acv_explainers/cyext_acv/'
MODS = {'cyext_acv': CY + 'cyext_acv.pyx', 'cyext_acv_nopa': CY + 'cyext_acv_nopa.pyx',
        'cyext_acv_cache': CY + 'cyext_acv_cache.pyx', 'cext_acv': 'acv_explainers/cext_acv/_cext.cc'}
OPT = os.environ.get('ACVSIM_OPT', '-O1')
WRAP = ['memcpy', 'memmove', 'memset', '_Znwm', '_ZdlPv', '_ZdlPvm', '_Znam', '_ZdaPv', '_ZdaPvm',
        'PyPyEval_SaveThread', 'PyPyEval_RestoreThread', 'PyPyGILState_Ensure', 'PyPyGILState_Release']


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in ('acv_explainers/cyext_acv', 'acv_explainers/cext_acv'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(('.pyx', '.pxd', '.pxi', '.cc', '.h', '.hpp')):
                out.append(os.path.join(d, f))
    return out


def digest():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode()); h.update(open(os.path.join(REPO, f), 'rb').read())
    for f in ('build.py', 'detomp/detomp.c'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    h.update(OPT.encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])


def build(mods=None, log=lambda *a: None):
    """returns the directory to put on PYTHONPATH"""
    mods = list(mods or MODS)
    key = digest()
    d = os.path.join(ROOT, key)
    os.makedirs(d, exist_ok=True)
    lk = open(os.path.join(ROOT, 'lock.' + key), 'w')
    fcntl.flock(lk, fcntl.LOCK_EX)
    t0 = time.time()
    so = os.path.join(d, 'libdetomp.so')
    if not os.path.exists(so):
        run(['gcc', '-O2', '-fPIC', '-shared', '-w', '-o', so + '.t', os.path.join(HERE, 'detomp/detomp.c'), '-lpthread'])
        os.rename(so + '.t', so)
    todo = [m for m in mods if not os.path.exists(os.path.join(d, m + SUF))]
    w = os.path.join(d, 'work')
    if todo:
        os.makedirs(os.path.join(w, 'cy'), exist_ok=True)
        for n in ('Cython', 'cython.py', 'pyximport'):
            l = os.path.join(w, 'cy', n)
            if not os.path.lexists(l):
                os.symlink(os.path.join(SP, n), l)

        def one(m):
            src = os.path.join(REPO, MODS[m])
            if src.endswith('.pyx'):
                # a copy outside the package: module name as in setup.py
                c = os.path.join(w, m + '.pyx'); shutil.copyfile(src, c)
                cpp = os.path.join(w, m + '.cpp')
                env = dict(os.environ, PYTHONPATH=os.path.join(w, 'cy'), PYTHONDONTWRITEBYTECODE='1')
                run([sys.executable, '-m', 'cython', '--cplus', c, '-I', SP, '-I', os.path.dirname(src), '-o', cpp], env=env, cwd=w)
                src = cpp
                inc = []
            else:
                inc = ['-I' + os.path.dirname(src)]
            o = os.path.join(w, m + '.o')
            run(['g++', '-pthread', '-DNDEBUG', OPT, '-w', '-fPIC', '-fopenmp', '-fsanitize=thread', '-fno-builtin-memset'] + INC + inc + ['-c', src, '-o', o])
            t = os.path.join(d, m + SUF)
            run(['g++', '-shared', '-o', t + '.t', o] + ['-Wl,--wrap=' + x for x in WRAP] +
                ['-L' + d, '-Wl,--no-as-needed', '-ldetomp', '-Wl,-rpath,$ORIGIN'])
            os.rename(t + '.t', t)
            log('built %s at %.1fs' % (m, time.time() - t0))
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(one, m) for m in todo]:
                f.result()
        shutil.rmtree(w, ignore_errors=True)
    os.utime(d)
    fcntl.flock(lk, fcntl.LOCK_UN)
    # keep the few most recent builds only
    ds = sorted((os.path.join(ROOT, x) for x in os.listdir(ROOT) if os.path.isdir(os.path.join(ROOT, x))), key=os.path.getmtime)
    for x in ds[:-4]:
        if time.time() - os.path.getmtime(x) > 3600:
            shutil.rmtree(x, ignore_errors=True)
    return d


if __name__ == '__main__':
    t = time.time()
    print(build(sys.argv[1:] or None, print), '%.1fs' % (time.time() - t))
