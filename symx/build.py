"""Builds the tree under test into a scratch package directory (never inside the repository)."""
import glob, hashlib, os, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
F2PY = '/opt/venv/bin/f2py'
SRC = ('*.f', '*.pyx', '*.pxd', '*.c', '*.h', 'Makefile', 'setup.py')
GENERATED_C = ('boris_cython.c', 'geom_impact_poly_cython.c')


def env():
    e = dict(os.environ, PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PIP_NO_INDEX='1')
    e.pop('PYTHONPATH', None)
    return e


def native_sources():
    fs = []
    for p in SRC:
        fs += [f for f in glob.glob(os.path.join(REPO, p)) if os.path.basename(f) not in GENERATED_C]
    return sorted(fs)


def native_hash():
    h = hashlib.sha256(sys.version.encode())
    for f in native_sources():
        h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def _run(cmd, cwd, extra={}):
    p = subprocess.run(cmd, cwd=cwd, env=dict(env(), **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout


def build_native(checked=False):
    """-> directory holding the .so files of the current native sources (checked: array bounds verified at run time)"""
    cache = os.path.join(tempfile.gettempdir(), 'symx-native-%d' % os.getuid())
    out = os.path.join(cache, native_hash() + ('-checked' if checked else ''))
    if os.path.isdir(out):
        return out
    os.makedirs(cache, exist_ok=True)
    work = tempfile.mkdtemp(prefix='work-', dir=cache)
    try:
        for f in native_sources():
            shutil.copy(f, work)
        rc, txt = _run(['make', '-n', 'all', 'F2PY=' + F2PY], work)
        jobs = []
        for line in txt.splitlines():
            c = shlex.split(line)
            if c and os.path.basename(c[0]) == 'f2py':
                jobs.append(c)
        jobs.append([PY, 'setup.py', 'build_ext', '-i', '-f'])
        def one(i_c):
            i, c = i_c
            d = os.path.join(work, 'j%d' % i)
            os.makedirs(d)
            for f in native_sources():
                shutil.copy(f, d)
                if checked and f.endswith('.pyx'):
                    p = os.path.join(d, os.path.basename(f))
                    t = re.sub(r'(boundscheck\s*[(=]\s*)False', r'\1True', open(p).read())
                    open(p, 'w').write('# cython: boundscheck=True, wraparound=False\n' + t)
            return c, d, _run(c, d, dict(FFLAGS='-fcheck=bounds -fPIC', FOPT='-O0') if checked else {})
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(jobs)))
        dst = os.path.join(work, 'out')
        os.makedirs(dst)
        for c, d, (rc, txt) in res:
            if rc != 0:
                raise RuntimeError('native build failed: %s\n%s' % (' '.join(c), txt[-3000:]))
            for so in glob.glob(os.path.join(d, '*.so')):
                shutil.copy(so, dst)
        try:
            os.rename(dst, out)
        except OSError:
            if not os.path.isdir(out):
                raise
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def make_tree(checked=False):
    """scratch root with a PyECLOUD package of the current tree; caller removes it"""
    so = build_native(checked)
    root = tempfile.mkdtemp(prefix='symx-tree-')
    pk = os.path.join(root, 'PyECLOUD')
    os.makedirs(pk)
    for f in glob.glob(os.path.join(REPO, '*.py')):
        shutil.copy(f, pk)
    for f in glob.glob(os.path.join(so, '*.so')):
        shutil.copy(f, pk)
    if not os.path.exists(os.path.join(pk, '__init__.py')):
        open(os.path.join(pk, '__init__.py'), 'w').close()
    return root


if __name__ == '__main__':
    print(make_tree())
