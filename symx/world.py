"""Loads modules of /repo from their current source into a symbolic world.

Every module is parsed, lightly rewritten (float literals become exact rationals,
'/' and '%' go through helpers) and executed with numpy, scipy and the compiled
kernels replaced by their symbolic counterparts.
"""
import ast, os, sys, types, builtins, math
from fractions import Fraction
import numpy as np
from .core import (z3, R, I, B, E, Engine, ite, EngineError, frac, smax, smin, is_special, mkB)
from . import core, symnp, funcs, native
from .symnp import SymArray, asym, sym_float, sym_int, sym_bool

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'PyECLOUD'


class Rewrite(ast.NodeTransformer):
    def __init__(self, cython=False):
        self.cython = cython

    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name('__flt__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        if type(n.value) is complex:
            return n
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__cdiv__' if self.cython else '__div__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__mod__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('__pow__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name('__idiv__', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit_values(n)
        return n

    def generic_visit_values(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                # format specs contain only strings

    def visit_MatchValue(self, n):
        return n


_FLT = {}
def flt(s):
    v = _FLT.get(s)
    if v is None:
        f = float(s)
        v = _FLT[s] = R(Fraction(s)) if f == f and abs(f) != float('inf') else R(f)
    return v


def sdiv(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return R.of(a) / R.of(b)
    return a / b


def cdiv(a, b):
    """Cython float division: raises on zero"""
    if isinstance(a, (R, I, int, float)) and isinstance(b, (R, I, int, float)):
        if bool(b == 0):
            raise ZeroDivisionError("float division")
        return R.of(a) / R.of(b)
    return a / b


def idiv(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return sdiv(a, b)
    a /= b
    return a


def spow(a, b):
    if isinstance(a, (int, I)) and isinstance(b, int) and b < 0:
        return R.of(a) ** b
    if isinstance(a, float):
        a = R.of(a)
    return a ** b


def _fmtval(v):
    if isinstance(v, R):
        return float(v) if (v.concrete or is_special(v.p)) else 0.0
    if isinstance(v, I):
        return 0
    if isinstance(v, B):
        return 0
    if isinstance(v, SymArray):
        return repr(v)
    return v


def smod(a, b):
    if isinstance(a, str):
        try:
            if isinstance(b, tuple):
                return a % tuple(_fmtval(v) for v in b)
            if isinstance(b, dict):
                return a % {k: _fmtval(v) for k, v in b.items()}
            return a % (_fmtval(b),)
        except TypeError:
            raise
    if isinstance(a, bytes):
        return a % b
    if isinstance(a, float): a = R.of(a)
    return a % b


def _numeric(x):
    return isinstance(x, (R, I, int, float, np.number, B))


def sym_max(*args, **kw):
    if kw.get('key') is not None:
        return builtins.max(*args, **kw)
    xs = list(args[0]) if len(args) == 1 else list(args)
    if not xs:
        if 'default' in kw: return kw['default']
        raise ValueError("max() arg is an empty sequence")
    if not all(_numeric(x) for x in xs):
        return builtins.max(xs)
    acc = xs[0]
    for x in xs[1:]:
        acc = smax(acc, x) if isinstance(acc, (R, I)) or isinstance(x, (R, I)) else builtins.max(acc, x)
    return acc


def sym_min(*args, **kw):
    if kw.get('key') is not None:
        return builtins.min(*args, **kw)
    xs = list(args[0]) if len(args) == 1 else list(args)
    if not xs:
        if 'default' in kw: return kw['default']
        raise ValueError("min() arg is an empty sequence")
    if not all(_numeric(x) for x in xs):
        return builtins.min(xs)
    acc = xs[0]
    for x in xs[1:]:
        acc = smin(acc, x) if isinstance(acc, (R, I)) or isinstance(x, (R, I)) else builtins.min(acc, x)
    return acc


def sym_round(x, nd=None):
    if isinstance(x, float): x = R.of(x)
    if isinstance(x, R): return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def sym_sum(xs, start=0):
    acc = start
    for x in xs:
        acc = acc + x
    return acc


def sym_isinstance(x, t):
    return builtins.isinstance(x, t)


def sym_range(*a):
    return builtins.range(*[int(v) if isinstance(v, (I, np.ndarray)) else v for v in a])


def sym_len(x):
    return builtins.len(x)


def sym_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, R): return sym_float
        if isinstance(x, I): return sym_int
        if isinstance(x, B): return sym_bool
        if type(x) is int: return sym_int
        if type(x) is float: return sym_float
        if type(x) is bool: return sym_bool
        if isinstance(x, SymArray): return np.ndarray
        return type(x)
    return type(*a)


# ---------------------------------------------------------------- random ----
class Rand:
    """stand-in for numpy.random; every draw is a fresh symbol, recorded in order"""
    def __init__(self, env):
        self.env = env

    def draw(self, kind, constrain):
        e = E()
        if len(e.rands) >= self.env.draw_limit:
            self.env.too_many_draws()
        v = z3.Real(e.fresh_name('rnd_' + kind))
        for c in constrain(v):
            e.axiom(c)
        e.rands.append((kind, v))
        return R(v)

    def _many(self, kind, constrain, size, pars=()):
        if size is None or size == ():
            if pars: self.env.draw_params[len(E().rands)] = pars
            return self.draw(kind, constrain)
        if isinstance(size, (tuple, list)):
            shape = tuple(int(s) for s in size)
        elif isinstance(size, R):
            raise TypeError("'float' object cannot be interpreted as an integer")
        else:
            shape = (int(size),)
            if shape[0] < 0:
                raise ValueError("negative dimensions are not allowed")
        out = np.empty(shape, dtype=object)
        if pars: pars = [np.broadcast_to(np.asarray(asym(p).view(np.ndarray), dtype=object), shape) if hasattr(p, '__len__') else p for p in pars]
        for ix in np.ndindex(shape):
            if pars: self.env.draw_params[len(E().rands)] = tuple(p[ix] if isinstance(p, np.ndarray) else p for p in pars)
            out[ix] = self.draw(kind, constrain)
        return symnp.mk(out, 'f')

    def rand(self, *shape):
        return self._many('rand', lambda v: [v >= 0, v < 1], shape if shape else None)
    def random(self, size=None):
        return self._many('rand', lambda v: [v >= 0, v < 1], size)
    random_sample = random
    sample = random
    ranf = random
    def randn(self, *shape):
        return self._many('randn', lambda v: [], shape if shape else None)
    standard_normal = lambda self, size=None: self._many('randn', lambda v: [], size)
    def uniform(self, low=0, high=1, size=None):
        u = self._many('rand', lambda v: [v >= 0, v < 1], size)
        return low + u * (high - low)
    def normal(self, loc=0, scale=1, size=None):
        u = self._many('randn', lambda v: [], size)
        return loc + u * scale
    def lognormal(self, mean=0, sigma=1, size=None):
        return self._many('lognormal', lambda v: [v > 0], size, (mean, sigma))
    def exponential(self, scale=1, size=None):
        return self._many('exponential', lambda v: [v >= 0], size) * scale
    def randint(self, low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        e = E()
        def one():
            v = z3.Int(e.fresh_name('rnd_int'))
            e.axiom(v >= core.zint(low)); e.axiom(v < core.zint(high))
            e.rands.append(('randint', v))
            return I(v)
        if size is None: return one()
        return asym([one() for _ in range(int(size))], 'i')
    def poisson(self, lam=1., size=None):
        e = E()
        def one(l):
            if len(e.rands) >= self.env.draw_limit:
                self.env.too_many_draws()
            v = z3.Int(e.fresh_name('rnd_poisson'))
            e.axiom(v >= 0); e.axiom(v <= self.env.poisson_max)
            l = R.of(l)
            if bool(l < 0):
                raise ValueError('lam < 0 or lam is NaN')
            if bool(l == 0):
                e.axiom(v == 0)
            self.env.draw_params[len(e.rands)] = (l,)
            e.rands.append(('poisson', v))
            return I(v)
        if size is not None:
            lam = np.broadcast_to(np.asarray(asym(lam).view(np.ndarray), dtype=object), size if isinstance(size, tuple) else (int(size),))
        elif isinstance(lam, (R, int, float)):
            return one(lam)
        a = np.asarray(asym(lam).view(np.ndarray), dtype=object)
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape): out[ix] = one(a[ix])
        return symnp.mk(out, 'i')
    def permutation(self, x):
        raise EngineError('random.permutation')
    shuffle = permutation
    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, I)) else len(a)
        ix = self.randint(0, n, size)
        return ix if isinstance(a, (int, I)) else asym(a)[ix]
    def seed(self, *a): pass


def random_module(env):
    m = types.ModuleType('numpy.random')
    r = Rand(env)
    for n in ('rand', 'random', 'random_sample', 'sample', 'ranf', 'randn', 'standard_normal', 'uniform', 'normal', 'lognormal',
              'exponential', 'poisson', 'randint', 'permutation', 'shuffle', 'choice', 'seed'):
        setattr(m, n, getattr(r, n))
    m._draw = r
    return m


def constants_module():
    import scipy.constants as sc
    m = types.ModuleType('scipy.constants')
    for n in dir(sc):
        v = getattr(sc, n)
        if isinstance(v, float):
            setattr(m, n, R(frac(v)))
        elif isinstance(v, int):
            setattr(m, n, R.of(v))
    return m


def special_module(env, rnd):
    m = types.ModuleType('scipy.special')
    def ufn(name, cf, ax):
        def f(*args):
            return symnp.ew(lambda *a: funcs.app(name, [R.of(x) for x in a], ax, cf), *args)
        return f
    import scipy.special as sp
    m.erf = lambda x: symnp.ew(funcs.erf, x)
    m.erfinv = lambda x: symnp.ew(funcs.erfinv, x)
    m.gamma = ufn('gamma', lambda x: float(sp.gamma(x)), lambda r, a: [z3.Implies(a > 0, r > 0)])
    m.gammainc = lambda a, x: symnp.ew(funcs.gammainc, a, x)
    m.gammaincinv = lambda a, y: symnp.ew(funcs.gammaincinv, a, y)
    def binom(n, k):
        def one(a, b):
            a, b = R.of(a), R.of(b)
            if a.concrete and b.concrete and a.p.denominator == 1 and b.p.denominator == 1:
                return R.of(math.comb(int(a.p), int(b.p)))
            return funcs.app('binom', [a, b], lambda r, x, y: [r >= 0])
        return symnp.ew(one, n, k)
    m.binom = binom
    return m


def os_module(env):
    """file system of the executed code: the in-memory files of the harness (the package's own tree is readable)"""
    m = types.ModuleType('os')
    pm = types.ModuleType('os.path')
    for n in ('join', 'dirname', 'basename', 'splitext', 'split', 'expanduser', 'normpath', 'isabs'):
        setattr(pm, n, getattr(os.path, n))
    def key(p):
        return env.fskey(str(p))
    pm.abspath = lambda p: p
    pm.realpath = pm.abspath
    def real(p): return str(p).startswith(REPO)
    def isfile(p): return key(p) in env.fs.files or (real(p) and os.path.isfile(p))
    def isdir(p):
        k = key(p).rstrip('/')
        return k in env.fs.dirs or any(f.startswith(k + '/') for f in env.fs.files) or (real(p) and os.path.isdir(p))
    pm.isfile, pm.isdir = isfile, isdir
    pm.exists = lambda p: isfile(p) or isdir(p)
    m.path = pm
    m.sep, m.curdir, m.pardir = '/', '.', '..'
    m.environ = {}
    m.getpid = lambda: 1
    m.getcwd = lambda: '.'
    def listdir(p='.'):
        k = key(p).rstrip('/')
        if not isdir(p): raise FileNotFoundError(2, 'No such file or directory', str(p))
        out = {f[len(k) + 1:].split('/')[0] for f in list(env.fs.files) + list(env.fs.dirs) if f.startswith(k + '/')}
        return sorted(out)
    m.listdir = listdir
    def mkdir(p, *a, **k):
        if pm.exists(p): raise FileExistsError(17, 'File exists', str(p))
        env.fs.op('mkdir', key(p)); env.fs.dirs.add(key(p).rstrip('/'))
    def makedirs(p, mode=0o777, exist_ok=False):
        if pm.exists(p):
            if exist_ok and isdir(p): return
            raise FileExistsError(17, 'File exists', str(p))
        env.fs.op('mkdir', key(p)); env.fs.dirs.add(key(p).rstrip('/'))
    m.mkdir, m.makedirs = mkdir, makedirs
    def remove(p):
        if key(p) not in env.fs.files: raise FileNotFoundError(2, 'No such file or directory', str(p))
        env.fs.op('remove', key(p)); del env.fs.files[key(p)]
    m.remove = m.unlink = remove
    def rename(a, b):
        if key(a) not in env.fs.files: raise FileNotFoundError(2, 'No such file or directory', str(a))
        env.fs.op('rename', key(b))
        env.fs.files[key(b)] = env.fs.files.pop(key(a))
    m.rename = m.replace = rename
    m.fsync = lambda *a: None
    return m


def shutil_module(env, osm):
    m = types.ModuleType('shutil')
    def copy(a, b, *x, **k):
        ka, kb = env.fskey(str(a)), env.fskey(str(b))
        if ka not in env.fs.files: raise FileNotFoundError(2, 'No such file or directory', str(a))
        if osm.path.isdir(b): kb = kb.rstrip('/') + '/' + os.path.basename(ka)
        v = env.fs.files[ka]
        env.fs.op('open', kb)
        env.fs.files[kb] = None
        env.fs.op('copy', kb)
        env.fs.files[kb] = {n: symnp.matcopy(x) for n, x in v.items()} if isinstance(v, dict) else v
        return b
    m.copy = m.copyfile = m.copy2 = copy
    m.move = osm.rename
    def rmtree(p, *a, **k):
        kp = env.fskey(str(p)).rstrip('/')
        for f in [f for f in env.fs.files if f.startswith(kp + '/')]: del env.fs.files[f]
        for d in [d for d in env.fs.dirs if d == kp or d.startswith(kp + '/')]: env.fs.dirs.discard(d)
    m.rmtree = rmtree
    return m


def pickle_module(env):
    """pickles as deep copies; a dump that is interrupted leaves a file that cannot be loaded"""
    import copy
    m = types.ModuleType('pickle')
    class UnpicklingError(Exception): pass
    class PicklingError(Exception): pass
    m.UnpicklingError, m.PicklingError = UnpicklingError, PicklingError
    m.HIGHEST_PROTOCOL = 4
    def dump(obj, fid, protocol=None):
        fid.pickled = copy.deepcopy(obj)
    def load(fid):
        v = getattr(fid, 'pickled', None)
        if v is None: raise EOFError('Ran out of input')
        return copy.deepcopy(v[0])
    m.dump, m.load = dump, load
    return m


class MathProxy(types.ModuleType):
    pass


def math_module():
    m = types.ModuleType('math')
    for n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'expm1', 'log1p'):
        setattr(m, n, getattr(funcs, n))
    m.acos, m.asin, m.atan, m.atan2 = funcs.arccos, funcs.arcsin, funcs.arctan, funcs.arctan2
    m.sqrt = core.sqrt
    m.pi = funcs.PI
    m.fabs = lambda x: abs(R.of(x))
    m.floor = lambda x: R.of(x).floor()
    m.ceil = lambda x: R.of(x).ceil()
    m.trunc = lambda x: R.of(x).trunc()
    m.hypot = lambda a, b: core.sqrt(R.of(a) * R.of(a) + R.of(b) * R.of(b))
    m.pow = lambda a, b: R.of(a) ** b
    m.isnan = lambda x: isinstance(x, R) and is_special(x.p) and x.p != x.p
    m.isinf = lambda x: isinstance(x, R) and is_special(x.p) and x.p == x.p
    m.isfinite = lambda x: not (isinstance(x, R) and is_special(x.p))
    m.inf = R(float('inf')); m.nan = R(float('nan'))
    m.factorial = lambda n: math.factorial(int(n))
    m.comb = math.comb
    m.copysign = lambda a, b: ite(R.of(b) >= 0, abs(R.of(a)), -abs(R.of(a)))
    m.fmod = symnp._fmod
    return m


_CODE = {}

NATIVE_F = {'hist_for': 'compute_hist.f', 'seg_impact': 'update_seg_impact.f', 'int_field_for': 'interp_field_for.f',
            'rhocompute': 'compute_rho.f', 'vectsum': 'vectsum.f', 'errffor': 'errfff.f', 'boris_step': 'boris_step.f'}


def makefile_map():
    """module name -> fortran file, from the Makefile of the tree under test"""
    mp = dict(NATIVE_F)
    try:
        import re
        for l in open(os.path.join(REPO, 'Makefile')):
            m = re.search(r'\$\(F2PY\)\s+-m\s+(\w+)\s+-c\s+(\S+)', l)
            if m:
                mp[m.group(1)] = m.group(2)
    except OSError:
        pass
    return mp


class StubModule(types.ModuleType):
    """module whose every attribute is an inert callable"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        def f(*a, **k):
            return None
        return f


class SymWorld:
    def __init__(self, env, stubs=None):
        self.env = env
        self.modules = {}
        self.stubs = dict(stubs or {})
        self.rnd = random_module(env)
        self.np = symnp.build_numpy(self.rnd)
        sio = types.ModuleType('scipy.io')
        sio.loadmat = env.loadmat
        sio.savemat = env.savemat
        scipy = types.ModuleType('scipy')
        scipy.io = sio
        scipy.constants = constants_module()
        scipy.special = special_module(env, self.rnd)
        st = types.ModuleType('scipy.stats')
        scipy.stats = st
        for name in ('invgauss', 'lognorm', 'rayleigh', 'norm', 'gamma', 'expon', 'truncnorm'):
            d = types.SimpleNamespace()
            d.rvs = self._rvs(name)
            setattr(st, name, d)
        self.ext = {'numpy': self.np, 'numpy.random': self.rnd, 'numpy.linalg': self.np.linalg, 'scipy': scipy, 'scipy.io': sio,
                    'scipy.constants': scipy.constants, 'scipy.special': scipy.special, 'scipy.stats': st, 'math': math_module(), 'time': _time_stub()}
        for n in ('matplotlib', 'matplotlib.pyplot', 'mpl_toolkits.axes_grid1', 'mpl_toolkits', 'pylab'):
            self.ext[n] = StubModule(n)
        self.ext['os'] = os_module(env)
        self.ext['os.path'] = self.ext['os'].path
        self.ext['shutil'] = shutil_module(env, self.ext['os'])
        self.ext['pickle'] = pickle_module(env)
        self.builtins = dict(vars(builtins))
        self.builtins.update(__import__=self._import, int=sym_int, float=sym_float, bool=sym_bool, max=sym_max, min=sym_min, sum=sym_sum,
                             round=sym_round, print=lambda *a, **k: None, range=sym_range, xrange=sym_range, type=sym_type,
                             open=env.open)
        self.nmap = makefile_map()
        self.loaded = set()

    def _rvs(self, name):
        def rvs(*a, **k):
            size = k.get('size')
            if size is None and name not in ('rayleigh', 'norm', 'expon') and len(a) > 3:
                size = a[3]
            return self.rnd._draw._many('rvs_' + name, lambda v: [] if name == 'norm' else [v > 0], size)
        return rvs

    # -- import hook ---------------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pk = self.package()
            if name:
                m = self.module(name)
                if fromlist: return m
                return pk
            for n in fromlist or ():
                setattr(pk, n, self.module(n))
            return pk
        if name in self.stubs:
            return self._pick(name, self.stubs[name], fromlist)
        if name in self.ext:
            return self._pick(name, self.ext[name], fromlist)
        if name == PKG or name.startswith(PKG + '.'):
            if name == PKG:
                pk = self.package()
                for n in fromlist or ():
                    setattr(pk, n, self.module(n))
                return pk
            m = self.module(name.split('.', 1)[1])
            setattr(self.package(), name.split('.', 1)[1], m)
            return m if fromlist else self.package()
        if name.split('.')[0] in ('scipy', 'numpy', 'PyPIC', 'PyHEADTAIL', 'h5py'):
            if name.split('.')[0] in ('PyPIC', 'PyHEADTAIL', 'h5py'):
                raise ImportError("no symbolic stand-in for %s" % name)
            raise EngineError("import of %s is not modelled" % name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _pick(self, name, mod, fromlist):
        if fromlist or '.' not in name:
            return mod
        top = name.split('.')[0]
        t = self.stubs.get(top) or self.ext.get(top)
        if t is None:
            t = types.ModuleType(top)
            self.stubs[top] = t
        cur = t
        parts = name.split('.')
        for i in range(1, len(parts)):
            sub = '.'.join(parts[:i + 1])
            s = self.stubs.get(sub) or self.ext.get(sub) or (mod if sub == name else None)
            if s is None:
                s = types.ModuleType(sub)
            try:
                setattr(cur, parts[i], s)
            except Exception:
                pass
            cur = s
        return t

    def package(self):
        if '' not in self.modules:
            p = types.ModuleType(PKG)
            p.__path__ = [REPO]
            self.modules[''] = p
        return self.modules['']

    def module(self, name):
        """module of the package by its relative name"""
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            self.modules[name] = self.stubs[name]
            return self.stubs[name]
        path = os.path.join(REPO, name + '.py')
        if os.path.exists(path):
            return self._exec(name, path)
        pyx = os.path.join(REPO, name + '.pyx')
        if os.path.exists(pyx):
            return self._exec_pyx(name, pyx)
        if name in self.nmap and os.path.exists(os.path.join(REPO, self.nmap[name])):
            m = native.fortran_module(os.path.join(REPO, self.nmap[name]), name)
            self.modules[name] = m
            self.loaded.add(self.nmap[name])
            return m
        raise ImportError("cannot import name %r from %r" % (name, PKG))

    def _globals(self, name, path):
        m = types.ModuleType(PKG + '.' + name)
        m.__dict__.update(__builtins__=self.builtins, __file__=path, __package__=PKG,
                          __flt__=flt, __div__=sdiv, __cdiv__=cdiv, __idiv__=idiv, __mod__=smod, __pow__=spow,
                          __cint=lambda x: symnp.cast_scalar(x, 'i'), __cdbl=R.of, __carr=native.carr)
        return m

    def _exec(self, name, path):
        key = path
        if key not in _CODE:
            src = open(path).read()
            tree = Rewrite().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            _CODE[key] = compile(tree, path, 'exec', dont_inherit=True)
        m = self._globals(name, path)
        self.modules[name] = m
        self.loaded.add(os.path.basename(path))
        exec(_CODE[key], m.__dict__)
        return m

    def _exec_pyx(self, name, path):
        if path not in _CODE:
            src = native.pyx_to_py(open(path).read())
            tree = Rewrite(cython=True).visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            _CODE[path] = compile(tree, path, 'exec', dont_inherit=True)
        m = self._globals(name, path)
        self.modules[name] = m
        self.loaded.add(os.path.basename(path))
        pxd = path[:-3] + 'pxd'
        if os.path.exists(pxd):
            import re
            txt = open(pxd).read()
            for h in re.findall(r'cdef extern from "([^"]+)"', txt):
                cfile = os.path.join(REPO, h[:-2] + '.c')
                if os.path.exists(cfile):
                    self.loaded.add(os.path.basename(cfile))
                    for fn in native.interp(cfile).funcs:
                        m.__dict__[fn] = native.c_function(cfile, fn)
        exec(_CODE[path], m.__dict__)
        for n, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                m.__dict__['__raw_' + n] = v
        wrapped = {}
        for n, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__globals__ is m.__dict__ and not n.startswith('__'):
                wrapped[n] = _cy_wrap(v)
        out = types.ModuleType(m.__name__)
        out.__dict__.update(wrapped)
        self.modules[name] = out
        return out


def _cy_wrap(f):
    def g(*a, **k):
        return native.uncview(f(*a, **k))
    g.__name__ = f.__name__
    return g


def _time_stub():
    m = types.ModuleType('time')
    import time
    t = [1000.0]
    def now():
        t[0] += 1.0
        return t[0]
    m.time = now
    m.sleep = lambda *a: None
    m.strftime = lambda *a: 'date'
    m.localtime = lambda *a: None
    m.mktime = lambda *a: now()
    m.ctime = lambda *a: 'date'
    m.perf_counter = now
    m.clock = now
    return m
