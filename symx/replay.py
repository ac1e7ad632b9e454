"""Runs harnesses concretely against the real, built package.

usage: replay.py TREE REQUESTS.json OUT.json     (TREE/PyECLOUD is the built copy)
"""
import sys, os, json, math, types, traceback, tempfile, shutil, warnings
import builtins
from fractions import Fraction
warnings.simplefilter('ignore')
import numpy as np
from . import harness as H


class AssumeFailed(BaseException):
    pass


class Queue:
    draws = []
    pos = 0
    mism = 0
    rng = np.random.RandomState(7)

    @classmethod
    def reset(cls, draws):
        cls.draws, cls.pos, cls.mism = list(draws), 0, 0
        cls.log = []
        cls.limit = cls.unless = cls.env = None
        cls.params = {}

    limit = unless = None

    @classmethod
    def next(cls, kind, default):
        if len(cls.log) >= 200000 or (cls.limit is not None and len(cls.log) >= cls.limit):
            if cls.unless is not None: cls.env.check(cls.unless(), 'random draws come to an end')
            if cls.unless is not None or len(cls.log) >= 200000: raise AssumeFailed()
        v = cls._next(kind, default)
        cls.log.append((kind, v))
        return v

    @classmethod
    def _next(cls, kind, default):
        if cls.pos < len(cls.draws):
            k, v = cls.draws[cls.pos]
            cls.pos += 1
            if k == kind:
                return v
            cls.mism += 1
            return default()
        cls.pos += 1
        cls.mism += 1
        return default()


def _many(kind, default, size):
    if size is None or size == ():
        return float(Queue.next(kind, default))
    shape = tuple(builtins.int(s) if not isinstance(s, float) else _badsize(s) for s in (size if isinstance(size, (tuple, list)) else (size,)))
    out = np.empty(shape)
    for ix in np.ndindex(shape):
        out[ix] = Queue.next(kind, default)
    return out


def _badsize(s):
    raise TypeError("'float' object cannot be interpreted as an integer")


def patch_random():
    r = np.random
    rng = Queue.rng
    r.rand = lambda *s: _many('rand', rng.rand, s if s else None)
    for n in ('random', 'random_sample', 'sample', 'ranf'):
        setattr(r, n, lambda size=None: _many('rand', rng.rand, size))
    r.randn = lambda *s: _many('randn', rng.randn, s if s else None)
    r.standard_normal = lambda size=None: _many('randn', rng.randn, size)
    r.uniform = lambda low=0., high=1., size=None: low + _many('rand', rng.rand, size) * (high - low)
    r.normal = lambda loc=0., scale=1., size=None: loc + _many('randn', rng.randn, size) * scale
    def lognormal(mean=0., sigma=1., size=None):
        shape = () if size is None else size if isinstance(size, tuple) else (size,)
        if all(not isinstance(s, float) for s in shape):
            m, s = np.broadcast_to(mean, shape).reshape(-1), np.broadcast_to(sigma, shape).reshape(-1)
            for i in range(len(m)): Queue.params[len(Queue.log) + i] = (m[i], s[i])
        return _lognormal(mean, sigma, size)
    r.lognormal = lognormal
    _lognormal = lambda mean=0., sigma=1., size=None: _many('lognormal', lambda: math.exp(mean + sigma * rng.randn()) if np.ndim(mean) == 0 else 1., size)
    r.exponential = lambda scale=1., size=None: _many('exponential', lambda: rng.exponential(1.), size) * scale
    def randint(low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        d = lambda: rng.randint(low, high)
        if size is None: return builtins.int(Queue.next('randint', d))
        return np.array([builtins.int(Queue.next('randint', d)) for _ in range(builtins.int(size))])
    rng_randint = rng.randint
    def poisson(lam=1., size=None):
        n = np.asarray(lam)
        shape = n.shape if size is None else ((size,) if not isinstance(size, tuple) else size)
        n = np.broadcast_to(n, shape)
        for i, x in enumerate(n.reshape(-1)): Queue.params[len(Queue.log) + i] = (float(x),)
        if shape == (): return builtins.int(Queue.next('poisson', lambda: rng.poisson(lam)))
        return np.array([builtins.int(Queue.next('poisson', lambda: rng.poisson(x))) for x in n.reshape(-1)], dtype=int).reshape(shape)
    r.poisson = poisson
    r.randint = randint
    r.seed = lambda *a: None
    try:
        import scipy.stats as st
        for name in ('invgauss', 'lognorm', 'rayleigh', 'norm', 'gamma', 'expon', 'truncnorm'):
            def rvs(*a, name=name, **k):
                size = k.get('size')
                if size is None and name not in ('rayleigh', 'norm', 'expon') and len(a) > 3:
                    size = a[3]
                return _many('rvs_' + name, lambda: abs(rng.randn()) if name != 'norm' else rng.randn(), size)
            getattr(st, name).rvs = rvs
    except ImportError:
        pass


class ConcreteEnv(H.BaseEnv):
    symbolic = False
    RTOL = 1e-7

    def __init__(self, inputs, scratch):
        self.inputs = inputs
        self.scratch = scratch
        self.failed = []
        self.checked = 0
        self.tags = []
        self.obs = []
        self._stubbed = []

    @property
    def np(self):
        return np

    def path(self, name):
        return os.path.join(self.scratch, name)

    def put_file(self, name, value):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(value, dict):
            import scipy.io as sio
            sio.savemat(p, value, oned_as='row')
        else:
            with builtins.open(p, 'w') as f:
                f.write(value)

    def crash(self, at, fn, *a):
        """see SymEnv.crash: the same points, by wrapping the file operations"""
        import scipy.io as sio, pickle
        n, inner = [0], [False]
        old = dict(savemat=sio.savemat, copy=shutil.copy, remove=os.remove, replace=os.replace, rename=os.rename, makedirs=os.makedirs, mkdir=os.mkdir, dump=pickle.dump, open=builtins.open)

        def op():
            if inner[0]: return
            n[0] += 1
            if n[0] - 1 == at: raise H.Crash()

        def before(f):
            def g(*x, **k):
                op()
                return f(*x, **k)
            return g

        def partial(path):
            op()
            with old['open'](path, 'wb') as f: f.write(b'incomplete')
            op()

        def whole(f, *x, **k):
            inner[0] = True
            try: return f(*x, **k)
            finally: inner[0] = False

        def savemat(path, d, *x, **k):
            partial(path)
            return whole(old['savemat'], path, d, *x, **k)

        def copy(a, b, *x, **k):
            partial(os.path.join(b, os.path.basename(a)) if os.path.isdir(b) else b)
            return whole(old['copy'], a, b, *x, **k)

        def opened(path, mode='r', *x, **k):
            if 'w' in mode or 'a' in mode: op()
            return old['open'](path, mode, *x, **k)

        def makedirs(path, *x, **k):
            if not os.path.isdir(path): op()
            return old['makedirs'](path, *x, **k)
        sio.savemat, shutil.copy, os.remove, os.replace, os.rename, os.makedirs, pickle.dump, builtins.open = savemat, copy, before(old['remove']), before(old['replace']), before(old['rename']), makedirs, before(old['dump']), opened
        try:
            fn(*a)
            return False
        except H.Crash:
            return True
        finally:
            sio.savemat, shutil.copy, os.remove, os.replace, os.rename, os.makedirs, pickle.dump, builtins.open = [old[i] for i in ('savemat', 'copy', 'remove', 'replace', 'rename', 'makedirs', 'dump', 'open')]

    def listdir(self, name):
        return sorted(os.listdir(self.path(name)))

    def get_file(self, name):
        """a stored MATLAB file as dictionary of squeezed arrays, or None"""
        p = self.path(name)
        if not os.path.exists(p): return None
        import scipy.io as sio
        return {k: v for k, v in sio.loadmat(p, squeeze_me=True).items() if k[:2] != '__'}

    def stub(self, name, mod):
        sys.modules[name] = mod
        self._stubbed.append(name)
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par not in sys.modules:
                try:
                    __import__(par)
                except ImportError:
                    sys.modules[par] = types.ModuleType(par)
                    self._stubbed.append(par)
            setattr(sys.modules[par], ch, mod)

    def mod(self, name):
        import importlib
        return importlib.import_module('PyECLOUD.' + name)

    def limit_draws(self, n, unless=None):
        Queue.env, Queue.limit, Queue.unless = self, n, unless

    def merge_masks(self, on):
        pass

    def drawn(self):
        return list(Queue.log)

    def drawn_params(self):
        return Queue.params

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None, slo=None, shi=None):
        v = float(self._get(name, 0.5))
        return v

    def int(self, name, lo, hi):
        return builtins.int(self._get(name, lo))

    def bool(self, name):
        return builtins.bool(self._get(name, False))

    def flag(self, name):
        return self.bool(name)

    def choice(self, name, options):
        return list(options)[self.int(name, 0, 0)]

    def array(self, xs, kind=None):
        t = {None: None, 'f': float, 'i': int, 'b': bool}[kind]
        return np.array(xs, dtype=t) if t else np.array(xs)

    def zeros(self, *shape):
        return np.zeros(shape)

    def q(self, a, b=1):
        return a / b

    def val(self, x):
        return x

    def And(self, *xs): return all(bool(x) for x in xs)
    def Or(self, *xs): return any(bool(x) for x in xs)
    def Not(self, x): return not x
    def If(self, c, a, b): return a if c else b
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def floor(self, x): return math.floor(x)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def fact(self, c):
        pass

    def known(self, tag, cond):
        if cond:
            self.tags.append(tag)
        return builtins.bool(cond)

    def observe(self, name, v):
        self.obs.append((name, v))

    def finite(self, x):
        return builtins.bool(np.isfinite(x))

    def _fail(self, label, msg=''):
        self.failed.append((label, msg, list(self.tags)))

    def check(self, cond, label, margin=None):
        self.checked += 1
        if not cond:
            self._fail(label)

    def _tol(self, a, b, scale):
        return self.RTOL * (abs(a) + abs(b) + (1 if scale is None else abs(scale)))

    def eq(self, a, b, label, scale=None):
        self.checked += 1
        a, b = _num(a), _num(b)
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            ok = bool(a) == bool(b)
        elif not (np.isfinite(a) and np.isfinite(b)):
            ok = (a == b) or (a != a and b != b)
        else:
            ok = abs(a - b) <= self._tol(a, b, scale)
        if not ok:
            self._fail(label, '%r != %r' % (a, b))

    def le(self, a, b, label, scale=None):
        self.checked += 1
        a, b = _num(a), _num(b)
        if not (a <= b + (self._tol(a, b, scale) if np.isfinite(a) and np.isfinite(b) else 0)):
            self._fail(label, '%r > %r' % (a, b))

    def ge(self, a, b, label, scale=None):
        return self.le(b, a, label, scale)

    def near(self, a, b, label, tol):
        self.checked += 1
        if not (abs(a - b) <= (abs(a) + abs(b)) * (tol + 1e-9)):
            self._fail(label, '%r !~ %r' % (a, b))

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def items(self, arr):
        return list(np.asarray(arr).reshape(-1))


def _num(x):
    if isinstance(x, np.ndarray):
        return x.reshape(-1)[0]
    return x


def _obs(v):
    """flatten an observed value to floats"""
    try:
        a = np.asarray(v, dtype=float).reshape(-1)
        return [float(x) for x in a]
    except (TypeError, ValueError):
        return repr(v)


def run_one(req, scratch):
    fn = H.find(req['property'], req['harness'])
    for m in [m for m in sys.modules if m == 'PyECLOUD' or m.startswith('PyECLOUD.') or m.startswith('PyPIC') or m.startswith('PyHEADTAIL')]:
        del sys.modules[m]
    Queue.reset(req['rands'])
    env = ConcreteEnv(req['inputs'], scratch)
    out = dict(failed=[], exception=None, aborted=False)
    import io, contextlib
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            fn(env, **req['params'])
    except AssumeFailed:
        out['aborted'] = True
    except Exception as e:
        out['exception'] = type(e).__name__
        out['message'] = str(e)[:300]
        out['traceback'] = traceback.format_exc()[-1500:]
    finally:
        os.chdir(cwd)
        for n in env._stubbed:
            sys.modules.pop(n, None)
    out['failed'] = env.failed
    out['tags'] = env.tags
    out['checked'] = env.checked
    out['rand_mismatch'] = Queue.mism + max(0, len(Queue.draws) - Queue.pos)
    out['obs'] = [(n, _obs(v)) for n, v in env.obs]
    return out


def load_harnesses(prop):
    import importlib
    importlib.import_module('harness.' + prop.lower())


def main():
    import faulthandler; faulthandler.enable()
    tree, reqf, outf = sys.argv[1:4]
    sys.path.insert(0, tree)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    reqs = json.load(open(reqf))
    patch_random()
    results = []
    for r in reqs:
        load_harnesses(r['property'])
        scratch = tempfile.mkdtemp(prefix='symx-run-')
        try:
            results.append(run_one(r, scratch))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    json.dump(results, open(outf, 'w'))


if __name__ == '__main__':
    main()
