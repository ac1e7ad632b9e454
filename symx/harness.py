"""Harness environment shared by symbolic exploration and concrete replay.

A harness is a function h(env, **params).  Under SymEnv its inputs are solver
variables and every env.check is a solver query over all of them; under
ConcreteEnv (symx/replay.py) the same function runs against the real, built
package with the values of one solver model.
"""
import os, sys, types, builtins, math
from fractions import Fraction

REGISTRY = {}     # property -> list of (name, fn, configs)


def harness(prop, quick, thorough=None, name=None):
    """register a harness: quick / thorough are lists of parameter dicts"""
    def deco(fn):
        n = name or fn.__name__
        REGISTRY.setdefault(prop, []).append((n, fn, list(quick), list(thorough if thorough is not None else quick)))
        return fn
    return deco


def find(prop, name):
    for n, fn, q, t in REGISTRY.get(prop, []):
        if n == name:
            return fn
    raise KeyError(name)


class Violation(Exception):
    def __init__(self, label):
        self.label = label


class CheckFailed(BaseException):
    pass


class BaseEnv:
    def reals(self, name, n, lo=None, hi=None):
        return self.array([self.real('%s[%d]' % (name, i), lo, hi) for i in range(n)])

    def real_list(self, name, n, lo=None, hi=None):
        return [self.real('%s[%d]' % (name, i), lo, hi) for i in range(n)]

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def absv(self, a):
        return abs(a)

    def sum(self, xs):
        acc = 0
        for x in xs:
            acc = acc + x
        return acc

    def eqs(self, xs, ys, label, scale=None):
        xs, ys = list(xs), list(ys)
        self.check(len(xs) == len(ys), label + ': length %d vs %d' % (len(xs), len(ys)))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(x, y, label, scale)


# ------------------------------------------------------------- symbolic -----
from .core import (z3, Engine, E, R, I, B, PathAbort, Budget, EngineError, ite, b_and, b_or, b_not, bz, mkB, is_special, frac, zreal)
from . import core, symnp, poly


def nonlinear(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in x.children()) > 1: return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER): return True
            todo += x.children()
    return False


class Crash(BaseException):
    """the simulated machine stops here"""


class FakeFS:
    """in-memory files for executed code"""
    def __init__(self):
        self.files = {}
        self.dirs = set()
        self.log = []
        self.crash_at = None      # index of the file operation that is interrupted

    def op(self, kind, key):
        """called before every change of the file system"""
        self.log.append((kind, key))
        if self.crash_at is not None and len(self.log) - 1 == self.crash_at:
            raise Crash()


class Obj(types.SimpleNamespace):
    def __deepcopy__(self, memo):
        import copy
        o = Obj()
        memo[id(self)] = o
        for k, v in self.__dict__.items():
            o.__dict__[k] = copy.deepcopy(v, memo)
        return o


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, eng, report, stubs=None):
        self.eng = eng
        self.report = report          # callback(candidate dict) -> None
        self.fs = FakeFS()
        self.tags = []
        self.obs = []
        self.labels = {}
        self._stubs = dict(stubs or {})
        self._world = None
        self.nchecks = 0
        self.draw_params = {}
        symnp.MASK_ITE = True

    # files of the executed code
    def fskey(self, path):
        k = os.path.normpath(str(path))
        return k

    def loadmat(self, path, **k):
        key = self.fskey(path)
        for c in (key, key + '.mat'):
            if c in self.fs.files and isinstance(self.fs.files[c], dict):
                return {n: symnp.matview(v) if not k.get('squeeze_me') else symnp.matsqueeze(v) for n, v in self.fs.files[c].items()}
        raise FileNotFoundError(key)

    def savemat(self, path, mdict, **k):
        key = self.fskey(path)
        # (savemat adds an extension only if the name as given cannot be opened)
        self.fs.op('open', key)
        self.fs.files[key] = None          # an interrupted write leaves an unreadable file
        self.fs.op('savemat', key)
        self.fs.files[key] = {n: symnp.matcopy(v) for n, v in mdict.items()}

    def open(self, path, mode='r', *a, **k):
        return self._open(path, mode, *a, **k)

    def _open(self, path, mode='r', *a, **k):
        import io
        key = self.fskey(path)
        fs = self.fs
        base = io.StringIO if 'b' not in mode else io.BytesIO
        if 'r' in mode and '+' not in mode:
            if key not in fs.files:
                raise FileNotFoundError(2, 'No such file or directory', key)
            v = fs.files[key]
            if isinstance(v, tuple) or v is None:
                class P(io.BytesIO): pass
                r = P(b'')
                r.pickled = v
                return r
            return base(v)
        class W(base):
            pickled = None
            def close(s):
                if not s.closed and not getattr(s, 'dead', False) and not isinstance(sys.exc_info()[1], Crash):
                    s.dead = True
                    fs.op('close', key)
                    fs.files[key] = (s.pickled,) if s.pickled is not None else s.getvalue()
                super().close()
            def __exit__(s, t, *x):
                if t is not None and issubclass(t, Crash): s.dead = True
                s.close()
        fs.op('open', key)
        w = W()
        old = fs.files.get(key)
        if 'a' in mode and old is not None:
            w.write(old)
        else:
            fs.files[key] = None           # an interrupted write leaves an unreadable file
        return w

    def put_file(self, name, value):
        self.fs.files[self.fskey(self.path(name))] = value

    def crash(self, at, fn, *a):
        """runs fn; the machine stops before (or in the middle of) its file operation number `at`: True if it did"""
        self.fs.log, self.fs.crash_at = [], at
        try:
            fn(*a)
            return False
        except Crash:
            return True
        finally:
            self.fs.crash_at = None

    def listdir(self, name):
        return sorted(self.world.ext['os'].listdir(self.path(name)))

    def get_file(self, name):
        """a stored MATLAB file as dictionary of squeezed arrays, or None"""
        d = self.fs.files.get(self.fskey(self.path(name)))
        return d if d is None or not isinstance(d, dict) else {k: (self.np.squeeze(v) if hasattr(v, 'ndim') else v) for k, v in d.items()}

    def path(self, name):
        return name

    @property
    def world(self):
        if self._world is None:
            from .world import SymWorld
            self._world = SymWorld(self, self._stubs)
        return self._world

    def stub(self, name, mod):
        self._stubs[name] = mod
        if self._world is not None:
            self._world.stubs[name] = mod

    def mod(self, name):
        return self.world.module(name)

    @property
    def np(self):
        return self.world.np

    draw_limit = 60

    def limit_draws(self, n, unless=None):
        """histories with more random draws than this are outside the bound (rejection loops); with unless: they may only happen under that condition"""
        self.draw_limit, self.draw_unless = n, unless
    draw_unless = None

    def too_many_draws(self):
        self.eng.stats['cut'] = self.eng.stats.get('cut', 0) + 1
        if self.draw_unless is not None: self.check(self.draw_unless(), 'random draws come to an end')
        raise PathAbort()

    def drawn(self):
        """the random draws so far: (kind, value)"""
        return [(k, I(v) if z3.is_int(v) else R(v)) for k, v in self.eng.rands]

    def drawn_params(self):
        """distribution parameters of the draws so far (lognormal: mean, sigma; poisson: mean), by position in drawn()"""
        return self.draw_params

    poisson_max = 3

    def merge_masks(self, on):
        """a[mask] = scalar: one conditional value (default) or one path per mask"""
        symnp.MASK_ITE = on

    # inputs
    def real(self, name, lo=None, hi=None, slo=None, shi=None):
        v = z3.Real(name)
        self.eng.inputs.append((name, 'f', v))
        r = R(v)
        for c in ((r >= lo) if lo is not None else None, (r <= hi) if hi is not None else None,
                  (r > slo) if slo is not None else None, (r < shi) if shi is not None else None):
            if c is not None:
                self.eng.axiom(bz(c))
        return r

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.eng.inputs.append((name, 'i', v))
        self.eng.axiom(z3.And(v >= lo, v <= hi))
        return I(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.eng.inputs.append((name, 'b', v))
        return B(v)

    def choice(self, name, options):
        """one of the options; every option is its own path"""
        options = list(options)
        v = self.int(name, 0, len(options) - 1)
        return options[builtins.int(v)]

    def flag(self, name):
        return bool(self.bool(name))

    def array(self, xs, kind=None):
        return symnp.asym(xs, kind)

    def zeros(self, *shape):
        return self.np.zeros(shape)

    def q(self, a, b=1):
        return R(Fraction(a, b)) if not isinstance(a, float) else R(frac(a)) / b

    def val(self, x):
        return x

    def And(self, *xs): return b_and(*xs)
    def Or(self, *xs): return b_or(*xs)
    def Not(self, x): return b_not(x)
    def If(self, c, a, b): return ite(core._tob(c), a, b)

    def sqrt(self, x): return core.sqrt(x)

    def floor(self, x):
        return R.of(x).floor()

    def assume(self, c):
        self.eng.assume(c)

    def fact(self, c):
        """a mathematical fact about functions the engine leaves abstract (checked in the replay)"""
        c = core._tob(c)
        if isinstance(c, B):
            self.eng.axiom(c.e)

    def known(self, tag, cond):
        """marks the part of the input space that a recorded finding covers"""
        if isinstance(cond, B):
            if bool(cond):
                self.tags.append(tag)
                return True
            return False
        if cond:
            self.tags.append(tag)
        return builtins.bool(cond)

    def observe(self, name, v):
        self.obs.append((name, v))

    def finite(self, x):
        x = R.of(x)
        return not is_special(x.p)

    # assertions
    def check(self, cond, label, margin=None):
        eng = self.eng
        self.nchecks += 1
        eng.stats['checks'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        cond = core._tob(cond)
        if not isinstance(cond, B):
            if cond:
                eng.stats['trivially_true'] += 1
                return
            r, m = eng.path_model()
            if r == z3.unsat:
                raise PathAbort()
            self._candidate(label, None, None, r, m)
            raise PathAbort()
        e = z3.simplify(cond.e)
        if z3.is_true(e):
            eng.stats['trivially_true'] += 1
            return
        neg = z3.Not(e)
        if eng.model is not None and not z3.is_false(eng.model.eval(neg, model_completion=True)) and z3.is_true(eng.model.eval(neg, model_completion=True)):
            r, m = z3.sat, eng.model
        else:
            r, m = eng._check(neg)
        if r == z3.unsat:
            eng.stats['discharged'] += 1
            return
        if r == z3.unknown:
            eng.stats['inconclusive'] += 1
            self.report(dict(kind='unknown', label=label, tags=list(self.tags)))
            return
        self._candidate(label, neg, margin, r, m)
        # continue under the assumption that it held
        eng.assume(cond)

    def _candidate(self, label, neg, margin, r, m):
        self.report(dict(kind='candidate', label=label, neg=neg, margin=margin, model=m if r == z3.sat else None, tags=list(self.tags)))

    def eq(self, a, b, label, scale=None):
        """a == b exactly (violations are searched with a margin first)"""
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            return self.check(self.Iff(a, b), label)
        if isinstance(a, (builtins.int, I)) and isinstance(b, (builtins.int, I)):
            return self.check(a == b, label)
        a, b = R.of(a), R.of(b)
        if is_special(a.p) or is_special(b.p):
            sa, sb = a.p, b.p
            same = is_special(sa) and is_special(sb) and (sa == sb or (sa != sa and sb != sb))
            return self.check(same, label)
        c = (a == b)
        if not isinstance(c, B):
            if c is False and a.concrete and b.concrete and abs(a.p - b.p) <= Fraction(1, 10**10) * (abs(a.p) + abs(b.p)):
                c = True
            return self.check(c, label)
        if nonlinear(c.e):
            try:
                done = poly.is_zero(self.eng, zreal(a.p) - zreal(b.p), self.eng.consts)
            except z3.Z3Exception:
                done = False
            if done:
                self.nchecks += 1
                self.eng.stats['checks'] += 1
                self.eng.stats['discharged'] += 1
                self.eng.stats['normal_form'] = self.eng.stats.get('normal_form', 0) + 1
                self.labels[label] = self.labels.get(label, 0) + 1
                return
        s = abs(a) + abs(b) + (1 if scale is None else abs(R.of(scale)))
        self.check(c, label, margin=[bz(abs(a - b) > s / 1000), bz(abs(a - b) > s / 100000)])

    def le(self, a, b, label, scale=None):
        a, b = R.of(a), R.of(b)
        if is_special(a.p) or is_special(b.p):
            return self.check(a <= b, label)
        c = (a <= b)
        if not isinstance(c, B):
            return self.check(c, label)
        s = abs(a) + abs(b) + (1 if scale is None else abs(R.of(scale)))
        self.check(c, label, margin=[bz(a - b > s / 1000), bz(a - b > s / 100000)])

    def ge(self, a, b, label, scale=None):
        return self.le(b, a, label, scale)

    def near(self, a, b, label, tol):
        """|a-b| <= tol*(|a|+|b|): for literals the code rounds"""
        a, b = R.of(a), R.of(b)
        self.check(abs(a - b) <= (abs(a) + abs(b)) * R.of(tol), label, margin=[bz(abs(a - b) > (abs(a) + abs(b)) / 1000)])

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    # numpy access on values returned by executed code
    def at(self, arr, *ix):
        return symnp.asym(arr)[ix if len(ix) > 1 else ix[0]] if hasattr(arr, '__len__') else arr

    def items(self, arr):
        return list(symnp.asym(arr).view(core._np.ndarray).reshape(-1)) if not isinstance(arr, (R, I, B, builtins.int, float)) else [arr]
