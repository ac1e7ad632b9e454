"""Symbolic scalars and the path-exploring engine (exact reals, integers, booleans over z3).

A run of a harness is one *path*: every time the executed code needs a concrete
truth value of a symbolic condition, Engine.decide asks z3 which outcomes are
possible under the path condition, takes one, and queues the other.  Paths are
explored by re-executing the harness with a recorded decision prefix.
"""
import sys, math, importlib.machinery, importlib.util
from fractions import Fraction
import numbers

def _load_z3():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    sp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    spec = importlib.machinery.PathFinder.find_spec('z3', [sp])
    m = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = m
    spec.loader.exec_module(m)
    return m

z3 = _load_z3()
import numpy as _np
import time as _time
import os as _os


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""

class Budget(BaseException):
    """Exploration budget exhausted."""

class EngineError(Exception):
    """The executed code needs something the engine does not model."""


INF = float('inf')
NAN = float('nan')


def is_special(p):
    return type(p) is float


def frac(x):
    """Exact value of a python/numpy number. Floats are read as their shortest decimal."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (INF, -INF):
            return x
        return Fraction(repr(x))
    raise TypeError("not a number: %r" % (x,))


def zreal(p):
    """payload -> z3 real expression"""
    if isinstance(p, Fraction):
        return z3.RealVal(str(p.numerator) + '/' + str(p.denominator)) if p.denominator != 1 else z3.RealVal(p.numerator)
    if is_special(p):
        raise EngineError("special float in z3 expression")
    return p


_COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR, z3.Z3_OP_IFF}
_FLIP = {z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}


class Engine:
    cur = None

    def __init__(self, query_timeout_ms=20000, max_paths=100000, deadline=None):
        self.query_timeout = query_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(paths=0, paths_ended=0, decisions=0, queries=0, checks=0, discharged=0,
                          trivially_true=0, solver_s=0.0, unknown_branch=0, inconclusive=0, aborted=0)
        self.worklist = [[]]

    # -- path lifecycle ---------------------------------------------------
    def begin_path(self, prefix):
        Engine.cur = self
        self.prefix = prefix
        self.ppos = 0
        self.trace = []
        self.hashes = {}      # term id -> (hash, reference keeping the term alive)
        self.decided = {}     # hash of a condition -> value
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_timeout)
        self.model = None
        self.inputs = []      # (name, kind, z3 const)
        self.rands = []       # (kind, z3 const)
        self.counter = {}
        self.sqrt_cache = {}
        self.alg, self.algs = {}, {}
        self.sqrt_def = {}
        self.sqrt_list = []   # (radicand, fingerprint, root)
        self.consts = []      # (integer term, value) fixed on this path
        self.fn_cache = {}
        self.ufs = []         # (name, [args z3], result z3)
        self.stats['paths'] += 1

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and _time.time() > self.deadline:
            raise Budget()
        t = _time.time()
        self.stats['queries'] += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            if extra:
                self.solver.pop()
        if r == z3.unknown:
            r, m = self._fallback(extra)
        self.stats['solver_s'] += _time.time() - t
        return r, m

    def _fallback(self, extra):
        for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = mk()
                s.set('timeout', self.query_timeout)
                for c in self.pc:
                    s.add(c)
                for e in extra:
                    s.add(e)
                r = s.check()
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(cond, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def axiom(self, cond):
        """a fact that holds by construction (definition of a fresh symbol)"""
        self.add(cond)

    def feasible_m(self, cond):
        """(True / False / None (unknown), model)"""
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(cond, model_completion=True)):
                    return True, self.model
            except z3.Z3Exception:
                pass
        r, m = self._check(cond)
        if r == z3.sat:
            return True, m
        if r == z3.unsat:
            return False, None
        self.stats['unknown_branch'] += 1
        return None, None

    def feasible(self, cond):
        return self.feasible_m(cond)[0]

    def decide(self, cond, val=None):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.is_not(cond)
        base = cond.arg(0) if neg else cond
        key = self.chash(base)
        if val is None:
            known = self.decided.get(key)
            if known is not None:
                return known != neg
        v = self._decide(cond, val, (key, neg))
        self.decided[key] = v != neg
        return v

    def chash(self, e):
        """hash of a term that does not depend on the order of commutative arguments (which varies between runs)"""
        memo = self.hashes
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack += todo
                continue
            stack.pop()
            hs = [memo[c.get_id()][0] for c in ch]
            if not ch:
                h = hash(('leaf', str(x)))
            else:
                d = x.decl()
                k = d.kind()
                if k in _COMM: hs.sort()
                elif k in _FLIP: hs, k = hs[::-1], _FLIP[k]
                h = hash((k, d.name() if k == z3.Z3_OP_UNINTERPRETED else '', tuple(hs)))
            memo[i] = (h, x)
        return memo[e.get_id()][0]

    def upcoming(self, key):
        """index of the recorded decision `key`; recorded decisions without alternative may be skipped"""
        j = self.ppos
        while j < len(self.prefix):
            if self.prefix[j][3] == key: return j
            if not self.prefix[j][1]: return None
            j += 1
        return None

    def _decide(self, cond, val, key):
        if self.ppos < len(self.prefix):
            j = self.upcoming(key)
            if j is not None:
                v, forced, pv, _ = self.prefix[j]
                self.ppos = j + 1
                self.trace.append(self.prefix[j])
                if not forced:
                    self.add(cond if v else z3.Not(cond))
                return v
        self.stats['decisions'] += 1
        if len(self.trace) > 5000:
            raise EngineError("decision depth exceeded (unbounded loop?)")
        ft, mt = self.feasible_m(cond)
        ff, mf = self.feasible_m(z3.Not(cond)) if ft is not False else (True, None)
        if ft is False and ff is True:
            # may be infeasible altogether; caller's pc was feasible, so take it
            self.trace.append((False, True, val, key))
            return False
        if ff is False:
            self.trace.append((True, True, val, key))
            return True
        if any(not p[1] for p in self.prefix[self.ppos:]):
            raise EngineError("non-deterministic replay of a decision prefix")
        self.ppos = len(self.prefix)
        self.worklist.append(self.trace + [(False, False, val, key)])
        self.trace.append((True, False, val, key))
        self.add(cond)
        if self.model is None and mt is not None:
            self.model = mt
        return True

    def assume(self, cond):
        if isinstance(cond, B):
            cond = cond.e
        if cond is True or isinstance(cond, _np.bool_) and bool(cond):
            return
        if cond is False or isinstance(cond, _np.bool_):
            raise PathAbort()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        self.add(cond)
        if self.ppos >= len(self.prefix) and self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self.model = m

    def path_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.sat:
                self.model = m
            return r, m
        return z3.sat, self.model


def E():
    e = Engine.cur
    if e is None:
        raise EngineError("no engine")
    return e


# --------------------------------------------------------------------------
class B:
    """symbolic boolean"""
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().decide(self.e)

    def _arr(self, o):
        return isinstance(o, _np.ndarray)

    def __and__(self, o):
        if self._arr(o): return NotImplemented
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if self._arr(o): return NotImplemented
        return b_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if self._arr(o): return NotImplemented
        return mkB(z3.Xor(self.e, bz(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def _i(self):
        return I(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()

    def __mul__(self, o):
        if isinstance(o, R):
            return ite(self, o, R(Fraction(0)))
        return self._i() * o
    __rmul__ = __mul__

    def __truediv__(self, o): return self._i() / o
    def __rtruediv__(self, o): return o / self._i()
    def __neg__(self): return -self._i()

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else b_not(self)
        if isinstance(o, B):
            return mkB(self.e == o.e)
        if isinstance(o, (int, float, I, R)):
            return self._i() == o
        return False

    def __ne__(self, o):
        return b_not(self == o)

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "B(%s)" % self.e

    def __format__(self, spec):
        return '<B>'

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self):
        return (_unpickle, (_register(self),))

    def any(self): return self
    def all(self): return self
    def copy(self): return self
    shape = ()
    ndim = 0
    size = 1


def mkB(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return B(e)


def bz(x):
    if isinstance(x, B):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, I, R)):
        return bz(x != 0)
    if z3.is_expr(x):
        return x
    raise TypeError("bool expected, got %r" % type(x))


def b_not(x):
    if isinstance(x, B):
        return mkB(z3.Not(x.e))
    return not x


def _tob(x):
    if isinstance(x, (B, bool)):
        return x
    if isinstance(x, _np.bool_):
        return bool(x)
    if isinstance(x, (I, R)):
        return x != 0
    return bool(x)


def b_and(*xs):
    es = []
    for x in xs:
        x = _tob(x)
        if isinstance(x, B):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return B(es[0]) if len(es) == 1 else mkB(z3.And(*es))


def b_or(*xs):
    es = []
    for x in xs:
        x = _tob(x)
        if isinstance(x, B):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return B(es[0]) if len(es) == 1 else mkB(z3.Or(*es))


_REG = {}

def _register(o):
    k = id(o)
    _REG[k] = o
    return k

def _unpickle(k):
    return _REG[k]


def ite(c, a, b):
    """merge a and b under condition c (no fork)"""
    if isinstance(c, _np.bool_):
        c = bool(c)
    if not isinstance(c, B):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (B, bool, _np.bool_)) and isinstance(b, (B, bool, _np.bool_)):
        return mkB(z3.If(c.e, bz(a), bz(b)))
    if isinstance(a, (R, float)) or isinstance(b, (R, float)):
        a = R.of(a); b = R.of(b)
        if is_special(a.p) or is_special(b.p):
            return a if bool(c) else b
        if isinstance(a.p, Fraction) and isinstance(b.p, Fraction) and a.p == b.p:
            return a
        return R(z3.If(c.e, zreal(a.p), zreal(b.p)))
    if isinstance(a, (I, int, B, _np.integer)) and isinstance(b, (I, int, B, _np.integer)):
        if not isinstance(a, I) and not isinstance(b, I) and not isinstance(a, B) and not isinstance(b, B) and int(a) == int(b):
            return a
        return I(z3.If(c.e, zint(a), zint(b)))
    return a if bool(c) else b


def zint(x):
    if isinstance(x, I):
        return x.e
    if isinstance(x, B):
        return x._i().e
    if isinstance(x, (int, bool, _np.integer, _np.bool_)):
        return z3.IntVal(int(x))
    raise TypeError("int expected, got %r" % type(x))


class I:
    """symbolic integer (python int semantics)"""
    __slots__ = ('e', '_v')
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e
        self._v = None

    @staticmethod
    def mk(e):
        if z3.is_int_value(e):
            return e.as_long()
        return I(e)

    def _bin(self, o, f, rf):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (R, float, _np.floating, Fraction)):
            return rf(self.real_(), R.of(o))
        if isinstance(o, (I, int, B, _np.integer, _np.bool_)):
            return I.mk(z3.simplify(f(self.e, zint(o))))
        return NotImplemented

    def real_(self):
        return R(z3.ToReal(self.e))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, lambda a, b: b * a)

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return self.real_() / R.of(o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return R.of(o) / self.real_()

    def __floordiv__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        if isinstance(o, (R, float)):
            return self.real_() // R.of(o)
        return int_floordiv(self, o)

    def __rfloordiv__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return int_floordiv(o, self)

    def __mod__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        if isinstance(o, (R, float)):
            return self.real_() % R.of(o)
        return self - int_floordiv(self, o) * o

    def __rmod__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return o - int_floordiv(o, self) * self

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return self.real_() ** o

    def __rpow__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        if isinstance(o, int):
            return o ** int(self)
        return R.of(o) ** self

    def __neg__(self): return I.mk(z3.simplify(-self.e))
    def __pos__(self): return self
    def __abs__(self): return I.mk(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def _cmp(self, o, f):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (R, float, _np.floating, Fraction)):
            return f(self.real_(), R.of(o))
        if isinstance(o, (I, int, B, _np.integer, _np.bool_)):
            return mkB(z3.simplify(f(self.e, zint(o))))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(mkB(self.e != 0))

    def concretise(self):
        if self._v is not None:
            return self._v
        eng = E()
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            self._v = e.as_long()
            return self._v
        for _ in range(400):
            i = eng.ppos
            while i < len(eng.prefix) and eng.prefix[i][1] and eng.prefix[i][2] is None: i += 1
            if i < len(eng.prefix) and eng.prefix[i][2] is not None:
                v = eng.prefix[i][2]
            else:
                r, m = (z3.sat, eng.model) if eng.model is not None else eng._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r != z3.sat:
                    raise EngineError("cannot concretise integer (solver unknown)")
                eng.model = m
                x = m.eval(e, model_completion=True)
                if not z3.is_int_value(x): raise EngineError("cannot concretise integer (algebraic model)")
                v = x.as_long()
            if eng.decide(e == v, v):
                self._v = v
                eng.consts.append((e, z3.IntVal(v)))
                if not e.eq(self.e): eng.consts.append((self.e, z3.IntVal(v)))
                return v
        raise EngineError("too many values for a concretised integer")

    def __int__(self): return self.concretise()
    __index__ = __int__

    def __float__(self): return float(self.concretise())
    def __hash__(self): return hash(self.concretise())
    def __repr__(self): return "I(%s)" % self.e
    def __format__(self, spec): return '<I>'
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (_unpickle, (_register(self),))
    def copy(self): return self
    def astype(self, t):
        from . import symnp
        return symnp.cast_scalar(self, symnp.kind_of_dtype(t))
    def sum(self): return self
    def item(self): return self
    def max(self): return self
    def min(self): return self
    shape = ()
    ndim = 0
    size = 1


def int_floordiv(a, b):
    za, zb = zint(a), zint(b)
    if not isinstance(b, I):
        bb = int(b)
        if bb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if bb > 0:
            return I.mk(z3.simplify(za / zb))
        return I.mk(z3.simplify((-za) / (-zb)))
    if bool(mkB(zb == 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    return I.mk(z3.If(zb > 0, za / zb, (-za) / (-zb)))


def _sp(fn):
    """run a float computation giving special values"""
    with _np.errstate(all='ignore'):
        return fn()


class R:
    """symbolic / exact real"""
    __slots__ = ('p',)
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, I):
            return x.real_()
        if isinstance(x, B):
            return R(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
        if isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)):
            return R(frac(x))
        if isinstance(x, _np.ndarray) and x.size == 1:
            return R.of(x.reshape(-1).tolist()[0] if x.dtype != object else x.reshape(-1)[0])
        raise TypeError("float() argument must be a number, not %r" % type(x))

    @property
    def concrete(self):
        return isinstance(self.p, Fraction)

    def _coerce(self, o):
        if isinstance(o, R):
            return o
        if isinstance(o, _np.ndarray) or o is None or isinstance(o, (str, list, tuple, dict, complex)):
            return None
        try:
            return R.of(o)
        except TypeError:
            return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        a, b = self.p, o.p
        if isinstance(a, Fraction):
            if isinstance(b, Fraction): return R(a + b)
            if a == 0 and not is_special(b): return o
        elif isinstance(b, Fraction) and b == 0 and not is_special(a): return self
        if is_special(a) or is_special(b):
            if is_special(a) and is_special(b): return R(a + b)
            return R(a if is_special(a) else b)
        if (x := _alg(a)) and (y := _alg(b)) and x[1] == y[1]: return _mkalg(x[0] + y[0], x[1])
        return R(zreal(a) + zreal(b))
    __radd__ = __add__

    def __neg__(self):
        p = self.p
        if (x := _alg(p)) and not isinstance(p, Fraction): return _mkalg(-x[0], x[1])
        return R(-p)

    def __pos__(self): return self

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        if isinstance(o.p, Fraction) and o.p == 0 and not is_special(self.p): return self
        if not is_special(self.p) and not is_special(o.p) and not isinstance(self.p, Fraction) and not isinstance(o.p, Fraction):
            if self.p.eq(o.p): return R(Fraction(0))
            if (x := _alg(self.p)) and (y := _alg(o.p)) and x[1] == y[1]: return _mkalg(x[0] - y[0], x[1])
            return R(self.p - o.p)
        return self + (-o)

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return o - self

    def __mul__(self, o):
        if isinstance(o, B): return ite(o, self, R(Fraction(0)))
        o = self._coerce(o)
        if o is None: return NotImplemented
        a, b = self.p, o.p
        fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
        if fa and fb: return R(a * b)
        if is_special(a) or is_special(b):
            if a != a or b != b: return R(NAN)
            s, t = (a, o) if is_special(a) else (b, self)
            if is_special(t.p): return R(s * t.p)
            if bool(t == 0): return R(NAN)
            return R(s if bool(t > 0) else -s)
        if fa:
            if a == 0: return R(Fraction(0))
            if a == 1: return o
            if a == -1: return -o
        if fb:
            if b == 0: return R(Fraction(0))
            if b == 1: return self
            if b == -1: return -self
        if (x := _alg(a)) and (y := _alg(b)):
            g = math.gcd(x[1], y[1])
            return _mkalg(x[0] * y[0] * g, x[1] // g * (y[1] // g))
        return R(zreal(a) * zreal(b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return R.of(div(self, o).floor())

    def __rfloordiv__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return R.of(div(o, self).floor())

    def __mod__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return self - o * R.of(div(self, o).floor())

    def __rmod__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return o % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return power(R.of(o), self)

    def __abs__(self):
        p = self.p
        if isinstance(p, Fraction) or is_special(p): return R(abs(p))
        if x := _alg(p): return _mkalg(abs(x[0]), x[1])
        return R(z3.If(p >= 0, p, -p))

    def _cmp(self, o, name):
        o = self._coerce(o)
        if o is None: return NotImplemented
        a, b = self.p, o.p
        f = _CMP[name]
        if isinstance(a, Fraction) and isinstance(b, Fraction): return f(a, b)
        if is_special(a) or is_special(b):
            fa = a if is_special(a) else 0.0
            fb = b if is_special(b) else 0.0
            return f(fa, fb)
        if (x := _alg(a)) and (y := _alg(b)):
            return f(x[0] * abs(x[0]) * x[1], y[0] * abs(y[0]) * y[1])
        return mkB(z3.simplify(f(zreal(a), zreal(b))))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return self._cmp(o, 'ne')

    def __bool__(self):
        return bool(self != 0)

    def floor(self):
        p = self.p
        if isinstance(p, Fraction): return math.floor(p)
        if is_special(p): raise (ValueError if p != p else OverflowError)("cannot convert float to integer")
        return I.mk(z3.simplify(z3.ToInt(p)))

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        p = self.p
        if isinstance(p, Fraction): return round(p)
        if is_special(p): raise (ValueError if p != p else OverflowError)("cannot convert float to integer")
        f = z3.ToInt(p)
        d = p - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return I.mk(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def trunc(self):
        p = self.p
        if isinstance(p, Fraction): return math.trunc(p)
        if is_special(p): raise (ValueError if p != p else OverflowError)("cannot convert float to integer")
        return I.mk(z3.simplify(z3.If(p >= 0, z3.ToInt(p), -z3.ToInt(-p))))

    def __round__(self, nd=None):
        if nd is None: return self.rint()
        k = Fraction(10) ** nd
        return R.of((self * R(k)).rint()) / R(k)

    def __floor__(self): return self.floor()
    def __ceil__(self): return self.ceil()
    def __trunc__(self): return self.trunc()

    def __int__(self):
        return int(self.trunc())

    def __float__(self):
        if isinstance(self.p, Fraction) or is_special(self.p):
            return float(self.p)
        raise EngineError("a symbolic real reached code that needs a concrete float")

    def __hash__(self):
        if isinstance(self.p, Fraction) or is_special(self.p): return hash(self.p)
        return self.p.hash()

    def __repr__(self):
        return "R(%s)" % self.p

    def __format__(self, spec):
        if isinstance(self.p, Fraction) or is_special(self.p):
            return format(float(self.p), spec)
        return '<R>'

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (_unpickle, (_register(self),))
    def copy(self): return self
    def item(self): return self
    def sum(self): return self
    def max(self): return self
    def min(self): return self
    def squeeze(self): return self
    def astype(self, t):
        from . import symnp
        return symnp.cast_scalar(self, symnp.kind_of_dtype(t))
    def sqrt(self): return sqrt(self)
    def is_integer(self): return self == R.of(self.floor())
    @property
    def real(self): return self
    @property
    def imag(self): return R(Fraction(0))
    def conjugate(self): return self
    shape = ()
    ndim = 0
    size = 1


import operator as _op
_CMP = dict(lt=_op.lt, le=_op.le, gt=_op.gt, ge=_op.ge, eq=_op.eq, ne=_op.ne)
numbers.Number.register(R)
numbers.Number.register(I)


class _Cfg:
    numpy_div = True      # x/0 -> inf/nan (numpy) instead of ZeroDivisionError


def div(a, b):
    pa, pb = a.p, b.p
    if isinstance(pb, Fraction):
        if pb == 0:
            return _div0(a)
        if isinstance(pa, Fraction): return R(pa / pb)
        if is_special(pa): return R(pa if pb > 0 else -pa)
        if pb == 1: return a
        if x := _alg(pa): return _mkalg(x[0] / pb, x[1])
        return R(pa * zreal(1 / pb))
    if is_special(pb):
        if pb != pb or is_special(pa): return R(NAN)
        return R(Fraction(0))
    if y := _alg(pb): return a * _mkalg(1 / (y[0] * y[1]), y[1])
    # symbolic denominator: the zero case is a separate path
    if bool(mkB(z3.simplify(pb == 0))):
        return _div0(a)
    if is_special(pa):
        if pa != pa: return R(NAN)
        return R(pa if bool(b > 0) else -pa)
    if isinstance(pa, Fraction) and pa == 0:
        return R(Fraction(0))
    return R(zreal(pa) / pb)


def _div0(a):
    if is_special(a.p):
        return R(a.p)
    if bool(a == 0): return R(NAN)
    return R(INF if bool(a > 0) else -INF)


def _alg(p):
    """(q, m) of a constant q sqrt(m) with a squarefree m, None for anything else"""
    if isinstance(p, Fraction): return p, 1
    if is_special(p): return None
    return E().alg.get(p.get_id())


def _mkalg(q, m):
    if m == 1 or q == 0: return R(q if m == 1 else Fraction(0))
    eng = E()
    r = eng.algs.get((q, m))
    if r is None:
        root = sqrt(R(Fraction(m))).p
        r = root if q == 1 else zreal(q) * root
        eng.algs[(q, m)] = r
        eng.alg[r.get_id()] = (q, m)
    return R(r)


def _squarefree(p):
    """(q, m) with p = q^2 m, m a squarefree integer, for positive rationals with small factors"""
    n = p.numerator * p.denominator
    q, m = Fraction(1, p.denominator), 1
    for f in range(2, 1000):
        if f * f > n: break
        while n % (f * f) == 0: n //= f * f; q *= f
        if n % f == 0: n //= f; m *= f
    k = math.isqrt(n)
    if k * k == n: return q * k, m
    return (q, m * n) if n < 1000000 else None


def _isqrt_frac(f):
    if f < 0: return None
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def sqrt(x):
    x = R.of(x)
    p = x.p
    if is_special(p):
        return R(INF) if p == INF else R(NAN)
    eng = E()
    if isinstance(p, Fraction):
        if p < 0: return R(NAN)
        s = _isqrt_frac(p)
        if s is not None: return R(s)
        qm = _squarefree(p)
        if qm and p != qm[1]: return _mkalg(*qm)
        key = ('c', p)
    else:
        p = z3.simplify(p)
        key = eng.chash(p)
        if key not in eng.sqrt_cache:
            if bool(mkB(z3.simplify(p < 0))):
                return R(NAN)
    if key in eng.sqrt_cache:
        return R(eng.sqrt_cache[key])
    if not isinstance(p, Fraction):
        same = _same_radicand(eng, p)
        if same is not None:
            eng.sqrt_cache[key] = same
            return R(same)
    r = z3.Real(eng.fresh_name('sqrt'))
    eng.axiom(r >= 0)
    eng.axiom(r * r == zreal(p))
    if isinstance(p, Fraction):
        lo = Fraction(math.isqrt(p.numerator * 10**40 // p.denominator), 10**20)
        eng.axiom(z3.And(r >= zreal(lo), r <= zreal(lo + Fraction(2, 10**20) + lo * Fraction(1, 10**15))))
    eng.sqrt_cache[key] = r
    eng.sqrt_def[r.get_id()] = zreal(p)
    if isinstance(p, Fraction) and p.denominator == 1 and qm:
        eng.alg[r.get_id()] = (Fraction(1), p.numerator); eng.algs[(Fraction(1), p.numerator)] = r
    if not isinstance(p, Fraction): eng.sqrt_list.append((p, _fingerprint(eng, p), r))
    return R(r)


def _fingerprint(eng, p):
    """value of a term with pseudo-random constants (None: not a plain number)"""
    consts, seen, todo = {}, set(), [p]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if len(seen) > 400: return None
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not z3.is_real(x): return None
            consts[x.decl().name()] = x
        todo += x.children()
    # square roots stand for themselves: their values must satisfy r*r = radicand, which random numbers do not; use those of equal name only
    vals = []
    for n, x in consts.items():
        h = eng.chash(x) % 9973 + 2
        vals.append((x, z3.RealVal('%d/%d' % (h, 101 + h % 7))))
    v = z3.simplify(z3.substitute(p, *vals)) if vals else p
    return (str(v), bool([n for n in consts if n.startswith('sqrt')])) if z3.is_rational_value(v) else None


def _same_radicand(eng, p):
    """an earlier square root of the same polynomial"""
    if not eng.sqrt_list or len(eng.sqrt_list) > 60: return None
    f = _fingerprint(eng, p)
    if f is None: return None
    from . import poly
    for q, g, r in eng.sqrt_list:
        if g is None or (g[0] != f[0] and not (f[1] or g[1])): continue
        if (f[1] or g[1]) and g[0] != f[0] and len(eng.sqrt_list) > 8: continue
        try:
            if poly.is_zero(eng, p - q, [], [2]): return r
        except z3.Z3Exception:
            pass
    return None


def power(a, b):
    if isinstance(b, (I,)):
        b = int(b)
    bf = None
    if isinstance(b, R):
        if isinstance(b.p, Fraction): bf = b.p
    else:
        bf = frac(b)
    if isinstance(bf, Fraction):
        if bf.denominator == 1 and abs(bf) <= 16:
            n = int(bf)
            r = R(Fraction(1))
            for _ in range(abs(n)):
                r = r * a
            return r if n >= 0 else div(R(Fraction(1)), r)
        if bf == Fraction(1, 2):
            return sqrt(a)
        if bf == Fraction(3, 2):
            return a * sqrt(a)
        if bf == Fraction(-1, 2):
            return div(R(Fraction(1)), sqrt(a))
    b = R.of(b)
    from . import funcs
    return funcs.ufpow(a, b)


def smax(a, b):
    if isinstance(a, (int, I)) and isinstance(b, (int, I)):
        return ite(a >= b, a, b)
    a, b = R.of(a), R.of(b)
    if is_special(a.p) and a.p != a.p: return a
    if is_special(b.p) and b.p != b.p: return b
    return ite(a >= b, a, b)


def smin(a, b):
    if isinstance(a, (int, I)) and isinstance(b, (int, I)):
        return ite(a <= b, a, b)
    a, b = R.of(a), R.of(b)
    if is_special(a.p) and a.p != a.p: return a
    if is_special(b.p) and b.p != b.p: return b
    return ite(a <= b, a, b)
