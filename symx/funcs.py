"""Transcendental functions: fresh results with defining/sign/monotonicity axioms.

Each application f(a) yields a fresh real; applications of the same function are
linked by congruence (a == b -> f(a) == f(b)) and by the axioms below.
"""
import math
from fractions import Fraction
from .core import (z3, R, I, B, E, zreal, is_special, mkB, ite, EngineError, INF, NAN, frac,
                   sqrt, div)
import numpy as _np

PI = R(frac(math.pi))


def _key(p):
    return ('c', p) if isinstance(p, Fraction) else E().chash(p)


def app(name, args, axioms, concrete=None, pairwise=None):
    """apply uninterpreted `name` to a list of R; axioms(res, *zargs) -> list of z3"""
    eng = E()
    ps = [a.p for a in args]
    ps = [p if isinstance(p, Fraction) else z3.simplify(p) for p in ps]
    key = (name,) + tuple(_key(p) for p in ps)
    if key in eng.fn_cache:
        return R(eng.fn_cache[key])
    zs = [zreal(p) for p in ps]
    r = z3.Real(eng.fresh_name('uf_' + name))
    eng.fn_cache[key] = r
    for ax in axioms(r, *zs):
        eng.axiom(ax)
    if all(isinstance(p, Fraction) for p in ps) and concrete is not None:
        try:
            v = concrete(*[float(p) for p in ps])
            fv = frac(float(v))
            eps = abs(fv) * Fraction(1, 10**12) + Fraction(1, 10**18)
            eng.axiom(z3.And(r >= zreal(fv - eps), r <= zreal(fv + eps)))
        except (OverflowError, ValueError):
            pass
    for (n2, zs2, r2) in eng.ufs:
        if n2 == name:
            eng.axiom(z3.Implies(z3.And(*[a == b for a, b in zip(zs, zs2)]), r == r2))
            if pairwise is not None:
                for ax in pairwise(r, zs, r2, zs2):
                    eng.axiom(ax)
    eng.ufs.append((name, zs, r))
    return R(r)


def _mono(r, zs, r2, zs2):
    a, b = zs[0], zs2[0]
    return [(a <= b) == (r <= r2), (a >= b) == (r >= r2)]


def exp(x):
    x = R.of(x)
    if is_special(x.p):
        return R(NAN) if x.p != x.p else (R(INF) if x.p > 0 else R(Fraction(0)))
    if x.concrete and x.p == 0:
        return R(Fraction(1))
    return app('exp', [x], lambda r, a: [r > 0, (a >= 0) == (r >= 1), (a <= 0) == (r <= 1), r >= 1 + a], math.exp, _mono)


def log(x, name='log', cf=math.log):
    x = R.of(x)
    if is_special(x.p):
        return R(NAN) if x.p != x.p or x.p < 0 else R(INF)
    if bool(x <= 0):
        return R(-INF) if bool(x == 0) else R(NAN)
    if x.concrete and x.p == 1:
        return R(Fraction(0))
    if x.concrete and name == 'log10':
        f = x.p
        for k in range(-30, 31):
            if f == Fraction(10) ** k:
                return R(Fraction(k))
    return app(name, [x], lambda r, a: [(a >= 1) == (r >= 0), (a <= 1) == (r <= 0)], cf, _mono)


def log10(x):
    return log(x, 'log10', math.log10)


def log1p(x):
    return log(R.of(x) + 1)


def expm1(x):
    return exp(x) - 1


def sincos(x):
    x = R.of(x)
    if is_special(x.p):
        return R(NAN), R(NAN)
    if x.concrete and x.p == 0:
        return R(Fraction(0)), R(Fraction(1))
    eng = E()
    p = x.p if x.concrete else z3.simplify(x.p)
    key = ('sincos', _key(p))
    if key in eng.fn_cache:
        return eng.fn_cache[key]
    # sin(-a) = -sin(a): normalise through the cache of the negated argument
    np_ = -p if x.concrete else z3.simplify(-p)
    key2 = ('sincos', _key(np_))
    if key2 in eng.fn_cache:
        s, c = eng.fn_cache[key2]
        eng.fn_cache[key] = (-s, c)
        return -s, c
    s = app('sin', [x], lambda r, a: [z3.Implies(a == 0, r == 0)], math.sin)
    c = app('cos', [x], lambda r, a: [r >= -1, r <= 1, z3.Implies(a == 0, r == 1)], math.cos)
    eng.axiom(zreal(s.p) * zreal(s.p) + zreal(c.p) * zreal(c.p) == 1)
    eng.fn_cache[key] = (s, c)
    return s, c


def sin(x): return sincos(x)[0]
def cos(x): return sincos(x)[1]
def tan(x):
    s, c = sincos(x)
    return div(s, c)


def _bind_sincos(t, s, c):
    """record that sin(t)=s, cos(t)=c"""
    eng = E()
    p = t.p if isinstance(t.p, Fraction) else z3.simplify(t.p)
    eng.fn_cache[('sincos', _key(p))] = (s, c)


def arctan2(y, x):
    y, x = R.of(y), R.of(x)
    if is_special(y.p) or is_special(x.p):
        raise EngineError('arctan2 of special value')
    t = app('arctan2', [y, x], lambda r, a, b: [r >= zreal(-PI.p), r <= zreal(PI.p)], math.atan2)
    h = sqrt(x * x + y * y)
    if bool(h == 0):
        return R(Fraction(0))
    if not isinstance(t.p, Fraction):
        E()
        key = ('bound', _key(t.p))
        eng = E()
        if key not in eng.fn_cache:
            eng.fn_cache[key] = True
            _bind_sincos(t, y / h, x / h)
    return t


def arctan(x):
    return arctan2(x, R(Fraction(1)))


def arccos(x):
    x = R.of(x)
    if is_special(x.p) or bool(x > 1) or bool(x < -1):
        return R(NAN)
    t = app('arccos', [x], lambda r, a: [r >= 0, r <= zreal(PI.p)], math.acos)
    _bind_sincos(t, sqrt(1 - x * x), x)
    return t


def arcsin(x):
    x = R.of(x)
    if is_special(x.p) or bool(x > 1) or bool(x < -1):
        return R(NAN)
    t = app('arcsin', [x], lambda r, a: [r >= zreal(-PI.p / 2), r <= zreal(PI.p / 2)], math.asin)
    _bind_sincos(t, x, sqrt(1 - x * x))
    return t


def tanh(x):
    x = R.of(x)
    if is_special(x.p):
        return R(NAN) if x.p != x.p else R(Fraction(1 if x.p > 0 else -1))
    return app('tanh', [x], lambda r, a: [r > -1, r < 1, (a >= 0) == (r >= 0), (a <= 0) == (r <= 0)], math.tanh, _mono)


def sinh(x):
    return (exp(x) - exp(-R.of(x))) / 2


def cosh(x):
    return (exp(x) + exp(-R.of(x))) / 2


def ufpow(a, b):
    if is_special(a.p) or is_special(b.p):
        raise EngineError('power of special value')
    if bool(a < 0):
        return R(NAN)
    if bool(a == 0):
        if bool(b > 0): return R(Fraction(0))
        if bool(b == 0): return R(Fraction(1))
        return R(INF)
    if a.concrete and a.p == 1:
        return a
    return app('pow', [a, b],
               lambda r, x, s: [r > 0,
                                z3.Implies(s == 1, r == x), z3.Implies(s == 0, r == 1), z3.Implies(x == 1, r == 1),
                                z3.Implies(s == 2, r == x * x), z3.Implies(s == -1, r * x == 1),
                                z3.Implies(z3.And(x >= 1, s >= 0), r >= 1), z3.Implies(z3.And(x <= 1, s >= 0), r <= 1),
                                z3.Implies(z3.And(x >= 1, s <= 0), r <= 1), z3.Implies(z3.And(x <= 1, s <= 0), r >= 1)],
               math.pow)


def _erf(x):
    from math import erf as cf
    return app('erf', [R.of(x)], lambda r, a: [r > -1, r < 1, (a >= 0) == (r >= 0), (a <= 0) == (r <= 0)], cf, _mono)


def _link(name, inv, same):
    """inv is the inverse of the increasing function `name`; same(zs, zs2) = same parameters"""
    eng = E()
    for n1, z1, r1 in eng.ufs:
        if n1 != name: continue
        for n2, z2, r2 in eng.ufs:
            if n2 != inv: continue
            k = ('link', r1.get_id(), r2.get_id())
            if k in eng.fn_cache: continue
            eng.fn_cache[k] = True
            x, y = z1[-1], z2[-1]
            for sg in ((1, -1) if name == 'erf' else (1,)):
                eng.axiom(z3.Implies(same(z1, z2), z3.And((y <= sg * r1) == (r2 <= sg * x), (y >= sg * r1) == (r2 >= sg * x))))


def erf(x):
    r = _erf(x)
    _link('erf', 'erfinv', lambda a, b: z3.BoolVal(True))
    return r


def erfinv(y):
    import scipy.special as sp
    y = R.of(y)
    if is_special(y.p) or bool(y < -1) or bool(y > 1): return R(NAN)
    if bool(y == 1): return R(INF)
    if bool(y == -1): return R(-INF)
    r = app('erfinv', [y], lambda r, a: [(a >= 0) == (r >= 0), (a <= 0) == (r <= 0)], lambda v: float(sp.erfinv(v)), _mono)
    _link('erf', 'erfinv', lambda a, b: z3.BoolVal(True))
    return r


def _monop(r, zs, r2, zs2):
    a, b = zs[1], zs2[1]
    return [z3.Implies(zs[0] == zs2[0], z3.And((a <= b) == (r <= r2), (a >= b) == (r >= r2)))]


def gammainc(a, x):
    import scipy.special as sp
    a, x = R.of(a), R.of(x)
    if is_special(a.p) or is_special(x.p) or bool(a <= 0) or bool(x < 0): return R(NAN)
    r = app('gammainc', [a, x], lambda r, a, x: [r >= 0, r < 1, (x == 0) == (r == 0)], lambda a, x: float(sp.gammainc(a, x)), _monop)
    _link('gammainc', 'gammaincinv', lambda p, q: p[0] == q[0])
    return r


def gammaincinv(a, y):
    import scipy.special as sp
    a, y = R.of(a), R.of(y)
    if is_special(a.p) or is_special(y.p) or bool(a <= 0) or bool(y < 0) or bool(y > 1): return R(NAN)
    if bool(y == 1): return R(INF)
    r = app('gammaincinv', [a, y], lambda r, a, y: [r >= 0, (y == 0) == (r == 0)], lambda a, y: float(sp.gammaincinv(a, y)), _monop)
    _link('gammainc', 'gammaincinv', lambda p, q: p[0] == q[0])
    return r


def unary_uf(name, axioms, cf=None):
    def f(x):
        return app(name, [R.of(x)], axioms, cf)
    return f
