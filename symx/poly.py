"""Decides equalities of the path by rewriting to a normal form of rational functions.

Conditional terms are resolved with the solver against the path condition (or split
into both cases); the rest is a quotient of polynomials whose atoms are variables,
with sqrt(p)^2 = p and sin^2 = 1 - cos^2.  A zero numerator proves the equality;
anything else is left to the solver.
"""
from fractions import Fraction
from .core import z3

MAXMON = 4000


class GiveUp(Exception):
    pass


class Split(Exception):
    def __init__(self, cond): self.cond = cond


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


class Norm:
    def __init__(self, eng, subst, known):
        self.eng, self.known = eng, known
        self.atoms = {}
        self.rules = {}        # atom -> polynomial of atom^2
        self.frac = {}         # atom -> atom^2 as numerator and denominator
        self.cache = {}
        self.sq = {r.get_id(): k for k, r in eng.sqrt_cache.items()}
        self.sin = {}
        for name, zs, r in eng.ufs:
            if name == 'sin': self.sin[r.get_id()] = [r2 for n2, z2, r2 in eng.ufs if n2 == 'cos' and z2[0].eq(zs[0])]
        self.keep = []

    def pmul(self, a, b):
        if len(a) * len(b) > 20 * MAXMON: raise GiveUp()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        if len(r) > MAXMON: raise GiveUp()
        return self.reduce(r)

    def reduce(self, p):
        """atom^2 -> its polynomial"""
        if not self.rules: return p
        for _ in range(12):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in self.rules:
                        hit = a; break
                if hit is not None: break
            if hit is None: return p
            out, todo = {}, {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                if e < 2: out[m] = out.get(m, 0) + c; continue
                rest = tuple((a, x) for a, x in m if a != hit)
                if e % 2: rest = mmul(rest, ((hit, 1),))
                todo.setdefault(e // 2, {}); todo[e // 2][rest] = todo[e // 2].get(rest, 0) + c
            acc = {m: c for m, c in out.items() if c}
            for k, q in todo.items():
                t = q
                for _ in range(k): t = self._pm(t, self.rules[hit])
                acc = padd(acc, t)
            p = acc
            if len(p) > MAXMON: raise GiveUp()
        raise GiveUp()

    def clear(self, p):
        """atom^2 -> its quotient, the polynomial being multiplied by the denominators"""
        for _ in range(12):
            hit = next((a for m in p for a, e in m if e >= 2 and a in self.frac), None)
            if hit is None: return p
            num, den = self.frac[hit]
            J = max(dict(m).get(hit, 0) // 2 for m in p)
            pn, pd = [ONE], [ONE]
            for _ in range(J): pn.append(self._pm(pn[-1], num)); pd.append(self._pm(pd[-1], den))
            acc = {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                rest = tuple((a, x) for a, x in m if a != hit)
                if e % 2: rest = mmul(rest, ((hit, 1),))
                acc = padd(acc, self._pm({rest: c}, self._pm(pn[e // 2], pd[J - e // 2])))
            p = self.reduce(acc)
            if len(p) > MAXMON: raise GiveUp()
        raise GiveUp()

    def _pm(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return r

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = len(self.atoms)
            self.keep.append(e)
            n = self.atoms[i]
            if i in self.sq:
                d = self.eng.sqrt_def[i]
                num, den = self.norm(d)
                if den == ONE: self.rules[n] = num
                else: self.frac[n] = (num, den)
            elif i in self.sin and self.sin[i]:
                c = self.norm(self.sin[i][0])[0]
                self.rules[n] = padd(ONE, self.pmul(c, c), -1)
        return {((self.atoms[i], 1),): Fraction(1)}

    def norm(self, e):
        i = e.get_id()
        if i in self.cache: return self.cache[i]
        r = self._norm(e)
        self.cache[i] = r
        self.keep.append(e)
        return r

    def _norm(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): v} if v else {}), ONE
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return ({(): v} if v else {}), ONE
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            acc = None
            for j, c in enumerate(e.children()):
                n, d = self.norm(c)
                s = -1 if (k == z3.Z3_OP_SUB and j) else 1
                if acc is None: acc = (n, d); continue
                if acc[1] == d: acc = (padd(acc[0], n, s), d)
                else: acc = (padd(self.pmul(acc[0], d), self.pmul(n, acc[1]), s), self.pmul(acc[1], d))
            return acc
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(e.arg(0))
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in e.children():
                a, b = self.norm(c)
                n = self.pmul(n, a)
                d = d if b == ONE else (b if d == ONE else self.pmul(d, b))
            return n, d
        if k == z3.Z3_OP_DIV:
            a, b = self.norm(e.arg(0)), self.norm(e.arg(1))
            if not b[0]: raise GiveUp()
            if len(b[0]) == 1 and () in b[0] and b[1] == ONE:
                f = 1 / b[0][()]
                return {m: c * f for m, c in a[0].items()}, a[1]
            return self.pmul(a[0], b[1]), self.pmul(a[1], b[0])
        if k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) or (k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1))):
            p = e.arg(1)
            p = p.as_long() if z3.is_int_value(p) else Fraction(p.numerator_as_long(), p.denominator_as_long())
            if p != int(p) or not 0 <= p <= 8: raise GiveUp()
            n, d = ONE, ONE
            a = self.norm(e.arg(0))
            for _ in range(int(p)): n, d = self.pmul(n, a[0]), self.pmul(d, a[1])
            return n, d
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(e.arg(0))
        if k == z3.Z3_OP_ITE:
            c = self.truth(e.arg(0))
            return self.norm(e.arg(1) if c else e.arg(2))
        if k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            s = z3.simplify(e)
            if z3.is_int_value(s): return self.norm(s)
            v = self.fixed(s)
            if v is not None: return ({(): Fraction(v)} if v else {}), ONE
            return self.atom(s), ONE
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            return self.atom(e), ONE
        raise GiveUp()

    def fixed(self, e):
        """the value of an integer term when the path determines it"""
        key = ('int', e.get_id())
        if key in self.known: return self.known[key][1]
        asm = [x if b else z3.Not(x) for x, b, f in self.known.values() if f]
        r, m = self.eng._check(*asm) if asm or self.eng.model is None else (z3.sat, self.eng.model)
        v = None
        if r == z3.sat:
            v = m.eval(e, model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else None
            if v is not None and self.eng._check(e != v, *asm)[0] != z3.unsat: v = None
        self.known[key] = (e, v, False)
        return v

    def truth(self, c):
        i = c.get_id()
        if i in self.known: return self.known[i][1]
        s = z3.simplify(c)
        if z3.is_true(s): v = True
        elif z3.is_false(s): v = False
        else:
            r, _ = self.eng._check(z3.Not(c), *[x if b else z3.Not(x) for x, b, f in self.known.values() if f])
            if r == z3.unsat: v = True
            else:
                r, _ = self.eng._check(c, *[x if b else z3.Not(x) for x, b, f in self.known.values() if f])
                if r != z3.unsat: raise Split(c)
                v = False
        self.known[i] = (c, v, False)
        return v


def sides(c):
    """the two sides of a comparison, through a negation"""
    while z3.is_not(c): c = c.arg(0)
    if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(c.arg(0)):
        return c.arg(0), c.arg(1)
    return None


def eliminate(N, n, eq):
    """substitute one atom of the linear equality eq == 0 into n"""
    p, den = N.norm(eq)
    p = {m: c for m, c in p.items() if c}
    for m in sorted(p):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if sum(1 for k in p if a in dict(k)) > 1: continue
            rest = {k: -c / p[m] for k, c in p.items() if k != m}
            out = {}
            for k, c in n.items():
                e = dict(k).get(a, 0)
                t = {tuple(x for x in k if x[0] != a): c}
                for _ in range(e): t = N.pmul(t, rest)
                out = padd(out, t)
            return out
    return n


def is_zero(eng, d, subst, budget=None):
    """True if d == 0 follows on the path"""
    if subst: d = z3.substitute(d, *subst)
    budget = budget if budget is not None else [48]
    return _zero(eng, d, {}, budget, 0, [])


def _zero(eng, d, known, budget, depth, eqs):
    budget[0] -= 1
    if budget[0] < 0 or depth > 8: return False
    try:
        N = Norm(eng, None, known)
        n, den = N.norm(d)
        n = {m: c for m, c in n.items() if c}
        for q in eqs:
            if not n: break
            n = {m: c for m, c in eliminate(N, n, q).items() if c}
        if n and N.frac: n = {m: c for m, c in N.clear(n).items() if c}
        return not n
    except GiveUp:
        return False
    except RecursionError:
        return False
    except Split as s:
        for v in (True, False):
            k = {i: x for i, x in known.items() if not isinstance(i, tuple) or x[1] is not None}
            k[s.cond.get_id()] = (s.cond, v, True)
            asm = [x if b else z3.Not(x) for x, b, f in k.values() if f]
            r, _ = eng._check(*asm)
            if r == z3.unsat: continue
            ab = sides(s.cond)
            q = list(eqs)
            if ab and eng._check(ab[0] != ab[1], *asm)[0] == z3.unsat: q.append(z3.ToReal(ab[0] - ab[1]) if z3.is_int(ab[0]) else ab[0] - ab[1])
            # conditions resolved under the old assumptions stay valid
            if not _zero(eng, d, k, budget, depth + 1, q): return False
        return True
