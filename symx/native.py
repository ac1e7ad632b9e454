"""Native kernels of /repo executed symbolically.

*.f and *.c: gfortran/gcc lower them to GIMPLE (-fdump-tree-gimple, regenerated on
every run) and the GIMPLE statements are interpreted over symbolic scalars; the
f2py calling convention is derived from numpy.f2py.crackfortran on the same file.
*.pyx: the Cython sources are stripped of their static typing and executed as
Python over symbolic arrays (C semantics kept: no negative indices, bounds
violations are errors, float division by zero raises).
"""
import os, re, subprocess, tempfile, types, json
from fractions import Fraction
import numpy as np
from .core import (z3, R, I, B, E, ite, EngineError, frac, sqrt, smax, smin, mkB, _tob, b_and, b_or, b_not, div)
from . import symnp, funcs
from .symnp import SymArray, asym, mk, _raw


class OutOfBounds(Exception):
    """a compiled kernel accessed memory outside one of its arrays"""


class Ptr:
    __slots__ = ('arr', 'off')      # arr: list; off: byte offset (int or I)
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off
    def index(self):
        o = self.off
        if isinstance(o, I):
            o = int(o)
        return o // 8
    def load(self, i=None):
        k = self.index() if i is None else self.index() + int(i)
        if not (0 <= k < len(self.arr)):
            raise OutOfBounds("read at element %d of an array of %d" % (k, len(self.arr)))
        return self.arr[k]
    def store(self, v, i=None):
        k = self.index() if i is None else self.index() + int(i)
        if not (0 <= k < len(self.arr)):
            raise OutOfBounds("write at element %d of an array of %d" % (k, len(self.arr)))
        self.arr[k] = v


_DECL = re.compile(r'^(?:const\s+)?([\w\s\(\)=\*&\[\]:\.]+?)\s*([\*&]?)\s*(?:restrict\s+)?([A-Za-z_][\w\.]*)(\[[^\]]*\])?(?:\s*=\s*\{.*\})?$')


class Func:
    def __init__(self, name, params, body):
        self.name, self.params = name, params
        self.types = {}
        self.arrays = {}
        self.stmts = []
        self.labels = {}
        self._parse(body)

    def _parse(self, body):
        for line in body:
            s = line.strip()
            if not s or s in ('{', '}') or s.startswith(';;'):
                continue
            m = re.match(r'^(<[^>]+>|[\w\.]+):$', s)
            if m:
                self.labels[m.group(1)] = len(self.stmts)
                continue
            if s.startswith('if '):
                m = re.match(r'^if \((.*)\) goto (\S+?);(?: else goto (\S+?);)?$', s)
                if not m:
                    raise EngineError("gimple: cannot parse %r" % s)
                self.stmts.append(('if', self._cond(m.group(1)), m.group(2), m.group(3)))
                continue
            m = re.match(r'^goto (\S+);$', s)
            if m:
                self.stmts.append(('goto', m.group(1)))
                continue
            m = re.match(r'^return(?: (.*))?;$', s)
            if m:
                self.stmts.append(('ret', m.group(1)))
                continue
            if s.startswith('switch'):
                raise EngineError("gimple: switch not supported")
            if ' = ' not in s and re.match(r'^[A-Za-z_][\w\.]* \(.*\);$', s):
                self.stmts.append(('call', None, s[:-1]))
                continue
            if ' = ' in s and not re.match(r'^(static |const )', s):
                if s.endswith(';'):
                    s = s[:-1]
                l, r = s.split(' = ', 1)
                if 'CLOBBER' in r or r.strip() == '{}':
                    continue
                self.stmts.append(('asg', self._lhs(l.strip()), r.strip(), self._compile(r.strip())))
                continue
            if s.endswith(';'):
                d = s[:-1].strip()
                m = re.match(r'^(.*?)\s*([A-Za-z_][\w\.]*)(?:\[(\d+)\])?$', d)
                if m:
                    self.types[m.group(2)] = m.group(1).strip()
                    mm = re.match(r'^(.*)\[0:([^\]]*)\]$', m.group(1).strip())
                    if m.group(3):
                        self.arrays[m.group(2)] = int(m.group(3))
                    elif mm and re.match(r'^\d+$', mm.group(2)):
                        self.arrays[m.group(2)] = int(mm.group(2)) + 1
                    elif re.match(r'^.*\[(\d+)\]$', m.group(1).strip()) and '*' not in d:
                        self.arrays[m.group(2)] = int(re.match(r'^.*\[(\d+)\]$', m.group(1).strip()).group(1))
                    continue
            raise EngineError("gimple: cannot parse %r" % line)

    @staticmethod
    def _cond(t):
        m = re.match(r'^(\S+) (==|!=|<=|>=|<|>|unlt|unle|ungt|unge) (\S+)$', t.strip())
        if not m:
            raise EngineError("gimple condition %r" % t)
        return m.groups()

    @staticmethod
    def _lhs(l):
        m = re.match(r'^\(\*([\w\.]+)\)\[([^\]]+)\]$', l)
        if m: return ('pidx', m.group(1), m.group(2))
        m = re.match(r'^\*([\w\.]+)$', l)
        if m: return ('deref', m.group(1))
        m = re.match(r'^([A-Za-z_][\w\.]*)\[([^\]]+)\]$', l)
        if m: return ('idx', m.group(1), m.group(2))
        if re.match(r'^[A-Za-z_][\w\.]*$', l): return ('var', l)
        raise EngineError("gimple lhs %r" % l)

    def _compile(self, r):
        while r.startswith('((') and r.endswith('))'):
            r = r[2:-2]
        m = re.match(r'^\(([a-z][\w\s]*(?:\(kind=\d+\))?\s*\**)\) (\S+)$', r)
        if m: return ('cast', m.group(1).strip(), m.group(2))
        m = re.match(r'^([A-Z_]+) <(.*)>$', r)
        if m: return ('fn', m.group(1), [x.strip() for x in m.group(2).split(',')])
        m = re.match(r'^([A-Za-z_][\w\.]*) \((.*)\)$', r)
        if m: return ('call', m.group(1), [x.strip() for x in m.group(2).split(',')] if m.group(2) else [])
        m = re.match(r'^(\S+) (\+|-|\*|/|%|&|\||\^|<<|>>|==|!=|<=|>=|<|>) (\S+)$', r)
        if m: return ('bin', m.group(2), m.group(1), m.group(3))
        m = re.match(r'^-([A-Za-z_][\w\.]*)$', r)
        if m: return ('neg', m.group(1))
        m = re.match(r'^~([A-Za-z_][\w\.]*)$', r)
        if m: return ('inv', m.group(1))
        m = re.match(r'^!([A-Za-z_][\w\.]*)$', r)
        if m: return ('not', m.group(1))
        m = re.match(r'^(\S+) \? (\S+) : (\S+)$', r)
        if m: return ('tern', m.group(1), m.group(2), m.group(3))
        m = re.match(r'^([^?]+) \? (\S+) : (\S+)$', r)
        if m: return ('ternc', self._cond(m.group(1)), m.group(2), m.group(3))
        return ('atom', r)


_INTT = ('integer', 'int', 'long', 'unsigned', 'sizetype', 'bitsizetype', 'signed', 'char', 'short', 'size_t', '_Bool', 'logical')


def is_int_type(t):
    return any(w in t for w in _INTT) and 'double' not in t


class Interp:
    """interprets the functions of one translation unit"""
    MAXSTEPS = 400000

    def __init__(self, path):
        self.path = path
        self.funcs = {}
        text = lower(path)
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            m = re.match(r'^(?:[\w\s\(\)=\*]+?[\s\*])?([A-Za-z_]\w*) \((.*)\)$', lines[i])
            if m and i + 1 < len(lines) and lines[i + 1].strip() == '{' and not lines[i].startswith('__attribute__'):
                name, ps = m.group(1), m.group(2)
                params = []
                for p in _splitargs(ps):
                    p = p.strip()
                    if not p or p == 'void':
                        continue
                    nm = re.search(r'([A-Za-z_]\w*)$', p).group(1)
                    params.append((nm, p[:-len(nm)].strip()))
                j = i + 2
                depth = 1
                body = []
                while depth:
                    s = lines[j].strip()
                    if s == '{': depth += 1
                    elif s == '}': depth -= 1
                    if depth: body.append(lines[j])
                    j += 1
                self.funcs[name] = Func(name, params, body)
                i = j
            else:
                i += 1

    def call(self, name, args, byref=False):
        """args: list of Ptr / scalars (C), Ptr for by-reference (Fortran)"""
        f = self.funcs[name]
        if len(args) != len(f.params):
            raise EngineError("%s: %d arguments given, %d expected" % (name, len(args), len(f.params)))
        env = {}
        for (nm, ty), a in zip(f.params, args):
            env[nm] = a
        for nm, n in f.arrays.items():
            zero = 0 if is_int_type(f.types[nm]) else R(Fraction(0))
            env[nm] = Ptr([zero] * n)
        pc = 0
        steps = 0
        while pc < len(f.stmts):
            steps += 1
            if steps > self.MAXSTEPS:
                raise EngineError("gimple step bound")
            st = f.stmts[pc]
            op = st[0]
            if op == 'asg':
                v = self.ev(f, env, st[3])
                self.store(f, env, st[1], v)
            elif op == 'if':
                a, o, b = st[1]
                c = self.cmp(o, self.atom(f, env, a), self.atom(f, env, b))
                tgt = st[2] if bool(c) else st[3]
                if tgt is not None:
                    pc = f.labels[tgt]
                    continue
            elif op == 'goto':
                pc = f.labels[st[1]]
                continue
            elif op == 'ret':
                return None if st[1] is None else self.atom(f, env, st[1])
            elif op == 'call':
                self.ev(f, env, f._compile(st[2]))
            pc += 1
        return None

    def store(self, f, env, l, v):
        if l[0] == 'var':
            t = f.types.get(l[1])
            env[l[1]] = v
        elif l[0] == 'deref':
            env[l[1]].store(v)
        elif l[0] == 'pidx':
            env[l[1]].store(v, self.atom(f, env, l[2]))
        else:
            env[l[1]].store(v, self.atom(f, env, l[2]))

    def atom(self, f, env, t):
        t = t.strip()
        while t.startswith('((') and t.endswith('))'):
            t = t[2:-2]
        if re.match(r'^-?\d+[uUlL]*$', t):
            return int(re.match(r'^-?\d+', t).group(0))
        if re.match(r'^-?(\d+\.\d*|\d*\.\d+|\d+)(e[+-]?\d+)?[fFlL]?$', t):
            return R(Fraction(t.rstrip('fFlL')) if 'e' not in t else frac(float(t.rstrip('fFlL'))) )
        m = re.match(r'^\(\*([\w\.]+)\)\[([^\]]+)\]$', t)
        if m: return env[m.group(1)].load(self.atom(f, env, m.group(2)))
        m = re.match(r'^\*([\w\.]+)$', t)
        if m: return env[m.group(1)].load()
        m = re.match(r'^&([\w\.]+)$', t)
        if m: return env[m.group(1)] if isinstance(env.get(m.group(1)), Ptr) else self._addr(f, env, m.group(1))
        m = re.match(r'^&([\w\.]+)\[([^\]]+)\]$', t)
        if m:
            p = env[m.group(1)]
            return Ptr(p.arr, p.off + 8 * self.atom(f, env, m.group(2)))
        m = re.match(r'^([A-Za-z_][\w\.]*)\[([^\]]+)\]$', t)
        if m: return env[m.group(1)].load(self.atom(f, env, m.group(2)))
        if re.match(r'^[A-Za-z_][\w\.]*$', t):
            if t not in env:
                raise EngineError("gimple: read of undefined %s in %s" % (t, f.name))
            return env[t]
        raise EngineError("gimple operand %r" % t)

    def _addr(self, f, env, n):
        raise EngineError("gimple: address of scalar %s" % n)

    def cmp(self, o, a, b):
        if o == '==': return a == b
        if o == '!=': return a != b
        if o == '<': return a < b
        if o == '<=': return a <= b
        if o == '>': return a > b
        if o == '>=': return a >= b
        return {'unlt': lambda: a < b, 'unle': lambda: a <= b, 'ungt': lambda: a > b, 'unge': lambda: a >= b}[o]()

    def ev(self, f, env, r):
        k = r[0]
        if k == 'atom': return self.atom(f, env, r[1])
        if k == 'bin':
            a, b = self.atom(f, env, r[2]), self.atom(f, env, r[3])
            return self.bin(r[1], a, b)
        if k == 'cast':
            return self.cast(r[1], self.atom(f, env, r[2]))
        if k == 'neg': return -self.atom(f, env, r[1])
        if k == 'inv': return -self.atom(f, env, r[1]) - 1
        if k == 'not': return b_not(_tob(self.atom(f, env, r[1])))
        if k == 'tern': return ite(_tob(self.atom(f, env, r[1])), self.atom(f, env, r[2]), self.atom(f, env, r[3]))
        if k == 'ternc':
            a, o, b = r[1]
            return ite(self.cmp(o, self.atom(f, env, a), self.atom(f, env, b)), self.atom(f, env, r[2]), self.atom(f, env, r[3]))
        if k == 'fn':
            a = [self.atom(f, env, x) for x in r[2]]
            if r[1] == 'MAX_EXPR': return smax(*a)
            if r[1] == 'MIN_EXPR': return smin(*a)
            if r[1] == 'ABS_EXPR': return abs(a[0])
            if r[1] in ('TRUNC_DIV_EXPR',): return self.bin('/', *a)
            if r[1] in ('POINTER_PLUS_EXPR',): return self.bin('+', *a)
            raise EngineError("gimple %s" % r[1])
        if k == 'call':
            name = r[1]
            a = [self.atom(f, env, x) for x in r[2]]
            if name in self.funcs:
                return self.call(name, a)
            n = name.replace('__builtin_', '')
            if n in ('sqrt', 'dsqrt'): return sqrt(a[0])
            if n in ('exp', 'sin', 'cos', 'log', 'log10', 'tan', 'tanh'): return getattr(funcs, n)(a[0])
            if n in ('fabs', 'abs'): return abs(a[0])
            if n in ('floor', 'floorl'): return R.of(R.of(a[0]).floor())
            if n == 'ifloor': return R.of(a[0]).floor()
            if n in ('iceil',): return R.of(a[0]).ceil()
            if n in ('ceil',): return R.of(R.of(a[0]).ceil())
            if n in ('trunc',): return R.of(R.of(a[0]).trunc())
            if n in ('lround', 'iround', 'round'):
                x = R.of(a[0])
                v = ite(x >= 0, (x + Fraction(1, 2)).floor(), (x - Fraction(1, 2)).ceil())
                return v if n != 'round' else R.of(v)
            if n in ('powi', 'pow'): return R.of(a[0]) ** a[1]
            if n in ('fmod',): return symnp._fmod(a[0], a[1])
            if n in ('atan2',): return funcs.arctan2(a[0], a[1])
            if n in ('fmax',): return smax(*a)
            if n in ('fmin',): return smin(*a)
            if n in ('hypot',): return sqrt(a[0] * a[0] + a[1] * a[1])
            if n in ('memset',):
                p, v, nb = a
                for q in range(int(nb) // 8):
                    p.store(R(Fraction(0)), q)
                return p
            raise EngineError("gimple call %s" % name)
        raise EngineError("gimple rhs %r" % (r,))

    def bin(self, o, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == '+':
                p, k = (a, b) if isinstance(a, Ptr) else (b, a)
                return Ptr(p.arr, p.off + k)
            if o == '-' and not isinstance(b, Ptr):
                return Ptr(a.arr, a.off - b)
            raise EngineError("pointer arithmetic %s" % o)
        if o == '+': return a + b
        if o == '-': return a - b
        if o == '*': return a * b
        if o == '/':
            if isinstance(a, (R,)) or isinstance(b, (R,)):
                return div(R.of(a), R.of(b))
            if not isinstance(a, I) and not isinstance(b, I):
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            q = abs(a) // abs(b)
            return ite(b_or(b_and(a >= 0, b >= 0), b_and(a < 0, b < 0)), q, -q)
        if o == '%':
            return a - b * self.bin('/', a, b)
        if o in ('&', '|', '^'):
            if isinstance(a, (B, bool)) or isinstance(b, (B, bool)) or (a in (0, 1) and b in (0, 1)):
                a, b = _tob(a), _tob(b)
                return b_and(a, b) if o == '&' else (b_or(a, b) if o == '|' else symnp._xor(a, b))
            if not isinstance(a, I) and not isinstance(b, I):
                return {'&': a & b, '|': a | b, '^': a ^ b}[o]
            raise EngineError("bit operation on symbolic int")
        if o in ('<<', '>>'):
            return a * 2 ** int(b) if o == '<<' else a // 2 ** int(b)
        return self.cmp(o, a, b)

    def cast(self, t, v):
        if isinstance(v, Ptr): return v
        if is_int_type(t):
            if t.startswith('logical') or t == '_Bool':
                return _tob(v)
            if isinstance(v, R): return v.trunc()
            if isinstance(v, B): return v._i()
            if isinstance(v, bool): return int(v)
            return v
        return R.of(v)


def _splitargs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([': d += 1
        if ch in ')]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def lower(path):
    """GIMPLE text of a Fortran or C file"""
    with tempfile.TemporaryDirectory() as d:
        base = os.path.basename(path)
        cmd = ['gfortran' if base.endswith(('.f', '.f90')) else 'gcc', '-O0', '-fdump-tree-gimple', '-c', path, '-o', os.path.join(d, 'x.o'),
               '-dumpdir', d + '/', '-I', os.path.dirname(path)]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
        if p.returncode:
            raise EngineError("cannot compile %s: %s" % (path, p.stderr[-500:]))
        fs = [f for f in os.listdir(d) if f.endswith('.gimple')]
        if not fs:
            raise EngineError("no gimple for %s" % path)
        return open(os.path.join(d, fs[0])).read()


_CRACK = {}


def crack(path):
    if path not in _CRACK:
        from numpy.f2py import crackfortran as cf
        cf.verbose = 0
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            _CRACK[path] = cf.crackfortran([path])
    return _CRACK[path]


_INTERP = {}


def interp(path):
    if path not in _INTERP:
        _INTERP[path] = Interp(path)
    return _INTERP[path]


class F2pyError(Exception):
    pass


def fortran_module(path, name):
    """a module object with the f2py functions of a Fortran file"""
    m = types.ModuleType(name)
    m.__symx_source__ = path
    for b in crack(path):
        if b['block'] not in ('subroutine', 'function'):
            continue
        setattr(m, b['name'], _f2py_function(path, b))
    return m


def _f2py_function(path, b):
    args, V = b['args'], b['vars']
    def intents(a):
        return set(V[a].get('intent', ['in']))
    def optional(a):
        return 'optional' in V[a].get('attrspec', []) or '=' in V[a]
    def hidden(a):
        it = intents(a)
        return ('out' in it and 'in' not in it and 'inout' not in it) or 'hide' in it
    req = [a for a in args if not hidden(a) and not optional(a)]
    opt = [a for a in args if not hidden(a) and optional(a)]
    order = req + opt
    fname = b['name']

    def f(*pos, **kw):
        if len(pos) > len(order):
            raise TypeError("%s() takes at most %d arguments" % (fname, len(order)))
        given = dict(zip(order, pos))
        for k, v in kw.items():
            k = k.lower()
            if k not in order: raise TypeError("unexpected keyword %r" % k)
            given[k] = v
        for a in req:
            if a not in given: raise TypeError("missing argument %r" % a)
        vals, back = {}, []
        # scalars with defaults depend on arrays: first arrays
        arrs = {}
        for a in args:
            v = V[a]
            if 'dimension' in v and a in given:
                x = given[a]
                isint = v['typespec'] == 'integer'
                if not isinstance(x, np.ndarray):
                    x = asym(x)
                x = asym(x) if not isinstance(x, SymArray) else x
                if 'inout' in intents(a):
                    if not isinstance(given[a], SymArray) or given[a].kind != ('i' if isint else 'f'):
                        raise F2pyError("failed in converting %s: intent(inout) array must have the right type" % a)
                    if not given[a].flags.c_contiguous and not given[a].flags.f_contiguous:
                        raise F2pyError("intent(inout) array must be contiguous")
                nd = len(v['dimension'])
                if x.ndim == 0:
                    x = x.reshape((1,) * nd)
                if x.ndim < nd:
                    x = x.reshape(x.shape + (1,) * (nd - x.ndim))
                if x.ndim > nd:
                    # f2py accepts extra dimensions of length one / flattens
                    x = x.reshape(x.shape[:nd - 1] + (-1,))
                arrs[a] = x
        def shape(n, i):
            return arrs[n.lower()].shape[i]
        env = {'shape': shape, 'len': lambda n: arrs[n.lower()].shape[0], 'size': lambda n: arrs[n.lower()].size}
        class _N(dict):
            def __missing__(self, k): return k.lower()
        for a in b.get('sortvars', args):
            if a not in args: continue
            v = V[a]
            if 'dimension' in v: continue
            if hidden(a):
                vals[a] = Ptr([R(Fraction(0))])
                continue
            if a in given:
                x = given[a]
                x = x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x
                x = symnp.cast_scalar(x, 'i' if v['typespec'] == 'integer' else 'f')
            else:
                ns = {k: k for k in arrs}
                ns.update(env)
                for k, pv in vals.items():
                    ns[k] = pv.arr[0]
                x = eval(v['='], {}, _NS(ns))
            if v['typespec'] == 'integer' and isinstance(x, I):
                x = int(x)
            vals[a] = Ptr([x])
            for chk in v.get('check', []):
                ns = {k: k for k in arrs}; ns.update(env); ns.update({k: pv.arr[0] for k, pv in vals.items()})
                if not eval(chk, {}, _NS(ns)):
                    raise F2pyError("(%s) failed for argument %s" % (chk, a))
        sources = set(m for v in V.values() if '=' in v for m in re.findall(r'shape\(\s*(\w+)', str(v['='])))
        ns = {k: (int(p.arr[0]) if isinstance(p.arr[0], (int, I)) else p.arr[0]) for k, p in vals.items()}
        for a in args:
            v = V[a]
            if 'dimension' not in v: continue
            dims = [eval(str(d), {}, _NS(dict(ns))) for d in v['dimension']]
            if hidden(a):
                n = 1
                for d in dims: n *= max(int(d), 0)
                zero = 0 if v['typespec'] == 'integer' else R(Fraction(0))
                vals[a] = Ptr([zero] * n)
                continue
            x = arrs[a]
            n = 1
            for d in dims: n *= int(d)
            if x.size == 0 and a not in sources:
                raise ValueError("unexpected array size: new_size=1, got array with arr_size=0")
            if x.ndim == 1 and len(dims) == 1:
                if x.shape[0] < n:
                    raise F2pyError("0-th dimension must be fixed to %d but got %d" % (n, x.shape[0]))
            elif tuple(x.shape) != tuple(dims):
                raise F2pyError("shape mismatch for %s" % a)
            k = 'i' if v['typespec'] == 'integer' else 'f'
            flat = [symnp.cast_scalar(t, k) for t in np.asarray(_raw(x)).reshape(-1, order='F')]
            vals[a] = Ptr(flat)
            if 'inout' in intents(a):
                back.append((a, given[a], x.shape))
        interp(path).call(fname, [vals[a] for a in args])
        for a, dst, shp in back:
            dst[...] = mk(_objarr(vals[a].arr).reshape(shp, order='F'), dst.kind)
        outs = []
        for a in args:
            if 'out' in intents(a):
                v = V[a]
                if 'dimension' in v:
                    dims = [int(eval(str(d), {}, _NS(dict(ns)))) for d in v['dimension']]
                    outs.append(mk(_objarr(vals[a].arr).reshape(dims, order='F'), 'i' if v['typespec'] == 'integer' else 'f'))
                else:
                    outs.append(vals[a].arr[0])
        if not outs: return None
        return outs[0] if len(outs) == 1 else tuple(outs)
    f.__name__ = fname
    return f


class _NS(dict):
    def __init__(self, d):
        dict.__init__(self, d)


def _objarr(lst):
    o = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        o[i] = v
    return o


def c_function(path, name):
    def f(*args):
        conv = []
        back = []
        for a in args:
            if isinstance(a, SymArray):
                if not a.flags.c_contiguous:
                    raise EngineError("non-contiguous array passed to C")
                if a.kind == 'i' :
                    raise EngineError("integer array data passed as double*")
                p = Ptr(list(_raw(a).reshape(-1)))
                conv.append(p); back.append((a, p))
            elif isinstance(a, bool):
                conv.append(int(a))
            else:
                conv.append(a)
        interp_ = interp(path)
        fn = interp_.funcs[name]
        for k, ((nm, ty), a) in enumerate(zip(fn.params, conv)):
            if not isinstance(a, Ptr):
                conv[k] = symnp.cast_scalar(a, 'i' if is_int_type(ty) else 'f')
        # aliasing arrays share storage
        seen = {}
        for k, (a, p) in enumerate(back):
            key = a.__array_interface__['data'][0], a.size
            if key in seen and a.size:
                p.arr = seen[key]
            else:
                seen[key] = p.arr
        interp_.call(name, conv)
        for a, p in back:
            a[...] = mk(_objarr(p.arr).reshape(a.shape), a.kind)
    return f


# ---------------------------------------------------------------- Cython ----
class CArr:
    pass


def _strip_arg(a):
    a = a.strip()
    if '=' in a:
        l, r = a.split('=', 1)
        return l.strip().split()[-1].lstrip('*') + '=' + r.strip()
    return re.split(r'[\s\*\]]', a)[-1]


def _split_top(s):
    return [x for x in _splitargs(s) if x.strip()]


def pyx_to_py(src):
    # join continuation lines inside parentheses
    out = []
    lines = src.split('\n')
    i = 0
    logical = []
    while i < len(lines):
        l = re.sub(r'(^|\s)#.*$', '', lines[i])
        d = l.count('(') + l.count('[') + l.count('{') - l.count(')') - l.count(']') - l.count('}')
        while d > 0 and i + 1 < len(lines):
            i += 1
            nl = re.sub(r'(^|\s)#.*$', '', lines[i])
            l = l.rstrip() + ' ' + nl.strip()
            d = l.count('(') + l.count('[') + l.count('{') - l.count(')') - l.count(']') - l.count('}')
        logical.append(l)
        i += 1
    ints = set()
    types = {}
    for l in logical:
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if not s:
            out.append(''); continue
        if s.startswith(('cimport ', 'ctypedef ', '@cython', 'cdef extern')) or re.match(r'^from .* cimport', s):
            m = re.match(r'^from libc\.math cimport (.*)$', s)
            if m: out.append(ind + 'from math import ' + m.group(1))
            elif re.match(r'^from libc', s): pass
            continue
        if re.match(r'^with (nogil|parallel|gil)', s):
            out.append(ind + 'if True:'); continue
        m = re.match(r'^(?:cpdef|cdef|def)\s+(.*?)([A-Za-z_]\w*)\s*\((.*)\)\s*(?:nogil|noexcept|except.*|->.*)*\s*:\s*$', s)
        if m and not (s.startswith('cdef') and '=' in m.group(1)):
            args = [_strip_arg(a) for a in _split_top(m.group(3))]
            out.append(ind + 'def %s(%s):' % (m.group(2), ', '.join(args)))
            conv = []
            for a in _split_top(m.group(3)):
                if re.match(r'^\s*(int|long|Py_ssize_t|size_t|INT_t)\s+\w+', a.strip()):
                    n = _strip_arg(a).split('=')[0]
                    conv.append(ind + '    %s = __cint(%s)' % (n, n))
                elif re.match(r'^\s*(double|DOUBLE_t|float)\s+\w+', a.strip()):
                    n = _strip_arg(a).split('=')[0]
                    conv.append(ind + '    %s = __cdbl(%s)' % (n, n))
                elif '[' in a:
                    n = _strip_arg(a).split('=')[0]
                    conv.append(ind + '    %s = __carr(%s)' % (n, n))
            out.extend(conv)
            continue
        if s.startswith('cdef '):
            body = s[5:].strip()
            body = re.sub(r'^(readonly|public|inline)\s+', '', body)
            m = re.match(r'^((?:unsigned |long |short |np\.)*[A-Za-z_][\w\.]*(?:\[[^\]]*\])?\s*\**)\s*(.*)$', body)
            ty, rest = m.group(1), m.group(2)
            isint = ty.strip() in ('int', 'long', 'INT_t', 'Py_ssize_t', 'size_t', 'unsigned int', 'np.intp_t', 'long long', 'bint')
            isarr = '[' in ty
            emitted = False
            for part in _split_top(rest):
                if '=' in part:
                    n, v = part.split('=', 1)
                    n = n.strip().lstrip('*').strip()
                    v = _fix_expr(v.strip())
                    if isarr: v = '__carr(%s)' % v
                    elif isint: v = '__cint(%s)' % v
                    out.append(ind + '%s = %s' % (n, v)); emitted = True
                if isint:
                    ints.add(part.split('=')[0].strip())
            if not emitted:
                out.append(ind + 'pass')
            continue
        out.append(ind + _fix_expr(s))
    return '\n'.join(out)


def _fix_expr(s):
    s = re.sub(r'<\s*[A-Za-z_][\w\s\.]*\*\s*>\s*', '', s)
    s = re.sub(r'<\s*(int|long)\s*>\s*', '__cint ', s) if re.search(r'<\s*(int|long)\s*>', s) else s
    s = re.sub(r'<\s*double\s*>\s*', '', s)
    s = re.sub(r'&([A-Za-z_]\w*)\[0\]', r'\1', s)
    s = re.sub(r'\bxrange\b', 'range', s)
    s = re.sub(r'\bprange\(([^)]*)\)', lambda m: 'range(%s)' % ','.join(x for x in m.group(1).split(',') if '=' not in x), s)
    s = re.sub(r'(\b[A-Za-z_]\w*)\.data\b', r'\1', s)
    return s


class CView:
    """array seen from Cython with boundscheck/wraparound off: any index outside is an error"""
    __slots__ = ('a',)
    def __init__(self, a): self.a = a
    def _ix(self, i):
        n = self.a.shape
        if isinstance(i, tuple):
            r = tuple(int(v) for v in i)
            for v, s in zip(r, n):
                if not 0 <= v < s: raise OutOfBounds("index %d outside array of %d" % (v, s))
            return r
        if isinstance(i, slice):
            return i
        k = int(i)
        if not 0 <= k < n[0]:
            raise OutOfBounds("index %d outside array of %d" % (k, n[0]))
        return k
    def __getitem__(self, i): return self.a[self._ix(i)]
    def __setitem__(self, i, v): self.a[self._ix(i)] = v
    def __len__(self): return len(self.a)
    @property
    def shape(self): return self.a.shape
    @property
    def size(self): return self.a.size
    def copy(self): return self.a.copy()
    def __getattr__(self, n): return getattr(self.a, n)


def carr(x):
    if isinstance(x, CView): return x
    if x is None: return None
    x = asym(x) if not isinstance(x, SymArray) else x
    return CView(x)


def uncview(x):
    if isinstance(x, CView): return x.a
    if isinstance(x, tuple): return tuple(uncview(v) for v in x)
    return x
