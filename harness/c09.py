from symx.harness import harness
from .common import *

FUNCTIONS = ['boris_step.boris_step (Fortran)', 'boris_c_function.boris_c (C)', 'boris_cython.boris_step_multipole', 'dynamics_Boris_f2py.pusher_Boris.step / stepcustomDt, B_none, B_quad, B_file',
             'dynamics_Boris_multipole.pusher_Boris_multipole']
BOUNDS = ['1 or 2 particles, up to 3 sub-steps (position-dependent fields: up to 2), multipole orders up to 4; positions, velocities, fields, coefficients, charge, mass > 0 and time step arbitrary reals',
          'field map of 3 x 2 nodes with arbitrary node values (particle inside or outside the map)']
ASSUMPTIONS = ['Exact real arithmetic: rounding of the trackers is outside the claim.', 'E_z is zero at the caller level (the trackers reject anything else).']


def dot(env, a, b): return env.sum([p * q for p, q in zip(a, b)])


def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def boris_eq(env, v0, v1, E, B, qm, dt, label):
    """the defining relation (v1-v0)/dt = q/m (E + (v0+v1)/2 x B)"""
    vm = tuple((a + b) / 2 for a, b in zip(v0, v1))
    c = cross(vm, B)
    for k, n in enumerate('xyz'):
        env.eq(v1[k] - v0[k], qm * dt * (E[k] + c[k]), '%s: v%s obeys the Boris relation' % (label, n))


def vec(env, name, lo=None, hi=None): return tuple(env.real(name + k, lo, hi) for k in 'xyz')


def ref_step(env, x, v, E, B, qm, dt):
    """one Boris step written from its definition (half kick, rotation, half kick, drift)"""
    t = tuple(qm * dt / 2 * b for b in B)
    vm = tuple(a + qm * dt / 2 * e for a, e in zip(v, E))
    t2 = dot(env, t, t)
    # rotation: vp = ((1-t2) vm + 2 (vm.t) t + 2 vm x t) / (1+t2)
    c = cross(vm, t)
    d = dot(env, vm, t)
    vp = tuple(((1 - t2) * vm[k] + 2 * d * t[k] + 2 * c[k]) / (1 + t2) for k in range(3))
    w = tuple(a + qm * dt / 2 * e for a, e in zip(vp, E))
    return tuple(a + b * dt for a, b in zip(x, w)), w


def state(env, mp, n, pre='', vals=None):
    for i in range(n):
        for f in FIELDS[:6]:
            getattr(mp, f)[i] = env.real('%s%s%d' % (pre, f, i))
    mp.N_mp = n


def at(mp, i): return (mp.x_mp[i], mp.y_mp[i], mp.z_mp[i]), (mp.vx_mp[i], mp.vy_mp[i], mp.vz_mp[i])


@harness('C09', [dict(n=1), dict(n=2)], [dict(n=1), dict(n=2), dict(n=3)])
def kernel_fortran(env, n):
    """boris_step: defining relation, drift with the new velocity, no magnetic work, constant acceleration without B"""
    f = env.mod('boris_step').boris_step
    q, m, dt = env.real('q'), env.real('m', slo=0), env.real('dt')
    X = [vec(env, 'r%d' % i) for i in range(n)]; V = [vec(env, 'v%d' % i) for i in range(n)]
    Es = [vec(env, 'E%d' % i) for i in range(n)]; Bs = [vec(env, 'B%d' % i) for i in range(n)]
    A = lambda L: [env.array([l[k] for l in L], 'f') for k in range(3)]
    x, v = A(X), A(V)
    f(dt, *x, *v, *A(Es), *A(Bs), m, q)
    for i in range(n):
        v1 = tuple(c[i] for c in v)
        boris_eq(env, V[i], v1, Es[i], Bs[i], q / m, dt, 'Fortran tracker')
        for k in range(3):
            env.eq(x[k][i], X[i][k] + v1[k] * dt, 'Fortran tracker: position advances with the new velocity')


@harness('C09', [dict(kind=k) for k in ('B', 'E')])
def kernel_energy(env, kind):
    f = env.mod('boris_step').boris_step
    q, m, dt = env.real('q'), env.real('m', slo=0), env.real('dt')
    X, V, F = vec(env, 'r'), vec(env, 'v'), vec(env, 'F')
    A = lambda l: [env.array([c], 'f') for c in l]
    x, v = A(X), A(V)
    zero = (env.q(0),) * 3
    f(dt, *x, *v, *A(zero if kind == 'B' else F), *A(F if kind == 'B' else zero), m, q)
    v1 = tuple(c[0] for c in v)
    if kind == 'B':
        env.eq(dot(env, v1, v1), dot(env, V, V), 'a magnetic field alone does not change the kinetic energy')
    else:
        for k in range(3):
            env.eq(v1[k], V[k] + q / m * F[k] * dt, 'an electric field alone gives the constant-acceleration momentum change')
            env.eq(x[k][0], X[k] + v1[k] * dt, 'position advances with the new velocity')


def pusher(env, which, Dt, N, B0, order=1, coef=None, skew=None, fact=None):
    if which == 'f2py':
        return env.mod('dynamics_Boris_f2py').pusher_Boris(Dt, B0[0], B0[1], B0[2], None, None, N_sub_steps=N)
    if which == 'quad':
        return env.mod('dynamics_Boris_f2py').pusher_Boris(Dt, B0[0], B0[1], B0[2], 'analytic_qaudrupole_unit_grad', fact, N_sub_steps=N)
    return env.mod('dynamics_Boris_multipole').pusher_Boris_multipole(Dt, N_sub_steps=N, B_multip=coef, B_skew=skew, B0x=B0[0], B0y=B0[1], B0z=B0[2])


def run(env, p, mp, Ex, Ey, custom, Dt, N, dtk='step', **kw):
    if custom: p.stepcustomDt(mp, Ex, Ey, Dt_substep=Dt / N, N_sub_steps=N, **kw)
    else: p.step(mp, Ex, Ey, **kw)


@harness('C09', [dict(which=w, N=N, n=n, custom=c) for w in ('f2py', 'mult') for N, n, c in ((1, 2, False), (2, 1, False), (2, 1, True), (3, 1, True))],
         [dict(which=w, N=N, n=n, custom=c) for w in ('f2py', 'mult') for N in (1, 2, 3) for n in (1, 2) for c in (False, True)])
def uniform(env, which, N, n, custom):
    """uniform field: every sub-step is a Boris step with the same sub-step length, N of them"""
    if N == 1:
        Dt, q, m = env.real('Dt'), env.real('q'), env.real('m', slo=0)
        B0 = vec(env, 'B')
    else:
        Dt, q, m = env.q(1, 2), env.q(-3, 2), env.q(3)
        B0 = (env.q(1, 2), env.q(-1), env.q(2))
    mp = make_mp(env, n + 1, True, charge=q, mass=m)
    state(env, mp, n)
    mp.x_mp[n], mp.vx_mp[n] = 7., 5.
    old = [at(mp, i) for i in range(n)]
    Ex, Ey = env.reals('Ex', n), env.reals('Ey', n)
    p = pusher(env, which, 1 if custom else Dt, 1 if custom else N, B0)
    run(env, p, mp, Ex, Ey, custom, Dt, N)
    env.check(mp.N_mp == n and bool(mp.x_mp[n] == 7.) and bool(mp.vx_mp[n] == 5.), 'only stored particles are moved')
    for i in range(n):
        x, v = old[i]
        if N == 1:
            x1, v1 = at(mp, i)
            boris_eq(env, v, v1, (Ex[i], Ey[i], 0), B0, q / m, Dt, 'tracker')
            for k in range(3): env.eq(x1[k], x[k] + v1[k] * Dt, 'position advances with the new velocity')
        else:
            for s in range(N): x, v = ref_step(env, x, v, (Ex[i], Ey[i], 0), B0, q / m, Dt / N)
            x1, v1 = at(mp, i)
            for k in range(3):
                env.eq(v1[k], v[k], 'velocity after all sub-steps')
                env.eq(x1[k], x[k], 'position after all sub-steps')


@harness('C09', [dict(which=w, N=N, custom=c) for w in ('f2py', 'mult', 'quad') for N, c in ((1, False), (2, True), (3, False))],
         [dict(which=w, N=N, custom=c) for w in ('f2py', 'mult', 'quad') for N in (1, 2, 3, 4, 5) for c in (False, True)])
def drift_and_kick(env, which, N, custom):
    """no magnetic field: N sub-steps of Dt/N give the momentum change of Dt, and a free particle drifts for Dt"""
    Dt, q, m = env.real('Dt'), env.real('q'), env.real('m', slo=0)
    mp = make_mp(env, 3, True, charge=q, mass=m)
    state(env, mp, 2)
    old = [at(mp, i) for i in range(2)]
    Ex = env.array([env.real('Ex'), 0.], 'f'); Ey = env.array([env.real('Ey'), 0.], 'f')
    z = (env.q(0),) * 3
    p = pusher(env, which, 1 if custom else Dt, 1 if custom else N, z, fact=env.q(0))
    run(env, p, mp, Ex, Ey, custom, Dt, N)
    for i in range(2):
        x, v = old[i]; x1, v1 = at(mp, i)
        E = (Ex[i], Ey[i], 0)
        h = Dt / N
        for k in range(3):
            env.eq(v1[k], v[k] + q / m * E[k] * Dt, 'momentum change of an electric field over the whole step')
            env.eq(x1[k], x[k] + v[k] * Dt + q / m * E[k] * h * h * (N * (N + 1) // 2), 'distance covered over the whole step')


@harness('C09', [dict(which=w, N=N) for w in ('f2py', 'mult') for N in (1, 2)] + [dict(which='quad', N=1)], [dict(which=w, N=N) for w in ('f2py', 'mult') for N in (1, 2, 3)] + [dict(which='quad', N=1)])
def no_magnetic_work(env, which, N):
    Dt, q, m = env.real('Dt'), env.real('q'), env.real('m', slo=0)
    B0 = vec(env, 'B')
    if N > 2: Dt, q, m, B0 = env.q(1, 2), env.q(-3), env.q(2), (env.q(1, 2), env.q(-1), env.real('Bz'))
    mp = make_mp(env, 2, True, charge=q, mass=m)
    state(env, mp, 1)
    v = at(mp, 0)[1]
    p = pusher(env, which, Dt, N, B0, fact=env.real('k'))
    z = env.array([0.], 'f')
    run(env, p, mp, z, z, False, Dt, N)
    v1 = at(mp, 0)[1]
    env.eq(dot(env, v1, v1), dot(env, v, v), 'a magnetic field alone does not change the kinetic energy')


def multipole_B(env, coef, skew, x, y):
    """By + i Bx ... = sum (k_n + i k'_n)(x+iy)^n / n!, with By the normal and Bx the skew direction"""
    By = Bx = 0
    re, im = 1, 0
    fact = 1
    for n, c in enumerate(coef):
        if n:
            re, im = re * x - im * y, re * y + im * x
            fact *= n
        s = skew[n] if skew is not None else 0
        By = By + (c * re - s * im) / fact
        Bx = Bx + (c * im + s * re) / fact
    return Bx, By


@harness('C09', [dict(order=o, skew=True, n=1) for o in (1, 2, 3, 4)] + [dict(order=3, skew=False, n=2)],
         [dict(order=o, skew=s, n=n) for o in (1, 2, 3, 4, 5) for s in (True, False) for n in (1, 2)])
def multipoles(env, order, skew, n):
    """the multipole tracker's field is the one of its normal and skew coefficients (position, coefficients and velocity along the axis arbitrary)"""
    Dt, q, m = env.q(1, 2), env.q(-1), env.q(1)
    coef = [env.real('k%d' % i) for i in range(order)]; sk = [env.real('s%d' % i) for i in range(order)] if skew else None
    mp = make_mp(env, n, True, charge=q, mass=m)
    for i in range(n):
        mp.x_mp[i], mp.y_mp[i], mp.vz_mp[i] = env.real('x%d' % i), env.real('y%d' % i), env.real('vz%d' % i)
    mp.N_mp = n
    old = [at(mp, i) for i in range(n)]
    z = env.array([0.] * n, 'f')
    p = pusher(env, 'mult', Dt, 1, (None, None, None), coef=coef, skew=sk)
    p.step(mp, z, z)
    for i in range(n):
        (x, y, _), v = old[i]
        Bx, By = multipole_B(env, coef, sk, x, y)
        x1, v1 = at(mp, i)
        # with v = (0, 0, vz) and the half-angle vector t: v1 = v + 2 (v + v x t) x t / (1 + t^2)
        tx, ty = q / m * Dt / 2 * Bx, q / m * Dt / 2 * By
        den = 1 + tx * tx + ty * ty
        env.eq(v1[0] * den, -2 * v[2] * ty, 'multipole field: horizontal kick')
        env.eq(v1[1] * den, 2 * v[2] * tx, 'multipole field: vertical kick')
        env.eq(v1[2] * den, v[2] * (1 - tx * tx - ty * ty), 'multipole field: longitudinal velocity')
        for k in range(3): env.eq(x1[k], old[i][0][k] + v1[k] * Dt, 'position advances with the new velocity')


@harness('C09', [dict(order=o, n=n) for o, n in ((0, 1), (1, 1), (2, 2), (3, 1))], [dict(order=o, n=n) for o in (0, 1, 2, 3, 4) for n in (1, 2)])
def multipole_sum(env, order, n):
    """uniform, given and multipole fields add up (numeric coefficients and position, everything else arbitrary)"""
    Dt, q, m = env.q(1, 2), env.q(-2), env.q(1)
    coef = [env.q(1, 2), env.q(1), env.q(2), env.q(-1)][:order]; sk = [env.q(0), env.q(-1, 2), env.q(1), env.q(1)][:order]
    B0 = vec(env, 'B'); Bn = [vec(env, 'b%d' % i) for i in range(n)]
    mp = make_mp(env, n, True, charge=q, mass=m)
    state(env, mp, n)
    for i in range(n): mp.x_mp[i], mp.y_mp[i] = env.q(i + 1, 2), env.q(-1, 3)
    old = [at(mp, i) for i in range(n)]
    Ex, Ey = env.reals('Ex', n), env.reals('Ey', n)
    p = pusher(env, 'mult', Dt, 1, B0, coef=coef if order else None, skew=sk if order else None)
    p.step(mp, Ex, Ey, Bx_n=env.array([b[0] for b in Bn], 'f'), By_n=env.array([b[1] for b in Bn], 'f'), Bz_n=env.array([b[2] for b in Bn], 'f'))
    for i in range(n):
        (x, y, z), v = old[i]
        Bx, By = multipole_B(env, coef, sk, x, y)
        B = (Bx + B0[0] + Bn[i][0], By + B0[1] + Bn[i][1], B0[2] + Bn[i][2])
        x1, v1 = at(mp, i)
        boris_eq(env, v, v1, (Ex[i], Ey[i], 0), B, q / m, Dt, 'multipole, uniform and given field')
        for k, c in enumerate((x, y, z)): env.eq(x1[k], c + v1[k] * Dt, 'position advances with the new velocity')


@harness('C09', [dict(order=o, N=N, sym=k) for o, N in ((1, 3), (2, 2), (3, 2)) for k in ('x', 'y', 'vz', 'Ex')],
         [dict(order=o, N=N, sym=k) for o in (1, 2, 3, 4) for N in (1, 2, 3) for k in ('x', 'y', 'vz', 'Ex') if o * N <= 6])
def multipole_substeps(env, order, N, sym):
    """the field is taken anew at the position reached by each sub-step (numeric coefficients, one quantity arbitrary)"""
    Dt, q, m = env.q(1, 2), env.q(-1), env.q(1)
    coef = [env.q(1, 2), env.q(1), env.q(2), env.q(-1)][:order]; sk = [env.q(0), env.q(-1, 2), env.q(1), env.q(1)][:order]
    mp = make_mp(env, 1, True, charge=q, mass=m)
    val = lambda n, a, b: env.real(n) if n == sym else env.q(a, b)
    x, y = val('x', 1, 2), val('y', -1, 3)
    v = (env.q(0), env.q(0), val('vz', 2, 1))
    mp.x_mp[0], mp.y_mp[0] = x, y
    mp.vx_mp[0], mp.vy_mp[0], mp.vz_mp[0] = v
    mp.N_mp = 1
    p = pusher(env, 'mult', Dt, N, (None, None, None), coef=coef, skew=sk)
    Ex = env.array([val('Ex', 1, 3)], 'f'); z = env.array([0.], 'f')
    p.step(mp, Ex, z)
    r = (x, y, env.q(0))
    for s in range(N):
        B = multipole_B(env, coef, sk, r[0], r[1])
        r, v = ref_step(env, r, v, (Ex[0], 0, 0), (B[0], B[1], 0), q / m, Dt / N)
    r1, v1 = at(mp, 0)
    for k in range(3):
        env.eq(r1[k], r[k], 'position after the sub-steps')
        env.eq(v1[k], v[k], 'velocity after the sub-steps')


@harness('C09', [dict(n=1), dict(n=2)])
def quad_agrees(env, n):
    """analytic quadrupole and multipole tracker with the same gradient move particles alike"""
    Dt, q, m, k = env.real('Dt'), env.real('q'), env.real('m', slo=0), env.real('k')
    B0 = vec(env, 'B')
    res = []
    Ex, Ey = env.reals('Ex', n), env.reals('Ey', n)
    for w in ('quad', 'mult'):
        mp = make_mp(env, n, True, charge=q, mass=m)
        for i in range(n):
            for f in FIELDS[:6]:
                getattr(mp, f)[i] = env.real('%s%d' % (f, i))
        mp.N_mp = n
        p = pusher(env, w, Dt, 1, B0, coef=[env.q(0), k], fact=k)
        p.step(mp, Ex, Ey)
        res.append([at(mp, i) for i in range(n)])
    for a, b in zip(*res):
        for j in range(3):
            env.eq(a[0][j], b[0][j], 'same position from both compiled trackers')
            env.eq(a[1][j], b[1][j], 'same velocity from both compiled trackers')


def hat(env, u):
    return env.If(abs(u) >= 1, 0, 1 - abs(u))


@harness('C09', [dict(hasz=True), dict(hasz=False)])
def field_map(env, hasz):
    """B map from file: interpolated, rescaled once, plus the uniform field"""
    nx, ny = 3, 2
    comp = ('Bx', 'By', 'Bz') if hasz else ('Bx', 'By')
    d = {c: env.array([[env.real('%s%d%d' % (c, i, j)) for j in range(ny)] for i in range(nx)], 'f') for c in comp}
    xx = [env.q(-1), env.q(0), env.q(1)]; yy = [env.q(-1, 2), env.q(1, 2)]
    raw = {c: [[d[c][i, j] for j in range(ny)] for i in range(nx)] for c in comp}
    d['xx'] = env.array(xx, 'f'); d['yy'] = env.array(yy, 'f')
    env.put_file('map.mat', d)
    fact = env.real('fact')
    B0 = vec(env, 'B')
    p = env.mod('dynamics_Boris_f2py').pusher_Boris(env.q(1), B0[0], B0[1], B0[2], env.path('map.mat'), fact, N_sub_steps=1)
    x, y = env.reals('x', 1), env.reals('y', 1)
    env.assume(env.And(x[0] != 1, y[0] != env.q(1, 2)))
    got = p.B_ob.get_B(x, y)
    inside = bool(env.And(x[0] >= -1, x[0] < 1, y[0] >= env.q(-1, 2), y[0] < env.q(1, 2)))
    for k, c in enumerate(('Bx', 'By', 'Bz')):
        want = B0[k]
        if inside and c in comp:
            want = want + fact * env.sum([raw[c][i][j] * hat(env, x[0] - xx[i]) * hat(env, y[0] - yy[j]) for i in range(nx) for j in range(ny)])
        env.eq(got[k][0], want, 'map field is the rescaled interpolation plus the uniform field')
