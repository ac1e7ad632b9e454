from symx.harness import harness
from .common import *

FUNCTIONS = ['dynamics_dipole.pusher_dipole_magnet', 'dynamics_strong_B_generalized.pusher_strong_B_generalized', 'sincc_cosincc_cubsincc.*', 'int_field_for.int_field (Fortran)']
BOUNDS = ['1 to 3 particles with arbitrary positions, velocities and electric fields; magnetic field, gradient, field threshold and time step arbitrary reals (phase advance of the dipole below 1e-3: unit step, one quantity at a time, to 1e-6)',
          'field map of 3 x 2 nodes with arbitrary node values']
ASSUMPTIONS = ['Exact real arithmetic.', 'sin and cos are abstract functions with sin^2+cos^2=1 and, below 1e-3, the bounds of their Taylor series; the law checked is the solution of dv/dt = -e/m (E + v x B).', 'The code\'s own value of e/m is used.']


def sc(env, x):
    return env.np.sin(x), env.np.cos(x)


def load(env, mp, n, **fixed):
    for i in range(n):
        for f in FIELDS[:6]:
            getattr(mp, f)[i] = fixed[f] if f in fixed else env.real('%s%d' % (f, i))
    mp.N_mp = n


def at(mp, i): return [getattr(mp, f)[i] for f in FIELDS[:6]]


def uniform_motion(env, s, Ex, Ey, Bx, By, Bm, qm, Dt):
    """solution at Dt of dv/dt = -qm (E + v x B), B = (Bx, By, 0) with modulus Bm, E = (Ex, Ey, 0)"""
    x, y, z, vx, vy, vz = s
    w = Bm * qm
    S, C = sc(env, w * Dt)
    bx, by = Bx / Bm, By / Bm
    # along the field / across the field / z
    vp, vn = vx * bx + vy * by, vx * by - vy * bx
    Ep, En = Ex * bx + Ey * by, Ex * by - Ey * bx
    d = En / Bm                                  # drift velocity along z
    vp1, sp = vp - qm * Ep * Dt, vp * Dt - qm * Ep * Dt * Dt / 2
    u = vz - d
    vn1, vz1 = vn * C + u * S, d + u * C - vn * S
    sn, sz = (vn * S + u * (1 - C)) / w, d * Dt + (u * S - vn * (1 - C)) / w
    return (x + sp * bx + sn * by, y + sp * by - sn * bx, z + sz, vp1 * bx + vn1 * by, vp1 * by - vn1 * bx, vz1)


def compare(env, mp, i, want, label):
    for f, a, b in zip(FIELDS, at(mp, i), want): env.eq(a, b, '%s (%s)' % (label, f))


@harness('C10', [dict(n=1), dict(n=2)], [dict(n=1), dict(n=2), dict(n=3)])
def dipole(env, n):
    """dipole tracker away from zero phase advance"""
    M = env.mod('dynamics_dipole')
    Dt, B = env.real('Dt'), env.real('B')
    qm = M.qm
    env.assume(env.Or(B * qm * Dt >= env.q(1, 1000), B * qm * Dt <= env.q(-1, 1000)))
    mp = make_mp(env, n + 1, True)
    load(env, mp, n)
    old = [at(mp, i) for i in range(n)]
    Ex, Ey = env.reals('Ex', n), env.reals('Ey', n)
    M.pusher_dipole_magnet(Dt, B).step(mp, Ex, Ey)
    env.check(mp.N_mp == n and bool(mp.x_mp[n] == 0) and bool(mp.vx_mp[n] == 0), 'only stored particles are moved')
    for i in range(n):
        compare(env, mp, i, uniform_motion(env, old[i], Ex[i], Ey[i], env.q(0), B, B, qm, Dt), 'dipole tracker follows the analytic motion')


@harness('C10', [dict(what=w, sign=s) for w in ('vx', 'vz', 'Ex', 'vy', 'Ey') for s in (1, -1)])
def dipole_small_phase(env, what, sign):
    """dipole tracker at small or zero phase advance, to 1e-6"""
    M = env.mod('dynamics_dipole')
    Dt = 1 / env.val(M.qm)
    phi = env.real('phi', 0, env.q(1, 1000))
    S, C = sc(env, phi)
    env.fact(env.And(S <= phi, S >= phi - phi * phi * phi / 6, S <= phi - phi * phi * phi / 6 + phi * phi * phi * phi * phi / 120))
    env.fact(env.And(C >= 1 - phi * phi / 2, C <= 1 - phi * phi / 2 + phi * phi * phi * phi / 24))
    mp = make_mp(env, 1, True)
    v = {k: env.q(1 if k == what else 0) for k in ('vx', 'vy', 'vz', 'Ex', 'Ey')}
    mp.vx_mp[0], mp.vy_mp[0], mp.vz_mp[0] = v['vx'], v['vy'], v['vz']
    mp.N_mp = 1
    p = M.pusher_dipole_magnet(Dt, sign * phi)
    p.step(mp, env.array([v['Ex']], 'f'), env.array([v['Ey']], 'f'))
    x, y, z, vx, vy, vz = at(mp, 0)
    T = {'vx': v['vx'] - v['Ex'] + sign * phi * v['vz'], 'vy': v['vy'] - v['Ey'], 'vz': v['vz'] - sign * phi * v['vx'] + sign * phi * v['Ex'] / 2}
    X = {'x': v['vx'] - v['Ex'] / 2 + sign * phi * v['vz'] / 2, 'y': v['vy'] - v['Ey'] / 2, 'z': v['vz'] - sign * phi * v['vx'] / 2 + sign * phi * v['Ex'] / 6}
    tol = env.q(1, 10**6)
    for k, a, b in (('vx', vx, T['vx']), ('vy', vy, T['vy']), ('vz', vz, T['vz']), ('x', x / Dt, X['x']), ('y', y / Dt, X['y']), ('z', z / Dt, X['z'])):
        env.le(abs(a - b), tol, 'small phase advance: %s is the field-free motion plus the first-order bend' % k)


@harness('C10', [dict(gen=True), dict(gen=False)])
def no_work(env, gen):
    """no electric field: kinetic energy kept, free motion along the field"""
    Dt = env.real('Dt', slo=0)
    mp = make_mp(env, 1, True)
    load(env, mp, 1)
    o = at(mp, 0)
    z = env.array([0.], 'f')
    if gen:
        Bx, By = env.real('Bx'), env.real('By')
        p = env.mod('dynamics_strong_B_generalized').pusher_strong_B_generalized(Dt, Bx, By, None, None, env.real('thr', slo=0))
    else:
        Bx, By = env.q(0), env.real('By')
        p = env.mod('dynamics_dipole').pusher_dipole_magnet(Dt, By)
    p.step(mp, z, z)
    a = at(mp, 0)
    e = lambda s: s[3] * s[3] + s[4] * s[4] + s[5] * s[5]
    env.eq(e(a), e(o), 'kinetic energy is conserved without electric field')
    env.eq(a[3] * Bx + a[4] * By, o[3] * Bx + o[4] * By, 'velocity along the field is kept')
    env.eq((a[0] - o[0]) * Bx + (a[1] - o[1]) * By, (o[3] * Bx + o[4] * By) * Dt, 'free motion along the field')


def check_general(env, mp, old, Ex, Ey, B, thr, qm, Dt):
    for i, o in enumerate(old):
        Bx, By = B[i]
        Bm = env.sqrt(Bx * Bx + By * By)
        if bool(Bm < thr):
            f = tuple(p + v * Dt - qm * e * Dt * Dt / 2 for p, v, e in zip(o[:3], o[3:], (Ex[i], Ey[i], 0))) + tuple(v - qm * e * Dt for v, e in zip(o[3:], (Ex[i], Ey[i], 0)))
            compare(env, mp, i, f, 'field-free motion below the threshold')
        else:
            compare(env, mp, i, uniform_motion(env, o, Ex[i], Ey[i], Bx, By, Bm, qm, Dt), 'generalized tracker follows the analytic motion')


@harness('C10', [dict(n=1, kind='B0'), dict(n=2, kind='B0'), dict(n=1, kind='quad'), dict(n=1, kind='quadpos'), dict(n=2, kind='quadpos')],
         [dict(n=n, kind=k) for n in (1, 2, 3) for k in ('B0', 'quad', 'quadpos') if n == 1 or k != 'quad'])
def general(env, n, kind):
    """uniform field, or quadrupole field whose value at the particle is arbitrary (through the uniform part or through the position)"""
    env.merge_masks(False)
    M = env.mod('dynamics_strong_B_generalized')
    Dt, thr = env.real('Dt', slo=0), env.real('thr', slo=0)
    B = [(env.real('Bx%d' % i), env.real('By%d' % i)) for i in range(n)]
    mp = make_mp(env, n + 1, True)
    load(env, mp, n)
    g = env.real('grad') if kind != 'quadpos' else env.q(-2)
    if kind == 'B0':
        B0x, B0y = B[0]
        B = [B[0]] * n
    elif kind == 'quad':
        B0x, B0y = B[0][0] - g * mp.y_mp[0], B[0][1] - g * mp.x_mp[0]
    else:
        B0x, B0y = env.q(1), env.q(-1, 2)
        for i in range(n): mp.y_mp[i], mp.x_mp[i] = (B[i][0] - B0x) / g, (B[i][1] - B0y) / g
    old = [at(mp, i) for i in range(n)]
    Ex, Ey = env.reals('Ex', n), env.reals('Ey', n)
    p = M.pusher_strong_B_generalized(Dt, B0x, B0y, None if kind == 'B0' else 'analytic_qaudrupole_unit_grad', g, thr)
    p.step(mp, Ex, Ey)
    env.check(mp.N_mp == n and bool(mp.x_mp[n] == 0) and bool(mp.vx_mp[n] == 0), 'only stored particles are moved')
    check_general(env, mp, old, Ex, Ey, B, thr, M.qm, Dt)


def hat(env, u): return env.If(abs(u) >= 1, 0, 1 - abs(u))


@harness('C10', [dict(n=1), dict(n=2)])
def general_map(env, n):
    env.merge_masks(False)
    M = env.mod('dynamics_strong_B_generalized')
    nx, ny = 3, 2
    fact, thr, Dt = env.q(-2), env.q(1, 2), env.q(1, 4)
    B0x, B0y = env.q(1), env.q(-1, 2)
    xy = [(env.q(1, 4), env.q(1, 8)), (env.q(-3), env.q(1))]
    nodes = {c: [[env.real('%s%d%d' % (c, i, j)) for j in range(ny)] for i in range(nx)] for c in ('Bx', 'By')}
    w = lambda p, i, j: hat(env, p[0] - xx[i]) * hat(env, p[1] - yy[j])
    xx = [env.q(-1), env.q(0), env.q(1)]; yy = [env.q(-1, 2), env.q(1, 2)]
    at0 = {}
    for c, b0 in (('Bx', B0x), ('By', B0y)):
        # node (1, 0) is expressed by the field at the particle
        at0[c] = env.real(c + '_at')
        rest = env.sum([nodes[c][i][j] * w(xy[0], i, j) for i in range(nx) for j in range(ny) if (i, j) != (1, 0)])
        nodes[c][1][0] = ((at0[c] - b0) / fact - rest) / w(xy[0], 1, 0)
    d = {c: env.array(nodes[c], 'f') for c in nodes}
    d['xx'] = env.array(xx, 'f'); d['yy'] = env.array(yy, 'f')
    env.put_file('map.mat', d)
    mp = make_mp(env, n, True)
    load(env, mp, n)
    for i in range(n): mp.x_mp[i], mp.y_mp[i] = xy[i]
    old = [at(mp, i) for i in range(n)]
    Ex, Ey = env.reals('Ex', n), env.reals('Ey', n)
    p = M.pusher_strong_B_generalized(Dt, B0x, B0y, env.path('map.mat'), fact, thr)
    p.step(mp, Ex, Ey)
    B = [(at0['Bx'], at0['By']), (B0x, B0y)][:n]      # the second particle is outside the map
    check_general(env, mp, old, Ex, Ey, B, thr, M.qm, Dt)
