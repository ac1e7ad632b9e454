from symx.harness import harness
from .common import *
from .c06 import args, fixed_process, by_impact, call, NORM

FUNCTIONS = ['electron_emission: sec_energy_hilleret_model2, velocities_angle_*, specular_velocity, photoelectron energy distributions', 'impacts_on_surface of SEY_model_ECLOUD and SEY_model_furman_pivi (velocities)',
             'SEY_model_furman_pivi.get_energy_*']
BOUNDS = ['1 to 3 electrons with arbitrary energies, velocities, unit normals and random numbers; rejection loops of up to 6 further draws', 'impacts_on_surface: up to 2 impacts of up to 3 macroparticles each']
ASSUMPTIONS = ['sin, cos (with sin^2 + cos^2 = 1), erf and the incomplete gamma function (increasing, with their inverses) are abstract functions.',
               'True secondaries below the low-energy threshold: the threshold does not exceed the energy cut.', 'When energy is not limited by the impact (switch 0) only the energy cut applies.']


def normal(env, i, arbitrary):
    """a unit vector: arbitrary (rational parametrisation) or given"""
    if not arbitrary: return env.q(*[(-1, 1), (3, 5), (0, 1)][i]), env.q(*[(0, 1), (4, 5), (1, 1)][i])
    # the half-angle makes every unit vector but (-1, 0)
    t = env.real('nt%d' % i)
    d = 1 + t * t
    return (1 - t * t) / d, 2 * t / d


def normals(env, n, sym=0):
    v = [normal(env, i, i == sym) for i in range(n)]
    return env.array([a for a, b in v], 'f'), env.array([b for a, b in v], 'f')


@harness('C08', [dict(n=2, mode=0), dict(n=2, mode=2), dict(n=1, mode=1), dict(n=0, mode=0)], [dict(n=3, mode=0), dict(n=3, mode=2), dict(n=1, mode=1), dict(n=0, mode=2)])
def true_energy(env, n, mode):
    """energies of true secondaries"""
    ee = env.mod('electron_emission')
    env.limit_draws(n + 4)
    mu, sig = env.real('mu'), env.real('sigma', slo=0)
    Eth, lo = env.real('Eth', slo=0), env.real('thresh')
    env.assume(lo <= Eth)
    E = env.reals('E', n, 0)
    keep = [E[i] for i in range(n)]
    f = lambda: ee.sec_energy_hilleret_model2(mode, n, sig, mu, Eth, E, lo)
    if mode == 1:
        env.check(env.raises(ValueError, f), 'an unsupported mode is rejected')
        return
    if mode == 2:
        for i in range(n): env.assume(E[i] > 0)
    en = f()
    env.check(len(en) == n, 'one energy per electron')
    dr, dp = env.drawn(), env.drawn_params()
    for j, (kind, v) in enumerate(dr):
        if kind == 'lognormal':
            env.eq(dp[j][0], mu, 'energy distribution has the configured parameters (mean)'); env.eq(dp[j][1], sig, 'energy distribution has the configured parameters (sigma)')
    for i in range(n):
        env.eq(E[i], keep[i], 'impact energies are not changed')
        env.ge(en[i], 0, 'energy is not negative')
        env.le(en[i], Eth, 'energy does not exceed the threshold')
        if mode == 2:
            env.le(en[i], E[i], 'energy does not exceed the impact energy')
            if bool(E[i] < lo):
                u = [v for k, v in dr if k == 'rand']
                env.check(env.Or(*[en[i] * en[i] == E[i] * E[i] * x for x in u]), 'linear distribution at low energy')
                continue
        env.check(env.Or(*[en[i] == v for k, v in dr if k == 'lognormal']), 'energy is one that was drawn')


def energy_of(env, v, mass):
    return mass * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / 2


@harness('C08', [dict(kind=k, n=n, sym=s) for k in ('cosine_3D', 'cosine_2D', 'normal_emission') for n, s in ((1, 0), (2, 1))], [dict(kind=k, n=n, sym=s) for k in ('cosine_3D', 'cosine_2D', 'normal_emission') for n, s in ((0, 0), (1, 0), (2, 1), (3, 2))])
def angles(env, kind, n, sym):
    ee = env.mod('electron_emission')
    f = ee.get_angle_dist_func(kind)
    E, m = env.reals('E', n, 0), env.real('mass', slo=0)
    Nx, Ny = normals(env, n, sym)
    vx, vy, vz = f(n, E, Nx, Ny, m)
    u = [v for k, v in env.drawn()]
    env.check(len(vx) == n and len(vy) == n and len(vz) == n, 'one velocity per electron')
    for i in range(n):
        env.eq(energy_of(env, (vx[i], vy[i], vz[i]), m), ee.qe * E[i], 'kinetic energy is the one drawn', 0)
        vn = vx[i] * Nx[i] + vy[i] * Ny[i]
        # both factors are square roots
        ct = 1 if kind == 'normal_emission' else env.np.sqrt(1 - env.np.sqrt(u[i])**2) if kind == 'cosine_3D' else env.np.sqrt(1 - u[i]**2)
        env.eq(vn, env.np.sqrt(2 * ee.qe * E[i] / m) * ct, 'emitted into the chamber', 0)
        if kind == 'normal_emission':
            env.eq(vz[i], 0, 'along the normal', 0); env.eq(vx[i] * Ny[i], vy[i] * Nx[i], 'along the normal', 0)
        else:
            s = u[i] if kind == 'cosine_3D' else u[i] * u[i]
            env.eq(m * vn * vn / 2, ee.qe * E[i] * (1 - s), 'angle to the normal follows its distribution', 0)
            phi = u[n + i] * 2 * env.np.pi
            c, sn = env.np.cos(phi), env.np.sin(phi)
            env.eq(m * vz[i] * vz[i] / 2, ee.qe * E[i] * s * c * c, 'azimuth is uniform', 0)
    if kind == 'cosine_3D': env.check(env.raises(ValueError, ee.get_angle_dist_func, 'sine'), 'an unknown distribution is rejected')


@harness('C08', [dict(n=1), dict(n=2)])
def specular(env, n):
    ee = env.mod('electron_emission')
    vx, vy = env.reals('vx', n), env.reals('vy', n)
    Nx, Ny = normals(env, n, n - 1)
    a, b = [vx[i] for i in range(n)], [vy[i] for i in range(n)]
    ox, oy = ee.specular_velocity(vx, vy, Nx, Ny, vx * Nx + vy * Ny)
    for i in range(n):
        env.eq(ox[i] * Nx[i] + oy[i] * Ny[i], -(a[i] * Nx[i] + b[i] * Ny[i]), 'normal component is reversed')
        env.eq(ox[i] * Ny[i] - oy[i] * Nx[i], a[i] * Ny[i] - b[i] * Nx[i], 'tangential component is kept')
        env.eq(ox[i] * ox[i] + oy[i] * oy[i], a[i] * a[i] + b[i] * b[i], 'speed is kept')
        env.check(env.Implies(a[i] * Nx[i] + b[i] * Ny[i] <= 0, ox[i] * Nx[i] + oy[i] * Ny[i] >= 0), 'reflected into the chamber')
        env.eq(vx[i], a[i], 'impact velocity is not changed'); env.eq(vy[i], b[i], 'impact velocity is not changed')


def wall_args(env, n, th):
    a = args(env, n, th, True, mass=env.real('mass', slo=0))
    Nx, Ny = normals(env, n, 0)
    a['Norm_x'], a['Norm_y'] = Nx, Ny
    for i in range(n): a['i_found'][i] = i
    a['v_impact_n'] = a['vx_impact'] * Nx + a['vy_impact'] * Ny
    for i in range(n): env.assume(a['v_impact_n'][i] <= 0)
    return a


def energy_contract(env, ee):
    """the energy law by contract (decided above): an arbitrary energy between zero and the impact energy given to it, when it limits the energy"""
    log = []
    def law(sw, N, sig, mu, Eth, E, lo):
        env.check(len(E) == N, 'one impact energy per electron')
        k = len(log)
        out = [env.real('Ee%d' % (k + i), 0) for i in range(int(N))]
        for i in range(int(N)): env.assume(out[i] <= E[i])
        log.extend(out)
        return env.array(out, 'f')
    ee.sec_energy_hilleret_model2 = law
    return log


def angle_contract(env, m):
    """the angle law by contract (decided above): an arbitrary inward direction, energy as asked"""
    log = []
    def law(N, E, Nx, Ny, mass):
        env.check(len(E) == N and len(Nx) == N and len(Ny) == N, 'energies and normals of the electrons')
        k = len(log)
        vx, vy, vz = ([env.real('%s%d' % (c, k + i)) for i in range(int(N))] for c in ('ex', 'ey', 'ez'))
        for i in range(int(N)): log.append((E[i], Nx[i], Ny[i], vx[i], vy[i], vz[i], mass))
        A = lambda v: env.array(v, 'f')
        return A(vx), A(vy), A(vz)
    m.angle_dist_func = law
    return log


def emitted(env, log, v):
    """the request whose velocity this is"""
    for r in log:
        if bool(env.And(r[3] == v[0], r[4] == v[1], r[5] == v[2])): return r
    return None


def check_velocities(env, a, out, n, log, elog, kinds, limit=True):
    groups = by_impact(env, out, n)
    for i in range(n):
        vin = (a['vx_impact'][i], a['vy_impact'][i], a['vz_impact'][i])
        rep = (out[7][i], out[8][i], out[9][i])
        N = (a['Norm_x'][i], a['Norm_y'][i])
        new = [(out[15][k], out[16][k], out[17][k]) for k in groups[i]]
        if kinds[i] == 'absorbed':
            continue
        if kinds[i] == 'elastic':
            env.eq(rep[0] * N[0] + rep[1] * N[1], -(vin[0] * N[0] + vin[1] * N[1]), 'a reflected electron reverses its normal velocity')
            env.eq(rep[0] * N[1] - rep[1] * N[0], vin[0] * N[1] - vin[1] * N[0], 'a reflected electron keeps its tangential velocity')
            env.eq(rep[2], vin[2], 'a reflected electron keeps its tangential velocity')
            todo = new
        else:
            todo = [rep] + new
        for v in todo:
            r = emitted(env, log, v)
            env.check(r is not None, 'an emitted electron gets a drawn velocity')
            if r is None: continue
            env.check(env.And(r[1] == N[0], r[2] == N[1]), 'emitted along the normal of the wall that was hit')
            env.eq(r[6], a['mass'], 'emitted with the mass of the species')
            env.le(r[0], a['E_impact_eV'][i], 'energy does not exceed that of its impact')
    return groups


def distinct(env, log):
    for i in range(len(log)):
        for j in range(i): env.assume(env.Not(env.And(log[i][3] == log[j][3], log[i][4] == log[j][4], log[i][5] == log[j][5])))


@harness('C08', [dict(n=1, most=3), dict(n=2, most=2)], [dict(n=1, most=4), dict(n=2, most=3), dict(n=3, most=2)])
def surface(env, n, most):
    """velocities of everything that leaves the wall"""
    ee = env.mod('electron_emission')
    elog = energy_contract(env, ee)
    m = sey_models(env, 'ecloud')
    log = angle_contract(env, m)
    th = env.real('th', slo=0)
    a = wall_args(env, n, th)
    want, el = fixed_process(env, m, n, th, most)
    out = call(env, m, a, n)
    distinct(env, log)
    kinds = ['elastic' if bool(el[i]) else 'true' for i in range(n)]
    g = check_velocities(env, a, out, n, log, elog, kinds)
    env.check(len(log) == kinds.count('true') + sum(len(x) for x in g), 'one velocity per emitted electron')
    env.check(len(elog) == len(log), 'one energy per emitted electron')


@harness('C08', [dict(n=1, own=False, excl=False), dict(n=2, own=False, excl=False, top=2), dict(n=2, own=False, excl=True, top=1), dict(n=2, own=True, excl=False, top=2)],
         [dict(n=n, own=o, excl=e, top=3 if n == 1 else 2) for n in (1, 2) for o in (False, True) for e in (False, True)])
def surface_fp(env, n, own, excl, top=3):
    ee = env.mod('electron_emission')
    elog = energy_contract(env, ee)
    m = sey_models(env, 'fpx' if excl else 'fp')
    m.use_ECLOUD_energy = not own
    env.poisson_max = top
    def energy(key):
        def f(E0):
            out = [env.real('%s%d_%d' % (key, len(elog), i), 0) for i in range(len(E0))]
            for i in range(len(E0)): env.assume(out[i] <= E0[i])
            elog.extend(out)
            return env.array(out, 'f')
        return f
    m.get_energy_backscattered, m.get_energy_rediffused = energy('eb'), energy('er')
    nlog = []
    if own:
        g = energy('et')
        def ts(nn, E_0):
            nlog.append(list(nn))
            env.check(len(nn) == len(E_0), 'number of electrons of each event')
            return g(E_0)
        m.get_energy_true_sec = ts
    log = angle_contract(env, m)
    a = wall_args(env, n, env.real('th', slo=0))
    fb, fr = [env.bool('fb%d' % i) for i in range(n)], [env.bool('fr%d' % i) for i in range(n)]
    if excl: fr = [False] * n
    else:
        for i in range(n): env.assume(env.Not(env.And(fb[i], fr[i])))
    B = lambda v: env.array(v, 'b')
    c = lambda v: env.array([env.q(v)] * n, 'f')
    m.SEY_process = lambda *x: (B(fb), None if excl else B(fr), B([env.Not(env.Or(p, q)) for p, q in zip(fb, fr)]), c(0), None if excl else c(0), c(1))
    out = call(env, m, a, n)
    distinct(env, log)
    num = [v for k, v in env.drawn() if k == 'poisson']
    kinds = []
    for i in range(n):
        if bool(fb[i]): kinds.append('elastic' if not own else 'true')
        elif bool(fr[i]): kinds.append('true')
        else: kinds.append('absorbed' if bool(num.pop(0) == 0) else 'true')
    g = check_velocities(env, a, out, n, log, elog, kinds)
    env.check(len(log) == kinds.count('true') + sum(len(x) for x in g), 'one velocity per emitted electron')
    for i in range(n):
        if kinds[i] == 'absorbed': env.check(env.And(out[3][i] == 0, len(g[i]) == 0), 'nothing is left of an absorbed electron')


@harness('C08', [dict(kind=k, n=1) for k in ('back', 'rediff', 'true')] + [dict(kind='true', n=2)], [dict(kind=k, n=n) for k in ('back', 'backmod', 'rediff', 'true') for n in (0, 1, 2)])
def energies_fp(env, kind, n):
    """energy laws of the multi-component model: never above the impact energy"""
    m = sey_models(env, 'fp')
    m.use_ECLOUD_energy = False
    E = env.reals('E', n, 0)
    if kind[:4] == 'back':
        m.use_modified_sigmaE = kind == 'backmod'
        m.sigmaE = env.q(2)
        en = m.get_energy_backscattered(E)
    elif kind == 'rediff':
        m.q = env.real('q', slo=0)
        en = m.get_energy_rediffused(E)
    else:
        m.eps_n, m.p_n = env.reals('eps', 2), env.reals('p', 2)
        for i in range(2): env.assume(m.eps_n[i] > 0); env.assume(m.p_n[i] > 0)
        nn = env.array([env.choice('nn%d' % i, [1, 2]) for i in range(n)], 'i')
        for i in range(n): env.assume(E[i] > 0)
        en = m.get_energy_true_sec(nn, E)
    env.check(len(en) == n, 'one energy per electron')
    for i in range(n):
        env.ge(en[i], 0, 'energy is not negative')
        env.le(en[i], E[i], 'energy does not exceed the impact energy')


@harness('C08', [dict(kind=k, n=2) for k in ('lognormal', 'gaussian', 'rect', 'mono')] + [dict(kind='none', n=0)])
def photo_energy(env, kind, n):
    """photoelectron energies"""
    ee = env.mod('electron_emission')
    env.limit_draws(n + 3)
    sig, mx = env.real('sigma', slo=0), env.real('emax', 0)
    if kind == 'none':
        env.check(env.raises(ValueError, ee.get_energy_distribution_func, 'flat', sig, mx), 'an unknown distribution is rejected')
        return
    g = ee.get_energy_distribution_func(kind, sig, mx)
    if kind == 'rect': env.assume(sig <= 2 * mx)
    en = g(n)
    env.check(len(en) == n, 'one energy per electron')
    dr, dp = env.drawn(), env.drawn_params()
    for i in range(n):
        env.ge(en[i], 0, 'energy is not negative')
        if kind == 'mono': env.eq(en[i], mx, 'all electrons have the configured energy')
        elif kind == 'rect': env.le(abs(en[i] - mx), sig / 2, 'energy within the configured band')
        elif kind == 'gaussian': env.check(env.Or(*[en[i] == v * sig + mx for k, v in dr]), 'gaussian energy with the configured mean and width')
        else:
            env.eq(en[i], dr[i][1], 'energy is the one drawn'); env.eq(dp[i][0], mx, 'configured mean'); env.eq(dp[i][1], sig, 'configured width')
