from symx.harness import harness
from .common import *

FUNCTIONS = ['residual_gas_ionization.__init__, generate', 'photoemission, photoemission_from_file, photoemission_per_segment: __init__, generate', 'photoemission_base.get_number_new_mps, gen_energy_and_set_MPs', 'polyg_cham_photoemission.__init__, get_photoelectron_positions', 'BuildupSimulation._primary_generation', 'MP_system.add_new_MPs (as called)']
BOUNDS = ['rates giving up to 3 new macroparticles in one generation, up to 2 stored before (with stale data behind them), any line density, reference size, position of the beam, random draws; rejection loops of up to 2 further rounds',
          'main beam and up to 2 secondary beams', 'photoemission by segment: a square chamber, 4 segments with arbitrary cumulative fractions']
ASSUMPTIONS = ['For ionization and ray photoemission the chamber is replaced by its contract (C04 / C05).', 'Angle and energy laws of photoelectrons are C08: here they return arbitrary values, which have to be used.',
               'The self-check of the photon circle at construction is run on 9 of its 10000 points.']
K = dict(kB=1.380649e-23, c=299792458.)


def few_points(env, M, n=9):
    """the constructor checks 10000 points of a circle; n are enough here"""
    real = env.np
    class NP:
        def __getattr__(self, k): return getattr(real, k)
        def linspace(self, a, b, m=50, *r, **kw): return real.linspace(a, b, min(m, n), *r, **kw)
    M.np = NP()


def counted(env, rate, n, label):
    """rate rounded down, or up when the first draw is below the fractional part"""
    u = [v for k, v in env.drawn() if k == 'rand'][0]
    f = env.floor(rate)
    env.eq(n, f + env.If(u < rate - f, 1, 0), label)


def old_kept(env, before, mp, fs, label='existing macroparticles are untouched'):
    after, _ = snap(mp, 't_last_impact' in fs)
    for i, b in enumerate(before): eq_mp(env, after[i], b, fs, label)
    return after[len(before):]


@harness('C18', [dict(n0=1, nmax=2, unif='some', life=True), dict(n0=0, nmax=1, unif='some', life=False, E='any'), dict(n0=2, nmax=3, unif='none', life=False, out=False), dict(n0=1, nmax=2, unif='all', life=True), dict(n0=1, nmax=0, unif='some', life=True)],
         [dict(n0=a, nmax=b, unif=u, life=l) for a, b in ((0, 2), (2, 1)) for u in ('none', 'some', 'all') for l in (True, False)] + [dict(n0=1, nmax=3, unif='none', life=True, out=False), dict(n0=1, nmax=3, unif='all', life=True, out=False), dict(n0=1, nmax=1, unif='some', life=True, E='any')])
def gas(env, n0, nmax, unif, life, out=True, E=None):
    """residual gas ionization"""
    env.limit_draws(4 + 5 * nmax + 4 * nmax * out, None if not out else (lambda: False))
    xa, ya = env.q(1), env.q(1, 2)
    ch = BoxChamb(xa, ya); ch.asked = 0
    inside = ch.is_outside
    def is_outside(x, y):
        # bound: the second time everything is inside
        ch.asked += 1
        o = inside(x, y)
        if ch.asked > 1 and out:
            for v in o: env.assume(env.Not(v))
        return o
    ch.is_outside = is_outside
    ref = env.real('ref', slo=0)
    mass = QE
    mp = make_mp(env, 8, life, nel_ref0=ref, chamb=ch, mass=mass)
    fill(env, mp, n0, lifetime=life)
    before, fs = snap(mp, life)
    uf = dict(none=env.q(0), all=env.q(1)).get(unif) if unif != 'some' else env.real('unif_frac', 0, 1)
    Ei = env.real('E', 0) if E else env.q(6)
    P, sg, T = env.q(30), env.q(2), env.q(300)
    r = env.mod('gas_ionization_class').residual_gas_ionization(uf, P, sg, T, ch, Ei, life)
    Dt = env.q(1, 10 ** 9)
    sx, sy, xb, yb = [env.real(v, *b) for v, b in (('sx', (0,)), ('sy', (0,)), ('xb', (-1, 1)), ('yb', (-1, 1)))]
    # P in nTorr, cross-section in MBarn; the line density that gives the rate
    rsym = env.real('rate', 0, nmax)
    lam = rsym * ref / (P * env.val(133.32e-9) / (env.val(K['kB']) * T) * sg * env.val(1e-22) * env.val(K['c']) * Dt)
    got = r.generate(mp, lam, Dt, sx, sy, xb, yb)
    env.check(got is mp, 'the same cloud is returned')
    new = old_kept(env, before, mp, fs)
    counted(env, rsym, len(new), 'number of ionization electrons')
    d = env.drawn()
    gs, us = [v for k, v in d if k == 'randn'], [v for k, v in d if k == 'rand']
    for i, p in enumerate(new):
        env.check(env.And(p[0] < xa, p[0] > -xa, p[1] < ya, p[1] > -ya), 'created inside the chamber')
        flag = us[1 + i] < uf
        ux = env.Or(*[p[0] == xa * (2 * u - 1) for u in us]); uy = env.Or(*[p[1] == ya * (2 * u - 1) for u in us])
        gx = env.Or(*[p[0] == sx * g + xb for g in gs]); gy = env.Or(*[p[1] == sy * g + yb for g in gs])
        env.check(env.If(flag, env.And(ux, uy), env.And(gx, gy)), 'distributed like the beam, or uniformly for the configured fraction')
        env.eq(p[2], 0, 'created at z = 0')
        for c in (3, 4, 5):
            if E: env.le(4 * p[c] * p[c], 2 * Ei / 3, 'no velocity component beyond the configured energy')
            else: env.check(env.Or(*[p[c] == -2 * (u - env.q(1, 2)) for u in us]), 'velocity drawn within the configured energy')
        env.eq(p[6], ref, 'one reference size each')
        if life: env.eq(p[7], -1, 'never hit the wall before')
    if bool(rsym == 0): env.check(len(new) == 0, 'nothing at zero rate')
    no_stale_charge(env, mp)


class RayChamb(BoxChamb):
    """chamber contract for photons: where the ray of each photon lands and the normal there"""
    def __init__(self, env, r=1.): BoxChamb.__init__(self, r, r); self.env, self.rays, self.land = env, [], []
    def is_convex(self): return True
    def is_outside(self, x, y): return (x * x + y * y) >= self.x_aper * self.x_aper
    def impact_point_and_normal(self, x_in, y_in, z_in, x_out, y_out, z_out, resc_fac=None, **k):
        env, n = self.env, len(x_out)
        self.resc = resc_fac
        self.rays += [(x_in[i], y_in[i], x_out[i], y_out[i]) for i in range(n)]
        pts = [(env.real('xl%d' % len(self.land + [0] * i), -1, 1), env.real('yl%d' % (len(self.land) + i), -1, 1), env.real('nx%d' % (len(self.land) + i)), env.real('ny%d' % (len(self.land) + i))) for i in range(n)]
        self.land += pts
        A = lambda c: env.array([p[c] for p in pts], 'f')
        return A(0), A(1), A(0) * 0, A(2), A(3), None


def laws(env, M, n):
    """arbitrary energies and velocities"""
    ee = env.mod('electron_emission')
    log = Obj(E=[], v=[], asked=[])
    def energy(k):
        l = [env.real('En%d' % (len(log.E) + i), 0) for i in range(int(k))]
        log.E += l
        return env.array(l, 'f')
    def angle(k, En, nx, ny, mass):
        env.check(len(En) == k and len(nx) == k and len(ny) == k, 'one energy and normal per photoelectron')
        l = [tuple(env.real('v%s%d' % (c, len(log.v) + i)) for c in 'xyz') for i in range(int(k))]
        log.asked += [(En[i], nx[i], ny[i], mass) for i in range(int(k))]
        log.v += l
        return tuple(env.array([v[c] for v in l], 'f') for c in range(3))
    ee.get_energy_distribution_func = lambda *a: (setattr(log, 'ea', a), energy)[1]
    ee.get_angle_dist_func = lambda *a: (setattr(log, 'aa', a), angle)[1]
    return log


def beam_time(env, cont):
    """line densities of the profile (their mean counts with continuous emission)"""
    l = [env.q(2), env.q(4), env.q(6)]
    return Obj(lam_t_array=env.array(l, 'f')) if cont else None


def start(env, n0, life, nmax, cont):
    ref = env.real('ref', slo=0)
    mass = env.q(3)
    kpe, rs = env.q(1, 2), env.real('rate', 0, nmax)
    if cont: lam = env.real('lam', 0); Dt = rs * ref / (kpe * env.val(K['c']) * 4)
    else: Dt = env.q(1, 10 ** 9); lam = rs * ref / (kpe * env.val(K['c']) * Dt)
    return ref, mass, kpe, lam, Dt, rs


def check_new(env, before, fs, mp, rs, ref, log, pts, life, label):
    new = old_kept(env, before, mp, fs)
    counted(env, rs, len(new), label)
    env.check(len(log.v) == len(new) and len(log.E) == len(new), 'one energy and velocity per photoelectron')
    env.check(len(pts) == len(new), 'one place per photoelectron')
    for i, p in enumerate(new):
        env.eq(p[0], pts[i][0], 'photoelectron starts where the photon lands'); env.eq(p[1], pts[i][1], 'photoelectron starts where the photon lands'); env.eq(p[2], 0, 'created at z = 0')
        env.eq(log.asked[i][0], log.E[i], 'velocity for the energy drawn'); env.eq(log.asked[i][1], pts[i][2], 'velocity around the normal of the wall'); env.eq(log.asked[i][2], pts[i][3], 'velocity around the normal of the wall'); env.eq(log.asked[i][3], mp.mass, 'velocity for the mass of the cloud')
        for c in range(3): env.eq(p[3 + c], log.v[i][c], 'velocity is the one of the angle law')
        env.eq(p[6], ref, 'one reference size each')
        if life: env.eq(p[7], -1, 'never hit the wall before')
    if bool(rs == 0): env.check(len(new) == 0, 'nothing at zero rate')
    no_stale_charge(env, mp)
    return new


CDF = dict(u_sam=[(0, 1), (1, 2), (1, 1)], inv_CDF=[(0, 1), (1, 1), (3, 1)])


def cdf_of(env, u):
    """the table above as a function"""
    return env.If(u < env.q(1, 2), 2 * u, 1 + 4 * (u - env.q(1, 2)))


@harness('C18', [dict(refl='unif', n0=1, nmax=2, life=True), dict(refl='file', n0=0, nmax=1, life=False), dict(refl='file', n0=1, nmax=2, life=True, frac='all'), dict(refl='unif', n0=0, nmax=1, life=True, cont=True, frac='none'), dict(refl='file', n0=0, nmax=2, life=False), dict(refl='unif', n0=1, nmax=0, life=False)],
         [dict(refl=r, n0=1, nmax=m, life=l, frac=f, cont=c) for r in ('unif', 'file') for m in (1, 2) for l in (True, False) for f in ('some', 'all', 'none') for c in (True, False)])
def photo(env, refl, n0, nmax, life, cont=False, frac='some'):
    """photoemission: reflected photons all around, direct ones around the horizontal plane"""
    M = env.mod('gen_photoemission_class')
    few_points(env, M)
    log = laws(env, M, nmax)
    ch = RayChamb(env)
    env.limit_draws(2 + 2 * nmax + 1)
    ref, mass, kpe, lam, Dt, rs = start(env, n0, life, nmax, cont)
    rf = dict(all=env.q(1), none=env.q(0)).get(frac) if frac != 'some' else env.real('refl_frac', 0, 1)
    if refl == 'file':
        env.put_file('refl.mat', {k: env.array([env.q(*x) for x in v], 'f') for k, v in CDF.items()})
        f = env.path('refl.mat')
    else: f = 'unif_no_file'
    alim, x0 = env.real('alimit', slo=0), env.q(1, 4)
    ph = M.photoemission(f, kpe, rf, 1., 2., alim, x0, 0., env.q(5), ch, 0.99, 'lognormal', 'cosine_3D', beam_time(env, cont), cont)
    env.check(log.ea == ('lognormal', 1., 2.) and log.aa == ('cosine_3D',), 'configured energy and angle laws')
    mp = make_mp(env, 8, life, nel_ref0=ref, chamb=ch, mass=mass)
    fill(env, mp, n0, lifetime=life)
    before, fs = snap(mp, life)
    env.check(ph.generate(mp, lam, Dt) is mp, 'the same cloud is returned')
    new = check_new(env, before, fs, mp, rs, ref, log, ch.land, life, 'number of photoelectrons')
    if new: env.eq(ch.resc, env.val(0.99), 'configured safety factor')
    us = [v for k, v in env.drawn() if k == 'rand'][1:]; gs = [v for k, v in env.drawn() if k == 'randn']
    n, ir, ig = len(new), 0, 0
    R = env.q(5)
    for i in range(n):
        x_in, y_in, x_out, y_out = ch.rays[i]
        if bool(us[i] < rf):
            u = us[n + ir]; ir += 1
            if refl == 'unif':
                psi = 2 * env.val(env.np.pi) * u
                w = (env.q(0), R * env.np.cos(psi), R * env.np.sin(psi))
            else:
                psi = cdf_of(env, u)
                w = (x0, x0 - 2 * R * env.np.cos(psi), 2 * R * env.np.sin(psi))
        else:
            th = gs[ig] * alim; ig += 1
            w = (env.q(0), R * env.np.cos(th), R * env.np.sin(th))
        env.eq(x_in, w[0], 'photons start at the configured point'); env.eq(y_in, 0, 'photons start at the configured point')
        env.near(x_out, w[1], 'direction of the photon', 1e-9); env.near(y_out, w[2], 'direction of the photon', 1e-9)


@harness('C18', [dict(table='unif', n0=1, nmax=2, life=True), dict(table='dict', n0=0, nmax=2, life=True), dict(table='file', n0=1, nmax=1, life=False, cont=True)], [dict(table=t, n0=n, nmax=m, life=l, cont=c) for t in ('unif', 'dict', 'file') for n, m in ((0, 1), (1, 2), (2, 3)) for l in (True, False) for c in (True, False)])
def photo_table(env, table, n0, nmax, life, cont=False):
    """photoemission from a table of angles"""
    M = env.mod('gen_photoemission_class')
    log = laws(env, M, nmax)
    ch = RayChamb(env)
    env.limit_draws(2 + nmax)
    ref, mass, kpe, lam, Dt, rs = start(env, n0, life, nmax, cont)
    d = dict(u_sam=env.array([env.q(*v) for v in CDF['u_sam']], 'f'), angles=env.array([env.q(*v) for v in CDF['inv_CDF']], 'f'))
    if table == 'file': env.put_file('ph.mat', d); d = env.path('ph.mat')
    if table == 'unif': d = 'unif_no_file'
    ph = M.photoemission_from_file(d, ch, 0.99, 'gaussian', 1., 2., kpe, env.q(5), 'cosine_2D', beam_time(env, cont), cont)
    env.check(log.ea == ('gaussian', 1., 2.) and log.aa == ('cosine_2D',), 'configured energy and angle laws')
    mp = make_mp(env, 8, life, nel_ref0=ref, chamb=ch, mass=mass)
    fill(env, mp, n0, lifetime=life)
    before, fs = snap(mp, life)
    ph.generate(mp, lam, Dt)
    new = check_new(env, before, fs, mp, rs, ref, log, ch.land, life, 'number of photoelectrons')
    us = [v for k, v in env.drawn() if k == 'rand'][1:]
    for i in range(len(new)):
        x_in, y_in, x_out, y_out = ch.rays[i]
        th = us[i] * 2 * env.val(env.np.pi) if table == 'unif' else cdf_of(env, us[i])
        env.eq(x_in, 0, 'photons start at the centre'); env.eq(y_in, 0, 'photons start at the centre')
        env.near(x_out, 5 * env.np.cos(th), 'direction of the photon', 1e-9); env.near(y_out, 5 * env.np.sin(th), 'direction of the photon', 1e-9)


@harness('C18', [dict(n0=1, nmax=1, life=True), dict(n0=0, nmax=2, life=False), dict(n0=0, nmax=1, life=True, cont=True)], [dict(n0=n, nmax=m, life=l, cont=c) for n, m in ((0, 1), (1, 2)) for l in (True, False) for c in (True, False)])
def photo_segment(env, n0, nmax, life, cont=False):
    """photoemission per wall segment, on a square chamber"""
    M = env.mod('gen_photoemission_class')
    log = laws(env, M, nmax)
    env.limit_draws(1 + 3 * nmax, lambda: env.Or(*[v == 0 for k, v in env.drawn()]))
    G = env.mod('geom_impact_poly_fast_impact')
    G.random.shuffle_ = None
    V = [(1, -1), (1, 1), (-1, 1), (-1, -1)]
    c = [env.real('cdf%d' % i, 0, 1) for i in range(3)] + [env.q(1)]
    for a, b in zip(c, c[1:]): env.assume(a <= b)
    A = lambda l: env.array([env.q(v) for v in l], 'f')
    ch = G.polyg_cham_photoemission(dict(Vx=A([v[0] for v in V]), Vy=A([v[1] for v in V]), x_sem_ellip_insc=env.array([env.q(1, 2)], 'f'), y_sem_ellip_insc=env.array([env.q(1, 2)], 'f'), phem_cdf=env.array(c, 'f')))
    ref, mass, kpe, lam, Dt, rs = start(env, n0, life, nmax, cont)
    ph = M.photoemission_per_segment(ch, 'gaussian', 1., 2., kpe, 'cosine_2D', beam_time(env, cont), cont)
    mp = make_mp(env, 8, life, nel_ref0=ref, mass=mass)
    fill(env, mp, n0, lifetime=life)
    before, fs = snap(mp, life)
    ph.generate(mp, lam, Dt)
    us = [v for k, v in env.drawn() if k == 'rand'][1:]
    new0, _ = snap(mp, life)
    n = len(new0) - n0
    # segment of each draw
    segs = [[i for i in range(4) if bool(env.And(u >= (c[i - 1] if i else 0), u < c[i]))][0] for u in us[:n]]
    segs.sort()
    norm = [(-1, 0), (0, -1), (1, 0), (0, 1)]
    eps = env.q(1, 10 ** 12)
    pts = [(new0[n0 + i][0], new0[n0 + i][1], norm[s][0], norm[s][1]) for i, s in enumerate(segs)]
    check_new(env, before, fs, mp, rs, ref, log, pts, life, 'number of photoelectrons')
    for i, s in enumerate(segs):
        x, y = pts[i][0], pts[i][1]
        d = [1 - x, 1 - y, 1 + x, 1 + y][s]
        env.check(env.And(d > 0, d < eps), 'created at its segment, inside')
        w = [y, x, y, x][s]
        env.check(env.And(w < 1 , w > -1), 'created within the length of its segment')


class CountIon:
    def __init__(self, log): self.log = log
    def generate(self, MP_e, lambda_t, Dt, sigmax, sigmay, x_beam_pos=0., y_beam_pos=0.):
        self.log.append(('ion', MP_e, lambda_t, Dt, sigmax, sigmay, x_beam_pos, y_beam_pos)); return MP_e


class CountPh:
    def __init__(self, log): self.log = log
    def generate(self, MP_e, lambda_t, Dt): self.log.append(('ph', MP_e, lambda_t, Dt)); return MP_e


@harness('C18', [dict(nsec=0), dict(nsec=1), dict(nsec=2)], [dict(nsec=n) for n in (0, 1, 2, 3)])
def sources(env, nsec):
    """which sources act in a step, with which beams"""
    B = env.mod('buildup_simulation')
    sim = object.__new__(B.BuildupSimulation)
    def beam(p):
        return Obj(lam_t_curr=env.real(p + 'lam', 0), Dt_curr=env.real(p + 'Dt', slo=0), sigmax=env.real(p + 'sx', 0), sigmay=env.real(p + 'sy', 0), x_beam_pos=env.real(p + 'x'), y_beam_pos=env.real(p + 'y'), tt_curr=env.real(p + 'tt', 0))
    main = beam('b'); sec = [beam('s%d' % i) for i in range(nsec)]
    sim.beamtim, sim.flag_presence_sec_beams, sim.sec_beams_list = main, nsec > 0, sec
    log = []
    gas, ph = env.choice('gas', [0, 1]), env.choice('photo', [0, 1, 2, 3])
    cl = Obj(MP_e=Obj(), t_ion=env.real('t_ion', 0), gas_ion_flag=gas, photoem_flag=ph, resgasion=CountIon(log) if gas else None, phemiss=CountPh(log) if ph else None)
    m0 = cl.MP_e
    lam0 = main.lam_t_curr
    sim._primary_generation(cl, main)
    env.check(cl.MP_e is m0, 'the cloud stays the same')
    ions = [l for l in log if l[0] == 'ion']; phs = [l for l in log if l[0] == 'ph']
    act = gas == 1 and bool(main.tt_curr < cl.t_ion)
    env.check(len(ions) == (1 + nsec if act else 0), 'every beam ionizes once per step, until the configured time')
    for l, b in zip(ions, [main] + sec):
        env.check(l[1] is m0, 'ionization in the cloud')
        for g, w in zip(l[2:], (b.lam_t_curr, b.Dt_curr, b.sigmax, b.sigmay, b.x_beam_pos, b.y_beam_pos)): env.eq(g, w, 'ionization with the parameters of each beam')
    env.check(len(phs) == (1 if ph else 0), 'photoemission once per step')
    for l in phs:
        env.check(l[1] is m0, 'photoemission in the cloud')
        env.eq(l[2], lam0 + env.sum([b.lam_t_curr for b in sec]), 'photoemission with the total line density'); env.eq(l[3], main.Dt_curr, 'photoemission with the length of the step')
    env.eq(main.lam_t_curr, lam0, 'the beam is unchanged')
