from symx.harness import harness
from .common import *

FUNCTIONS = ['BuildupSimulation._recompute_cloud_spacecharge, sim_time_step (the schedule)', 'space_charge.__init__, check_for_recomputation, recompute_spchg_efield, get_sc_eletric_field, get_potential_electric_energy, rho, phi, efx, efy', 'space_charge_electromagnetic (all)']
BOUNDS = ['up to 3 clouds of up to 2 macroparticles (storage of 3, with stale entries behind the last one), each with a charge of its own and arbitrary positions and sizes', 'up to 4 consecutive simulation steps at arbitrary increasing times, any start time and any interval', 'electromagnetic mode: two recomputations', 'averaging over simulations: 2 and 3 processes']
ASSUMPTIONS = ['The Poisson solver (PyPIC, an external package) is replaced by a contract: the deposit is linear in the charges and adds up in place or starts afresh, the solution is linear in the deposit, gathering reads the last solution and returns plain zeros without macroparticles.', 'sim_time_step is run with empty motion, emission, saving and cleaning stages for the schedule.']


def cloud(env, k, n, vel=False, conc=False, vals=None):
    c = Obj()
    q = env.q((-1, 3, -2)[k]) * env.q(1, 2)
    g = lambda f, i: env.real('%s%d_%d' % (f, k, i)) if i < n else env.q(7 + i)
    if conc: x, y = [env.q(2 * i - k - 1, 3) for i in range(3)], [env.q(k - i, 2) for i in range(3)]
    else: x, y = [g('x', i) for i in range(3)], [g('y', i) for i in range(3)]
    c.MP_e = Obj(x_mp=env.array(x, 'f'), y_mp=env.array(y, 'f'), nel_mp=env.array([g('nel', i) for i in range(3)], 'f'), N_mp=n, charge=q, mass=env.q(1))
    if vel:
        c.MP_e.vx_mp = env.array([g('vx', i) if not conc else env.q(3 * i - k + 1) for i in range(3)], 'f')
        c.MP_e.vy_mp = env.array([g('vy', i) if not conc else env.q(k - 2 * i - 1) for i in range(3)], 'f')
    c.rho = 0.
    return c


def deposit(c, f=lambda mp, i: 1):
    mp, r = c.MP_e, [0, 0, 0, 0]
    for i in range(mp.N_mp):
        w = StubPIC.weights(mp.x_mp[i], mp.y_mp[i])
        r = [a + mp.charge * mp.nel_mp[i] * f(mp, i) * b for a, b in zip(r, w)]
    return r


def simulation(env, clouds, sc, **kw):
    B = env.mod('buildup_simulation')
    sim = object.__new__(B.BuildupSimulation)
    sim.cloud_list, sim.spacech_ele, sim.flag_em_tracking, sim.t_sc_ON, sim.cross_ion = clouds, sc, sc.flag_em_tracking, kw.get('t_sc_ON', 0.), None
    sim.flag_presence_sec_beams, sim.sec_beams_list, sim.config_dict, sim.flag_reinterp_fields_at_substeps = False, [], {}, False
    return sim


def space_charge(env, **kw):
    stub_pypic(env)
    return env.mod('space_charge_class').space_charge(BoxChamb(1., 2.), env.q(1, 2), **kw)


def same(env, a, b, label):
    for k in range(4): env.eq(a[k], b[k], label)


@harness('C14', [dict(ns=(2,)), dict(ns=(1, 2)), dict(ns=(2, 0, 1)), dict(ns=(0, 1), force=True), dict(ns=(1, 1), off=True)], [dict(ns=ns, force=f) for ns in ((2,), (0,), (2, 2), (0, 2), (2, 1, 2), (1, 0, 0), (0, 0)) for f in (False, True)])
def total(env, ns, force=False, off=False):
    """one recomputation: the sum of the deposits of all clouds, solved once after the last one"""
    sc = space_charge(env, Dt_sc=env.q(1))
    pic = sc.PyPICobj
    clouds = [cloud(env, k, n) for k, n in enumerate(ns)]
    old = [env.real('old%d' % k) for k in range(4)]
    pic.rho = env.array(old, 'f')
    sim = simulation(env, clouds, sc, t_sc_ON=env.q(1))
    pos = [snap3(c) for c in clouds]
    sim._recompute_cloud_spacecharge(Obj(tt_curr=env.q(0) if force or off else env.q(2)), off or not force, force)
    if off:
        env.check(not pic.log, 'no recomputation before the start time'); same(env, sc.rho, old, 'density unchanged'); return
    want = [deposit(c) for c in clouds]
    tot = [sum(r[k] for r in want) for k in range(4)]
    same(env, sc.rho, tot, 'the density is the sum of the deposits of all clouds')
    ex, ey = StubPIC.field(tot)
    same(env, sc.efx, ex, 'the field is that of the total density'); same(env, sc.efy, ey, 'the field is that of the total density')
    env.check([l[0] for l in pic.log].count('solve') == 1 and pic.log[-1][0] == 'solve', 'solved once, after the last cloud')
    for c, r in zip(clouds, want): same(env, c.rho, r, 'density of each cloud')
    for k in range(4): env.eq(sum(c.rho[k] for c in clouds), sc.rho[k], 'densities of the clouds add up to the total')
    for c, p in zip(clouds, pos):
        for a, b in zip(snap3(c), p): env.eq(a, b, 'macroparticles unchanged')
    mp = clouds[0].MP_e
    Ex, Ey = sc.get_sc_eletric_field(mp)
    for i in range(mp.N_mp):
        w = StubPIC.weights(mp.x_mp[i], mp.y_mp[i])
        env.eq(Ex[i], sum(a * b for a, b in zip(sc.efx, w)), 'field seen by a macroparticle'); env.eq(Ey[i], sum(a * b for a, b in zip(sc.efy, w)), 'field seen by a macroparticle')
    env.check(mp.N_mp == 0 or len(Ex) == mp.N_mp, 'one value per macroparticle')


def snap3(c): return [v for f in (c.MP_e.x_mp, c.MP_e.y_mp, c.MP_e.nel_mp) for v in f]


@harness('C14', [dict(steps=3), dict(steps=4, t_on=True), dict(steps=2, every=True), dict(steps=3, force=1)], [dict(steps=5, t_on=True), dict(steps=3, every=True), dict(steps=4, force=1), dict(steps=4, force=2), dict(steps=5)])
def schedule(env, steps, t_on=False, every=False, force=None):
    """when the field is recomputed in a run of consecutive steps"""
    Dt = env.real('Dt_sc', slo=0) if not every else None
    sc = space_charge(env, Dt_sc=Dt)
    on = env.real('t_sc_ON') if t_on else env.q(-1)
    clouds = [cloud(env, k, 1, conc=True) for k in range(2)]
    for c in clouds:
        c.dynamics = c.impact_man = c.pyeclsaver = None
    sim = simulation(env, clouds, sc, t_sc_ON=on)
    stages = []
    for c in clouds:
        c.MP_e.get_positions = lambda: None
        c.impact_man = Obj(backtrack_and_second_emiss=lambda o, mp, t: mp, sey_mod=Obj(SEY_model_evol=lambda Dt: None))
    sim._cloud_motion = lambda c, *a, **k: stages.append('motion')
    sim._primary_generation = lambda *a, **k: stages.append('primaries')
    sim._save_output_data = lambda *a, **k: stages.append('save')
    sim._MP_cleaning_and_regenerations = lambda *a, **k: stages.append('clean')
    t, last = env.real('t0', 0), None
    done = []
    for s in range(steps):
        if s: t = t + env.real('gap%d' % s, slo=0)
        before = list(sc.PyPICobj.log)
        ex0, ey0, ph0 = list(sc.efx), list(sc.efy), list(sc.phi)
        for k, c in enumerate(clouds): c.MP_e.nel_mp[0] = env.q(s + 1 + k)
        del stages[:]
        sim.sim_time_step(Obj(tt_curr=t, Dt_curr=env.q(1), flag_new_bunch_pass=False), force_recompute_space_charge=(force == s))
        new = sc.PyPICobj.log[len(before):]
        solved = [l for l in new if l[0] == 'solve']
        env.check(stages == ['motion', 'primaries'] * 2 + ['save', 'clean'], 'stages of the step')
        if solved:
            env.check(len(solved) == 1 and [l[0] for l in new] == ['scatter', 'scatter', 'solve'], 'every cloud deposited once and solved once')
            env.check(env.Or(force == s, t > on), 'only after the start time')
            tot = [sum(deposit(c)[k] for c in clouds) for k in range(4)]
            same(env, sc.rho, tot, 'the density is that of this step')
            ex, ey = StubPIC.field(tot); same(env, sc.efx, ex, 'the field is that of this step')
            if done and force is None and not every: env.check(t - done[-1] >= Dt, 'at most once per interval')
            done.append(t)
        else:
            env.check(not new, 'nothing deposited without a recomputation')
            for k in range(4): env.eq(sc.efx[k], ex0[k], 'field unchanged between recomputations'); env.eq(sc.efy[k], ey0[k], 'field unchanged between recomputations'); env.eq(sc.phi[k], ph0[k], 'field unchanged between recomputations')
            env.check(force != s, 'a forced recomputation takes place')
            if every: env.check(t <= on, 'without an interval every step after the start recomputes')
            elif done and force is None: env.check(t - done[-1] < Dt, 'not later than the first step at which the interval has passed')
            elif force is None: env.check(env.Or(t <= on, t < Dt, t - Dt < on), 'the first recomputation is at most one interval after the start time')
        if not every: env.check(bool(sc.last_recomputation_check) == (True if solved and force != s else bool(sc.last_recomputation_check)), 'the record says when the interval has passed')


@harness('C14', [dict(n=1, m=0), dict(n=1, m=1), dict(n=0, m=1)], [dict(n=2, m=0), dict(n=2, m=1), dict(n=1, m=2)])
def electromagnetic(env, n, m):
    """currents, potentials and the fields derived from them"""
    import sys
    out = sys.stdout
    stub_pypic(env)
    g = env.choice('gamma', [env.q(5, 4), env.q(5, 3), env.q(13, 5)])
    S = env.mod('space_charge_class_electromagnetic')
    Dt = env.real('Dt_sc', slo=0)
    sc = S.space_charge_electromagnetic(BoxChamb(1., 2.), env.q(1, 2), g, Dt_sc=Dt); sys.stdout = out
    clouds = [cloud(env, k, k2, vel=True, conc=True) for k, k2 in enumerate((n, m)[:1 + (m > 0)])]
    sim = simulation(env, clouds, sc)
    mp = clouds[0].MP_e
    c = env.q(299792458)
    beta = env.sqrt(1 - 1 / (g * g))
    zero = [env.q(0)] * 4
    phi, Ax, Ay, Axo, Ayo, first = zero, zero, zero, zero, zero, True

    def gat(r, x, y, i): return sum(a * b for a, b in zip(StubPIC.field(r)[i], StubPIC.weights(x, y)))
    def pot(r, x, y): return 7 * sum(a * b for a, b in zip(r, StubPIC.weights(x, y)))
    def fields():
        v = sc.get_sc_em_field(mp)
        for i in range(n):
            x, y = mp.x_mp[i], mp.y_mp[i]
            dx, dy = (pot(Ax, x, y) - pot(Axo, x, y)) / Dt if not first else 0, (pot(Ay, x, y) - pot(Ayo, x, y)) / Dt if not first else 0
            L = 'fields follow from the potentials (%s)'
            env.near(v[0][i] * Dt, (gat(phi, x, y, 0) - dx) * Dt, L % 'Ex', 1e-9); env.near(v[1][i] * Dt, (gat(phi, x, y, 1) - dy) * Dt, L % 'Ey', 1e-9)
            env.near(v[2][i] * beta * c * Dt, dy * Dt, L % 'Bx', 1e-9); env.near(v[3][i] * beta * c * Dt, -dx * Dt, L % 'By', 1e-9)
            env.near(v[4][i] * Dt * c * c, Dt * c * c * (gat(Ax, x, y, 1) - gat(Ay, x, y, 0)), L % 'Bz', 1e-9)
    fields()
    for step in range(2):
        for ic, cl in enumerate(clouds):
            for i in range(cl.MP_e.N_mp): cl.MP_e.nel_mp[i] = env.real('nel_%d%d%d' % (step, ic, i), -4, 4)
        sc.PyPICobj.log[:] = []
        sim._recompute_cloud_spacecharge(Obj(tt_curr=env.q(2)), True, False); sys.stdout = out
        first = False
        Axo, Ayo = Ax, Ay
        f = lambda fn: [sum(deposit(cl, fn)[k] for cl in clouds) for k in range(4)]
        phi, Ax, Ay = f(lambda p, i: 1), f(lambda p, i: p.vx_mp[i] / c / c), f(lambda p, i: p.vy_mp[i] / c / c)
        same(env, sc.rho, phi, 'charge density of all clouds')
        for k in range(4): env.near(sc.state_Ax.rho[k] * c * c, Ax[k] * c * c, 'currents of all clouds', 1e-8); env.near(sc.state_Ay.rho[k] * c * c, Ay[k] * c * c, 'currents of all clouds', 1e-8)
        env.check([l[0] for l in sc.PyPICobj.log if l[0][:5] == 'solve'] == ['solve', 'solve_state', 'solve_state'], 'each potential solved once')
        for k in range(4): env.near(sc.state_Ax_old.phi[k] * c * c, 7 * Axo[k] * c * c, 'the previous potentials are kept', 1e-8); env.near(sc.state_Ay_old.phi[k] * c * c, 7 * Ayo[k] * c * c, 'the previous potentials are kept', 1e-8)
        Ax, Ay, Axo, Ayo = [[v[k] / 7 for k in range(4)] for v in (sc.state_Ax.phi, sc.state_Ay.phi, sc.state_Ax_old.phi, sc.state_Ay_old.phi)]
        fields()


@harness('C14', [dict(mode=m) for m in ('FiniteDifferences_ShortleyWeller', 'ShortleyWeller_WithTelescopicGrids', 'FiniteDifferences_Staircase', 'FFT_PEC_Boundary', 'FFT_OpenBoundary', 'nonsense')] + [dict(mode='FFT_PEC_Boundary', rect=False), dict(mode='FFT_OpenBoundary', rect=False)])
def solver(env, mode, rect=True):
    """the configured solver is built for the chamber, its grid and density are the ones exposed"""
    stub_pypic(env)
    ch = BoxChamb(1., 2.)
    ch.chamb_type = 'rect' if rect else 'ellip'
    Dh = env.real('Dh', slo=0)
    kw = dict(f_telescope=.25, target_grid={'a': 1}, N_nodes_discard=3., N_min_Dh_main=4) if 'Telescopic' in mode else {}
    make = lambda: env.mod('space_charge_class').space_charge(ch, Dh, PyPICmode=mode, sparse_solver='s', Dt_sc=env.q(1), **kw)
    if mode == 'nonsense' or not rect:
        env.check(env.raises(ValueError, make), 'an unknown solver, or one for another chamber, is rejected'); return
    sc = make()
    p = sc.PyPICobj
    main = p.main if 'Telescopic' in mode else p
    env.check(main.kind == dict(FiniteDifferences_ShortleyWeller='FiniteDifferences_ShortleyWeller_SquareGrid', ShortleyWeller_WithTelescopicGrids='FiniteDifferences_ShortleyWeller_SquareGrid', FiniteDifferences_Staircase='FiniteDifferences_Staircase_SquareGrid', FFT_PEC_Boundary='FFT_PEC_Boundary_SquareGrid', FFT_OpenBoundary='FFT_OpenBoundary')[mode], 'the configured solver')
    env.eq(main.Dh, Dh, 'grid size'); env.eq(sc.Dh, Dh, 'grid size')
    if 'FFT' in mode: env.check(main.kw['x_aper'] == 1. and main.kw['y_aper'] == 2., 'size of the chamber')
    else: env.check(main.chamb is ch and main.kw['sparse_solver'] == 's', 'chamber')
    if kw:
        for k, v in kw.items(): env.check(p.kw[k] == v, 'parameters of the telescopic grids')
    p.rho = env.array([env.real('r%d' % k) for k in range(4)], 'f')
    for a in ('rho', 'phi', 'efx', 'efy'): env.check(getattr(sc, a) is getattr(p, a), 'the density, potential and fields of the solver')
    env.check(sc.Nxg == p.Nxg and sc.xg is p.xg and sc.yg is p.yg and sc.Nyg == p.Nyg, 'grid of the solver')
    r = env.array([env.real('s%d' % k) for k in range(4)], 'f')
    sc.compute_spchg_efield_from_rho(r)
    same(env, sc.efx, StubPIC.field(r)[0], 'field of a given density')


@harness('C14', [dict(size=2, rank=0), dict(size=2, rank=1), dict(size=3, rank=0)])
def averaged(env, size, rank):
    """simulations running together share the mean density"""
    sc = space_charge(env)
    c = cloud(env, 0, 2)
    own = deposit(c)
    other = [[env.real('o%d_%d' % (s, k)) for k in range(4)] for s in range(size)]
    other[rank] = own
    mean = [sum(o[k] for o in other) / size for k in range(4)]
    sent = []

    class Comm:
        def Get_size(self): return size
        def Get_rank(self): return rank
        def Gather(self, send, recv):
            sent.extend(list(send))
            if rank == 0:
                for s in range(size):
                    for k in range(4): recv[4 * s + k] = other[s][k]
        def Bcast(self, a):
            if rank == 0:
                for k in range(4): env.eq(a[k], mean[k], 'the mean is distributed')
            else:
                for k in range(4): a[k] = mean[k]
    sc.comm = Comm()
    sc.recompute_spchg_efield(c.MP_e)
    same(env, sent, own, 'each simulation contributes its own density'); env.check(len(sent) == 4, 'each simulation contributes once')
    same(env, sc.rho, mean, 'the mean density'); same(env, sc.efx, StubPIC.field(mean)[0], 'the field of the mean density')


@harness('C14', [dict(on=True), dict(on=False)])
def energy(env, on):
    """electrostatic energy stored in the chamber"""
    stub_pypic(env)
    h = env.q(2, 3)
    sc = env.mod('space_charge_class').space_charge(BoxChamb(1., 2.), env.q(1, 2), Dt_sc=env.q(1), Dh_U_eV=h if on else None)
    if not on:
        env.check(env.raises(ValueError, sc.get_potential_electric_energy), 'no energy without a grid for it'); return
    k0 = env.choice('node', range(4))
    a, b = env.real('a'), env.real('b')
    p = sc.PyPICobj
    p.efx = env.array([a if k == k0 else env.q(0) for k in range(4)], 'f'); p.efy = env.array([b if k == k0 else env.q(0) for k in range(4)], 'f')
    tot = 0
    nx, ny = 4, 7
    for i in range(nx):
        for j in range(ny):
            w = StubPIC.weights(env.val(-1.01) + i * h, env.val(-2.02) + j * h)[k0]
            tot = tot + w * w * (a * a + b * b)
    env.near(sc.get_potential_electric_energy() * env.val(1.602176634e-19 / 8.8541878128e-12), tot * h * h / 2, 'half the squared field over the chamber, in eV', 1e-6)
