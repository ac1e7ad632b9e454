from symx.harness import harness
from .common import *

FUNCTIONS = ['BuildupSimulation._cloud_motion, _apply_instantaneous_kick, _get_field_from_beams_at_particles, _get_field_from_clouds_at_particles, sim_time_step, _primary_generation, _save_output_data, _MP_cleaning_and_regenerations', 'MP_system.get_positions']
BOUNDS = ['up to 2 macroparticles with arbitrary positions and velocities, up to 2 secondary beams, up to 3 clouds', 'up to 3 sub-steps per step (arbitrary step lengths; numbers of sub-steps from lists)']
ASSUMPTIONS = ['The trackers are replaced by a contract: step() moves for the configured step, stepcustomDt() for the product of its arguments, with the given fields held constant (C09, C10 decide the trackers themselves).', 'The fields of beams and of the cloud are given functions of the position.']


class Dynamics:
    """a tracker by contract"""
    def __init__(self, env, Dt, **kw):
        self.env, self.Dt, self.calls = env, Dt, []
        self.__dict__.update(kw)

    def move(self, mp, Ex, Ey, Dt, B):
        self.calls.append((Dt, B))
        for i in range(mp.N_mp):
            f = lambda e: e if not hasattr(e, '__len__') else e[i] if len(e) > 1 or mp.N_mp == 1 else e[0]
            mp.vx_mp[i] = mp.vx_mp[i] + f(Ex) * mp.charge / mp.mass * Dt
            mp.vy_mp[i] = mp.vy_mp[i] + f(Ey) * mp.charge / mp.mass * Dt
            mp.x_mp[i] = mp.x_mp[i] + mp.vx_mp[i] * Dt; mp.y_mp[i] = mp.y_mp[i] + mp.vy_mp[i] * Dt
        return mp

    def step(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0.):
        return self.move(MP_e, Ex_n, Ey_n, self.Dt, (Bx_n, By_n, Bz_n))

    def stepcustomDt(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0., Dt_substep=None, N_sub_steps=None):
        return self.move(MP_e, Ex_n, Ey_n, Dt_substep * N_sub_steps, (Bx_n, By_n, Bz_n))


class Beam:
    """a beam by contract: a field linear in the position, or plain zeros"""
    def __init__(self, env, k, on=True, **kw):
        self.env, self.k, self.on, self.n = env, k, on, 0
        self.__dict__.update(kw)

    def at(self, x, y): return (self.k + 1, self.k - 3 * y) if self.on else (0, 0)

    def get_beam_eletric_field(self, mp):
        self.n += 1
        if not self.on or mp.N_mp == 0: return 0., 0.
        v = [self.at(mp.x_mp[i], mp.y_mp[i]) for i in range(mp.N_mp)]
        return self.env.array([self.env.val(a) for a, b in v], 'f'), self.env.array([b for a, b in v], 'f')


class Cloud:
    """the space-charge field by contract"""
    flag_em_tracking = False

    def __init__(self, env, em=False): self.env, self.flag_em_tracking, self.n = env, em, 0

    @staticmethod
    def at(x, y): return 2 * x, x - y

    def get_sc_eletric_field(self, mp):
        self.n += 1
        if mp.N_mp == 0: return 0., 0.
        v = [self.at(mp.x_mp[i], mp.y_mp[i]) for i in range(mp.N_mp)]
        return self.env.array([a for a, b in v], 'f'), self.env.array([b for a, b in v], 'f')

    def get_sc_em_field(self, mp):
        return self.get_sc_eletric_field(mp) + tuple(self.env.array([k * mp.x_mp[i] for i in range(mp.N_mp)], 'f') for k in (1, 2, 3))


def sim(env, sc, sec, **kw):
    B = env.mod('buildup_simulation')
    s = object.__new__(B.BuildupSimulation)
    d = dict(spacech_ele=sc, flag_em_tracking=sc.flag_em_tracking, flag_presence_sec_beams=len(sec) > 0, sec_beams_list=sec, config_dict=dict(track_method='Boris'), flag_reinterp_fields_at_substeps=False, t_sc_ON=0., cross_ion=None)
    d.update(kw)
    s.__dict__.update(d)
    return s


def particles(env, n, conc=True):
    g = lambda f, i, a, b: env.q(a, b) if conc else env.real('%s%d' % (f, i), -1, 1)
    return Obj(x_mp=env.array([g('x', i, 2 * i - 1, 3) for i in range(n)] + [env.q(9)], 'f'), y_mp=env.array([g('y', i, 1 - i, 2) for i in range(n)] + [env.q(9)], 'f'),
               vx_mp=env.array([env.real('vx%d' % i, -1, 1) for i in range(n)] + [env.q(9)], 'f'), vy_mp=env.array([env.real('vy%d' % i, -1, 1) for i in range(n)] + [env.q(9)], 'f'), N_mp=n, charge=env.q(-3, 2), mass=env.q(5, 4))


def expected(env, mp0, sc, beams, plan, kick=0):
    """plan: durations of the stretches over which the fields are held"""
    out = []
    qm = mp0.charge / mp0.mass
    for i in range(mp0.N_mp):
        x, y, vx, vy = mp0.x_mp[i], mp0.y_mp[i], mp0.vx_mp[i], mp0.vy_mp[i]
        if kick:
            e = [b.at(x, y) for b in beams]
            vx, vy = vx + sum(a for a, b in e) * qm * kick, vy + sum(b for a, b in e) * qm * kick
        for T in plan:
            e = [sc.at(x, y)] + ([] if kick else [b.at(x, y) for b in beams])
            vx, vy = vx + sum(a for a, b in e) * qm * T, vy + sum(b for a, b in e) * qm * T
            x, y = x + vx * T, y + vy * T
        out.append((x, y, vx, vy))
    return out


CASES = [dict(mode='plain'), dict(mode='plain', n=1, sec=2), dict(mode='plain', em=True), dict(mode='plain', n=0, sec=1), dict(mode='plain', sec=1, off=True),
         dict(mode='object', N=1), dict(mode='object', N=3, sec=1), dict(mode='none'), dict(mode='custom', N=2), dict(mode='custom', N=2, kick=True, sec=1), dict(mode='custom', N=3, reinterp='force', sec=1), dict(mode='custom', N=2, kick=True, reinterp='flag', sec=1),
         dict(mode='custom', N=3, n=0, kick=True, sec=1), dict(mode='object', N=2, reinterp='flag'), dict(mode='nonuniform', N=1), dict(mode='nonuniform', N=2, reinterp='flag', n=1)]


@harness('C15', CASES, CASES + [dict(mode=m, N=N, reinterp=r, sec=s, em=em) for m in ('object', 'custom', 'nonuniform') for N in (1, 2, 3) for r in (None, 'flag', 'force') for s in (0, 2) for em in (False, True) if not (em and r)])
def motion(env, mode, N=None, n=2, sec=0, kick=False, reinterp=None, em=False, off=False):
    """one cloud, one step"""
    sc = Cloud(env, em)
    beams = [Beam(env, k + 1, on=not (off and k == 0)) for k in range(1 + sec)]
    mp = particles(env, n, conc=n > 1)
    mp0 = Obj(**{k: (list(v) if hasattr(v, '__len__') else v) for k, v in mp.__dict__.items()})
    s = sim(env, sc, beams[1:], flag_reinterp_fields_at_substeps=reinterp == 'flag')
    beam = beams[0]
    beam.flag_unif_Dt = mode != 'nonuniform'
    Dts, Ns = None, None
    if mode in ('plain', 'none'):
        Dt = env.choice('Dt', [env.q(1, 3), env.q(2)]) if n > 1 else env.real('Dt', 0, 4)
        dyn = Dynamics(env, Dt, **(dict(N_sub_steps=None) if mode == 'none' else {})); plan = [Dt]
    elif mode == 'object':
        Dt = env.choice('Dt', [env.q(1, 3), env.q(2)])
        dyn = Dynamics(env, Dt, N_sub_steps=N); plan = [Dt] if reinterp is None else [Dt / N] * N
    elif mode == 'custom':
        dyn = Dynamics(env, env.q(7), N_sub_steps=5)
        Dts, Ns = env.choice('Dt_substep', [env.q(1, 5), env.q(3, 2)]), N
        plan = [Dts * N] if reinterp is None else [Dts] * N
    else:
        dyn = Dynamics(env, env.q(3), N_sub_steps=N)
        Dt = env.choice('Dt', [env.q(1, 10), env.q(7, 5), env.q(3), env.q(5)])
        ratio = {1: (1, 1, 1, 2), 2: (1, 1, 2, 3)}.get(N)
        k = ratio[[1, 14, 30, 50].index(int(Dt * 10))] if ratio else int(max(1, int(Dt * N / 3 + env.q(1, 2))))
        plan = [Dt] if reinterp is None else [Dt / k] * k
        beam.Dt_curr = Dt
    if mode != 'nonuniform': beam.Dt_curr = dyn.Dt
    cl = Obj(MP_e=mp, dynamics=dyn)
    s._cloud_motion(cl, beam, Dts, Ns, kick, reinterp == 'force')
    want = expected(env, mp0, sc, beams, plan, sum(plan) if kick else 0)
    env.check(cl.MP_e is mp and mp.N_mp == n, 'the same macroparticles')
    for i, w in enumerate(want):
        for a, b, f in zip((mp.x_mp[i], mp.y_mp[i], mp.vx_mp[i], mp.vy_mp[i]), w, ('x', 'y', 'vx', 'vy')): env.eq(a, b, 'motion over the whole step in the field of the cloud and of every beam (%s)' % f)
    env.eq(mp.x_mp[n], 9, 'unused storage'); env.eq(mp.vx_mp[n], 9, 'unused storage')
    env.eq(sum(T for T, B in dyn.calls), sum(plan), 'the motion lasts the whole step')
    for T, B in dyn.calls:
        for k in range(3):
            if not em: env.check(all(bool(v == 0) for v in (B[k] if hasattr(B[k], '__len__') else [B[k]])), 'no magnetic field of the cloud in electrostatic mode')
            else:
                for i in range(n): env.eq(B[k][i], (k + 1) * mp0.x_mp[i], 'magnetic field of the cloud at the macroparticles')


@harness('C15', [dict(case=c) for c in ('custom', 'nonuniform', 'kick', 'reinterp')])
def rejected(env, case):
    """combinations that cannot be tracked"""
    sc, beam = Cloud(env), Beam(env, 1, flag_unif_Dt=case != 'nonuniform', Dt_curr=env.q(1))
    tm = env.choice('track_method', ['Dipole', 'StrongBdip', 'Boris', 'BorisMultipole'])
    s = sim(env, sc, [], config_dict=dict(track_method=tm))
    cl = Obj(MP_e=particles(env, 1), dynamics=Dynamics(env, env.q(1), **(dict(N_sub_steps=2) if case == 'nonuniform' else {})))
    bad = env.raises(ValueError, s._cloud_motion, cl, beam, env.q(1) if case == 'custom' else None, 1 if case == 'custom' else None, case == 'kick', case == 'reinterp')
    if case in ('kick', 'reinterp'): env.check(bad, 'rejected without sub-steps')
    else: env.check(bad == (tm[:5] != 'Boris'), 'sub-steps only with the Boris trackers')


def real_cloud(env, k, log, chamb, n=1):
    c = Obj(k=k)
    mp = make_mp(env, 3)
    for i in range(n):
        mp.x_mp[i], mp.y_mp[i], mp.z_mp[i] = [env.real('%s%d_%d' % (f, k, i), -1, 1) for f in 'xyz']
        mp.nel_mp[i] = env.q(1)
    mp.N_mp = n
    c.MP_e, c.rho = mp, 'rho%d' % k
    for f in ('clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
        setattr(mp, f, lambda f=f: log.append((k, f)))
    return c


STEP = [dict(nc=1), dict(nc=2, sec=1), dict(nc=2, skip=(True, False)), dict(nc=1, skip=(False, True), obj=True), dict(nc=3, cross=True)]


@harness('C15', STEP, STEP + [dict(nc=n, sec=s, skip=k, obj=o, cross=c) for n in (1, 2) for s in (0, 2) for k in ((False, False), (True, True)) for o in (False, True) for c in (False, True)])
def stages(env, nc, sec=0, skip=(False, False), obj=False, cross=False):
    """one simulation step: order of the stages, what each of them is given"""
    log, given = [], {}
    clouds = [real_cloud(env, k, log, None) for k in range(nc)]
    new_pass, t, Dt = env.flag('new passage'), env.real('t'), env.real('Dt', slo=0)
    beam = Beam(env, 1, tt_curr=t, Dt_curr=Dt, flag_unif_Dt=True, flag_new_bunch_pass=new_pass, lam_t_curr=env.real('lam'), sigmax=env.q(1), sigmay=env.q(2), x_beam_pos=env.q(3), y_beam_pos=env.q(4))
    secs = [Beam(env, 2 + k, tt_curr=t, Dt_curr=Dt, lam_t_curr=env.real('lam%d' % k), sigmax=env.q(5 + k), sigmay=env.q(6 + k), x_beam_pos=env.q(7 + k), y_beam_pos=env.q(8 + k)) for k in range(sec)]
    lam = beam.lam_t_curr
    re = env.flag('recomputation due')
    sc = Obj(flag_em_tracking=False, rho=env.array([env.q(1)] * 2, 'f'))
    sc.check_for_recomputation = lambda t_curr=None: (log.append('due'), given.__setitem__('due', t_curr), re)[2]
    sc.recompute_spchg_efield = lambda mp, flag_solve=True, flag_reset=True: log.append((['recompute', 'solve'][flag_solve], [c.MP_e is mp for c in clouds].index(True)))
    t_ion, gas, pho = env.real('t_ion'), env.flag('gas'), env.flag('photoemission')
    for c in clouds: setup_cloud(env, c, log, given, t_ion, gas, pho)
    s = sim(env, sc, secs, cloud_list=clouds, beamtim=Obj() if obj else beam, t_sc_ON=t - 1)
    s._cloud_motion = lambda c, b, *a, **k: (log.append(('move', c.k)), c.MP_e.x_mp.__setitem__(0, env.q(5)), c.MP_e.y_mp.__setitem__(0, env.q(6)), env.check(b is beam, 'beam of the step'))
    if cross: s.cross_ion = Obj(generate=lambda Dt, cloud_list: (log.append('cross'), given.__setitem__('cross', (Dt, cloud_list))))
    start = [[getattr(c.MP_e, f)[0] for f in ('x_mp', 'y_mp', 'z_mp')] for c in clouds]
    s.sim_time_step(beam if obj else None, skip_MP_cleaning=skip[0], skip_MP_regen=skip[1])
    want = []
    for k in range(nc):
        want += [('move', k), ('impacts', k)]
        if gas and bool(t < t_ion): want += [('gas', k)] * (1 + sec)
        if pho: want += [('photo', k)]
    if cross: want.append('cross')
    if re: want += [('recompute' if k < nc - 1 else 'solve', k) for k in range(nc)]
    want += [('save', k) for k in range(nc)]
    for k in range(nc):
        if new_pass and not skip[0]: want.append((k, 'clean_small_MPs'))
        if new_pass and not skip[1]: want += [(k, 'check_for_regeneration'), (k, 'check_for_soft_regeneration')]
        want.append((k, 'check_for_async_regeneration'))
    free = ['due'] + [('evolve', k) for k in range(nc)]
    env.check([l for l in log if l not in free] == want, 'stages in the documented order for every cloud')
    for l in free: env.check(log.count(l) == 1, 'every cloud evolves once')
    for k in range(nc): env.check(log.index(('impacts', k)) < log.index(('evolve', k)) < log.index(('save', 0)), 'surfaces evolve after the impacts')
    env.eq(given['due'], t, 'schedule asked for the current time')
    for k in range(nc):
        old, tt = given['impacts', k]
        for f, v in zip(('x_mp', 'y_mp', 'z_mp'), start[k]): env.eq(getattr(old, f)[0], v, 'wall crossing starts from the position at the start of the step')
        env.eq(tt, t, 'time of the impacts'); env.eq(given['evolve', k], Dt, 'surfaces evolve for the step')
        if ('gas', k) in want:
            for (l, D, sx, sy, xb, yb), b in zip(given['gas', k], [beam] + secs):
                env.eq(l, lam if b is beam else b.lam_t_curr, 'ionization by each beam'); env.eq(D, Dt, 'ionization over the step')
                for u, v in zip((sx, sy, xb, yb), (b.sigmax, b.sigmay, b.x_beam_pos, b.y_beam_pos)): env.eq(u, v, 'ionization around each beam')
        if pho: env.eq(given['photo', k][0], lam + sum(b.lam_t_curr for b in secs), 'photoemission by all beams'); env.eq(given['photo', k][1], Dt, 'photoemission over the step')
        w = given['save', k]
        env.check(w['mp'] is clouds[k].MP_e and (re or w['rho'] == 'rho%d' % k), 'each cloud is saved with its own data')
    env.eq(beam.lam_t_curr, lam, 'line density unchanged')
    if cross: env.eq(given['cross'][0], Dt, 'cross-ionization over the step'); env.check(given['cross'][1] is clouds, 'cross-ionization of all clouds')


def setup_cloud(env, c, log, given, t_ion, gas, pho):
    k = c.k
    c.t_ion, c.gas_ion_flag, c.photoem_flag = t_ion, int(gas), int(pho)
    c.dynamics = None
    c.impact_man = Obj(sey_mod=Obj(SEY_model_evol=lambda Dt: (log.append(('evolve', k)), given.__setitem__(('evolve', k), Dt))))

    def impacts(old, mp, t):
        log.append(('impacts', k)); given['impacts', k] = old, t
        return mp
    c.impact_man.backtrack_and_second_emiss = impacts

    def gen(mp, lam, Dt, sx, sy, x_beam_pos=0., y_beam_pos=0.):
        log.append(('gas', k)); given.setdefault(('gas', k), []).append((lam, Dt, sx, sy, x_beam_pos, y_beam_pos))
        return mp
    c.resgasion = Obj(generate=gen)
    c.phemiss = Obj(generate=lambda mp, lam, Dt: (log.append(('photo', k)), given.__setitem__(('photo', k), (lam, Dt))))

    def witness(mp, beamtim, sc, im, *a, **kw):
        log.append(('save', k)); given['save', k] = dict(mp=mp, rho=kw.get('rho_cloud'))
        return im
    c.pyeclsaver = Obj(witness=witness)
