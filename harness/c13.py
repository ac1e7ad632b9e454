from symx.harness import harness
from .common import *

FUNCTIONS = ['beam_and_timing.bunch_train4', 'beam_and_timing.__init__, next_time_step, end_simulation, get_beam_eletric_field, _get_beam_eletric_field_PyPICstate', 'BuildupSimulation.run', 'int_field_for.int_field (as called)']
BOUNDS = ['profiles from file: 3 to 5 samples at arbitrary increasing times with arbitrary line densities; bunch spacing from a list', 'generated profiles: up to 3 bunches with arbitrary intensities on a fixed time grid, with common or individual bunch lengths', 'field maps of 3 x 3 nodes; one or no macroparticle at an arbitrary position', 'up to 2 secondary beams']
ASSUMPTIONS = ['Field solvers (PyPIC) and the Bassetti-Erskine formula are replaced by contracts: the code around them is checked, not the Poisson solution.', 'The error function in the charge density of the beam is replaced by a polynomial: the identity checked does not depend on it.', 'Samples are not further apart than the bunch spacing.']
C0 = 299792458


def fieldmap(env, n=3):
    """an arbitrary map on a fixed grid, as a file"""
    ex = [[env.q(3 * i + j * j - 2, 4) for j in range(n)] for i in range(n)]; ey = [[env.q(i * i - 2 * j + 5, 2) for j in range(n)] for i in range(n)]
    xx = [env.q(i - 1) for i in range(n)]; yy = [env.q(i, 2) - env.q(1, 2) for i in range(n)]
    env.put_file('map.mat', dict(Ex=env.array(ex, 'f'), Ey=env.array(ey, 'f'), xx=env.array(xx, 'f'), yy=env.array(yy, 'f')))
    return ex, ey, xx, yy


def plain_map(env):
    z = env.array([[env.q(1), env.q(2)], [env.q(3), env.q(4)]], 'f')
    env.put_file('map.mat', dict(Ex=z, Ey=z, xx=env.array([env.q(-1), env.q(1)], 'f'), yy=env.array([env.q(-1), env.q(1)], 'f')))


def profile(env, n, gap=(0, 5), t0=(0, 1), pre=''):
    """increasing times"""
    t = [env.real(pre + 't0', *t0)]
    for i in range(1, n):
        d = env.real(pre + 'gap%d' % i, slo=0, hi=gap[1])
        t.append(t[-1] + d)
    return t, [env.real(pre + 'lam%d' % i) for i in range(n)]


def beam(env, **kw):
    d = dict(flag_bunched_beam=False, fact_beam=1., coast_dens=0., beam_charge=1., beam_field_file=env.path('map.mat'), lam_th_beam_field=0., b_spac=5., chamb=BoxChamb(1., 1.), sigmax=1., sigmay=1.)
    d.update(kw)
    return env.mod('beam_and_timing').beam_and_timing(**d)


def iff_floor(env, t, b, n):
    """smallest passage number k with k b <= t < (k+1) b, by comparison"""
    for k in range(n):
        if bool(t < (k + 1) * b): return k
    return n


@harness('C13', [dict(n=4, b=5), dict(n=3, b=2, first=True), dict(n=5, b=5, uniform=True), dict(n=2, b=5)], [dict(n=n, b=b) for n in (3, 4, 5, 6) for b in (2, 5)] + [dict(n=4, b=3, first=True), dict(n=7, b=5, uniform=True)])
def advance(env, n, b, first=False, uniform=False):
    """every sample of a profile from file once and in order"""
    plain_map(env)
    if uniform:
        d = env.real('gap', slo=0, hi=b)
        t0 = env.real('t0', 0, 1)
        t, lam = [t0 + i * d for i in range(n)], [env.real('lam%d' % i) for i in range(n)]
    else:
        t, lam = profile(env, n, (0, b), (0, 12) if first else (0, 1))
    for x, y in zip(t, t[1:]): env.assume(y - x <= b)
    env.put_file('prof.mat', dict(t=env.array(t, 'f'), lam_t_array=env.array(lam, 'f')))
    fact, coast = env.real('fact'), env.real('coast')
    Dt0 = env.real('Dt', slo=0)
    bt = beam(env, beam_long_prof_file=env.path('prof.mat'), b_spac=env.q(b), fact_beam=fact, coast_dens=coast, Dt=Dt0)
    env.check(bt.pass_numb is None and bt.tt_curr is None, 'not started')
    D = [y - x for x, y in zip(t, t[1:])]
    mean = (t[-1] - t[0]) / (n - 1)
    if bt.flag_unif_Dt:
        for d in D: env.check(d - mean <= mean * env.val(1e-4), 'a uniform step only for uniform samples')
        env.eq(bt.Dt, D[0], 'the spacing of the samples is the step')
    else:
        env.check(env.Or(*[d - mean > mean * env.val(1e-4) for d in D]), 'non-uniform steps only for non-uniform samples')
        env.eq(bt.Dt, Dt0, 'the reference step is the configured one')
    last = iff_floor(env, -(-t[-1]), env.q(b), 30)
    env.check(env.And(bt.N_pass_tot * b >= t[-1], (bt.N_pass_tot - 1) * b < t[-1]), 'number of passages')
    old, seen = -1, 0
    while not bt.end_simulation():
        bt.next_time_step()
        i = seen; seen += 1
        env.check(seen <= n - 1, 'not beyond the last sample')
        env.eq(bt.tt_curr, t[i], 'every sample in order'); env.eq(bt.Dt_curr, t[i + 1] - t[i], 'the step is the spacing of consecutive samples')
        env.eq(bt.lam_t_curr, fact * lam[i] + coast, 'line density of the sample')
        p = iff_floor(env, t[i], env.q(b), 30)
        env.check(bt.pass_numb == p, 'number of the passage')
        env.check(bool(bt.flag_new_bunch_pass) == (p != old), 'a passage is announced once, when it begins')
        env.check(old == -1 or p in (old, old + 1), 'passage numbers increase by one')
        old = p
    env.check(seen == n - 1, 'every sample but the closing one')


@harness('C13', [dict(nb=2, sig='common'), dict(nb=3, sig='own'), dict(nb=1, sig='common', scalar=True), dict(nb=1, sig='own'), dict(nb=1, sig='missing'), dict(nb=2, sig='own', sec=True), dict(nb=1, sig='common', txt=True)], [dict(nb=n, sig=s) for n in (1, 2, 3, 4) for s in ('common', 'own')] + [dict(nb=2, sig='common', sec=True)])
def bunched(env, nb, sig, scalar=False, sec=False, txt=False):
    """profiles generated from a filling pattern"""
    plain_map(env)
    ppb = [env.real('ppb%d' % i, 0) for i in range(nb)]
    # distances in units of c: sigma 1, bunches 12 apart, samples every 3
    c = env.q(C0)
    sg = [env.q(v) for v in (1, 2, 1, 3)][:nb]
    sigma = env.q(1)
    bs, toff, Dt, tend = env.q(12) / c, env.q(5) / c, env.q(3) / c, env.q(6) / c
    kw = dict(b_spac=bs, t_offs=toff, Dt=Dt, t_end=tend, sigmaz=sigma if sig != 'missing' else -1, flag_bunched_beam=True)
    if txt: fp = 'pattern.txt'
    elif scalar: fp = ppb[0]
    elif sig == 'own':
        env.put_file('fill.mat', dict(ppb_vect=env.array(ppb, 'f'), sigmaz_vect=env.array(sg, 'f')))
        fp = env.path('fill.mat')
    else: fp = list(ppb)
    nt = 4 * nb + 4
    want_t = [3 * k / c for k in range(nt)]
    if sec:
        kw.update(flag_secodary_beam=True, t_primary_beam=env.array([3 * k / c for k in range(5)], 'f')); want_t = want_t[:5]
    fact, coast = env.real('fact'), env.real('coast')
    if sig == 'missing' or txt:
        env.check(env.raises(ValueError, beam, env, filling_pattern_file=fp, **kw), 'a pattern without bunch length or in text form is rejected'); return
    bt = beam(env, filling_pattern_file=fp, fact_beam=fact, coast_dens=coast, **kw)
    env.check(bt.flag_unif_Dt and len(bt.t) >= len(want_t) and len(bt.t) <= len(want_t) + 1 - sec and len(bt.lam_t_array) == len(bt.t), 'samples of the generated profile')
    for k, w in enumerate(want_t): env.near(bt.t[k] * c, w * c, 'samples of the generated profile', 1e-9)
    env.check(bt.t[-1] * c >= (12 * nb + 6) if not sec else True, 'the profile covers all bunches and the end time')
    for k in range(len(want_t)):
        z = env.q(3 * k)
        lam = env.q(0)
        for i in range(nb):
            s = sg[i] if sig == 'own' else sigma
            z0 = 5 + 12 * i
            if bool(abs(z - z0) < 10 * s) and (sig == 'own' or bool(ppb[i] > 0)):
                lam = lam + ppb[i] / (s * env.sqrt(2 * env.val(env.np.pi))) * env.np.exp(-(z - z0) * (z - z0) / (2 * s * s))
        env.near(bt.lam_t_array[k], fact * lam + coast, 'each bunch in its slot with its intensity', 1e-9)


@harness('C13', [dict(n=1), dict(n=1, along='y'), dict(n=0), dict(n=1, state=True), dict(n=1, state=True, along='y')], [dict(n=n, along=a, state=s) for n in (0, 1, 2) for a in 'xy' for s in (True, False)])
def field(env, n, along='x', state=False):
    """field of the beam at macroparticles"""
    env.put_file('prof.mat', dict(t=env.array([env.q(0), env.q(1), env.q(2)], 'f'), lam_t_array=env.array([env.choice('line density', [env.q(5, 2), env.q(-1, 3)]), env.real('lam1'), env.q(0)], 'f')))
    ch, th = env.choice('charge', [env.q(-2), env.q(3)]), env.real('th')
    if state:
        stub_pypic(env)
        M = env.mod('beam_and_timing'); M.sspe = Obj(erf=lambda x: x * x)
        bt = beam(env, beam_long_prof_file=env.path('prof.mat'), beam_charge=ch, lam_th_beam_field=th, beam_field_file='compute_FDSW_multigrid', Dh_beam_field=env.q(1), f_telescope_beam=.5, target_grid_beam={}, N_nodes_discard_beam=3., N_min_Dh_main_beam=5)
        s = bt.PyPIC_state
        s.efx, s.efy = env.array([env.q(k + 1) for k in range(4)], 'f'), env.array([env.q(3 - 2 * k) for k in range(4)], 'f')
    else:
        ex, ey, xx, yy = fieldmap(env)
        bt = beam(env, beam_long_prof_file=env.path('prof.mat'), beam_charge=ch, lam_th_beam_field=th)
    bt.next_time_step()
    def pos(name, sym):
        return env.reals(name, 3, -1, 1) if sym else env.array([env.choice(name + '0', [env.q(v, 4) for v in ((-2, 1) if name == 'y' else (-4, -1, 2))])] + [env.q(0)] * 2, 'f')
    mp = Obj(x_mp=pos('x', along == 'x'), y_mp=pos('y', along == 'y'), N_mp=n)
    x0 = [mp.x_mp[i] for i in range(3)]
    for i in range(n): env.assume(env.And(mp.x_mp[i] < 1, mp.y_mp[i] < env.q(1, 2), mp.y_mp[i] >= env.q(-1, 2)))
    Ex, Ey = bt.get_beam_eletric_field(mp)
    on = n > 0 and bool(bt.lam_t_curr > th)
    if not on:
        env.check(env.And(Ex == 0, Ey == 0), 'no field below the threshold (or without macroparticles)'); return
    env.check(len(Ex) == n and len(Ey) == n, 'one value per macroparticle')
    for i in range(n):
        x, y = mp.x_mp[i], mp.y_mp[i]
        if state:
            w = StubPIC.weights(x, y)
            wx, wy = [sum(e[k] * w[k] for k in range(4)) for e in (s.efx, s.efy)]
        else:
            a, b = (x + 1), (y + env.q(1, 2)) * 2
            h = lambda u: env.If(env.Or(u <= -1, u >= 1), 0, env.If(u >= 0, 1 - u, 1 + u))
            wx, wy = [env.sum([e[k][l] * h(a - k) * h(b - l) for k in range(3) for l in range(3)]) for e in (ex, ey)]
        env.eq(Ex[i], ch * bt.lam_t_curr * wx, 'the map scaled by charge and line density'); env.eq(Ey[i], ch * bt.lam_t_curr * wy, 'the map scaled by charge and line density')
        env.eq(mp.x_mp[i], x0[i], 'macroparticles stay in place')


def dens(env, x, y, h, x0, y0, sx, sy, s2):
    f = lambda u: u * u
    g = lambda u, u0, s: f((u - u0 + h / 2) / (s2 * s)) - f((u - u0 - h / 2) / (s2 * s))
    return g(x, x0, sx) * g(y, y0, sy) / (4 * h * h)


@harness('C13', [dict(mode='computeFD'), dict(mode=-1), dict(mode='compute_FDSW_multigrid'), dict(mode='computeBE'), dict(mode='computeBE', offset=True), dict(mode='computeFD', save=True), dict(mode='file', save=True)] + [dict(mode=m, missing=x) for m, x in (('computeFD', 'Dh_beam_field'), ('compute_FDSW_multigrid', 'Dh_beam_field'), ('compute_FDSW_multigrid', 'f_telescope_beam'), ('compute_FDSW_multigrid', 'target_grid_beam'), ('compute_FDSW_multigrid', 'N_nodes_discard_beam'), ('compute_FDSW_multigrid', 'N_min_Dh_main_beam'), ('computeBE', 'Nx'), ('computeBE', 'Ny'), ('computeBE', 'nimag'))],
         [dict(mode=m) for m in ('computeFD', -1, 'compute_FDSW_multigrid', 'computeBE')])
def maps(env, mode, offset=False, save=False, missing=None):
    """where the field map comes from"""
    stub_pypic(env)
    M = env.mod('beam_and_timing'); M.sspe = Obj(erf=lambda x: x * x)
    env.put_file('prof.mat', dict(t=env.array([env.q(0), env.q(1), env.q(2)], 'f'), lam_t_array=env.array([env.q(0)] * 3, 'f')))
    sx, sy, h = env.q(1, 2), env.q(1, 4), env.q(1, 8)
    x0, y0 = env.choice('position', [(env.q(0), env.q(0)), (env.q(1, 3), env.q(-1, 5)), (env.q(-3, 4), env.q(2, 3))]) if mode in (-1, 'computeFD', 'compute_FDSW_multigrid') else (env.q(0), env.q(0))
    kw = dict(sigmax=sx, sigmay=sy, x_beam_pos=x0, y_beam_pos=y0, beam_field_file=mode, beam_long_prof_file=env.path('prof.mat'), Dh_beam_field=h, f_telescope_beam=.5, target_grid_beam={}, N_nodes_discard_beam=3., N_min_Dh_main_beam=5, Nx=3, Ny=2, nimag=7)
    if mode == 'file': x = fieldmap(env); kw['beam_field_file'] = env.path('map.mat')
    if missing: kw[missing] = None
    if save: kw['save_beam_field_file_as'] = env.path('saved.mat')
    ch = BoxChamb(1., 1.)
    if mode == 'computeBE':
        ch.chamb_type = 'ellip'
        BE = env.mod('BassErsk')
        BE.BassErsk = lambda x, y, a, b: (x * 2 + y + a, y * 3 - x + b)
        BE.ImageTerms = lambda x, y, a, b, u, v, n: (x * a - n, y * b + n)
        if offset: kw['x_beam_pos'] = env.q(1, 2)
    if missing or offset:
        env.check(env.raises(ValueError, beam, env, chamb=ch, **kw), 'a field computation without its parameters is rejected'); return
    bt = beam(env, chamb=ch, **kw)
    if mode == 'computeBE':
        env.check(len(bt.xx_beam) == 3 and len(bt.yy_beam) == 2, 'grid of the map')
        X, Y = [env.val(-1.02), env.q(0), env.val(1.02)], [env.val(-1.02), env.val(1.02)]
        for i in range(3):
            for j in range(2):
                env.near(bt.xx_beam[i], X[i], 'grid of the map', 1e-12); env.near(bt.yy_beam[j], Y[j], 'grid of the map', 1e-12)
                env.near(bt.Ex_beam[i, j], X[i] * 2 + Y[j] + sx + X[i] - 7, 'formula plus images at each node', 1e-9)
                env.near(bt.Ey_beam[i, j], Y[j] * 3 - X[i] + sy + Y[j] + 7, 'formula plus images at each node', 1e-9)
        return
    if mode == 'file':
        s = env.get_file('saved.mat')
        for i in range(3):
            for j in range(3): env.eq(s['Ex'][i][j], x[0][i][j], 'saved map'); env.eq(s['Ey'][i][j], x[1][i][j], 'saved map')
        return
    s2 = env.sqrt(env.q(2))
    pics = StubPIC.instances
    for p in pics:
        if mode == 'compute_FDSW_multigrid':
            if p is pics[1]: continue
            rho, hh = p.rho, p.Dh
        else:
            sol = [l for l in p.log if l[0] == 'solve']
            env.check(len(sol) == 1, 'one solution')
            rho, hh = sol[0][1], h
        env.eq(p.Dh, hh, 'configured grid'); env.check(len(rho) == 9, 'density on the whole grid')
        for k in range(9): env.eq(rho[k], dens(env, p.xn[k], p.yn[k], hh, x0, y0, sx, sy, s2), 'density of the beam averaged over each cell')
    if mode == 'compute_FDSW_multigrid': env.check([l[0] for l in pics[1].log] == ['solve', 'state'] , 'solved once, then kept')
    else:
        env.check(bt.Ex_beam is pics[0].efx and bt.Ey_beam is pics[0].efy, 'field of the solution')
        if save:
            s = env.get_file('saved.mat')
            for k in range(4): env.eq(s['Ex'][k], bt.Ex_beam[k], 'saved map')


@harness('C13', [dict(case='ok'), dict(case='length'), dict(case='shift'), dict(case='outside')])
def secondary(env, case):
    """secondary beams have the time base of the main beam, beams are inside the chamber"""
    plain_map(env)
    t = [env.q(i, 4) for i in range(4)]
    tp = [env.q(i, 4) for i in range(4)]
    if case == 'length': tp = tp[:3]
    if case == 'shift':
        k = env.choice('k', range(4)); d = env.real('d', -1, 1)
        tp[k] = tp[k] + d
    env.put_file('prof.mat', dict(t=env.array(t, 'f'), lam_t_array=env.array([env.q(1)] * 4, 'f')))
    kw = dict(beam_long_prof_file=env.path('prof.mat'), flag_secodary_beam=True, t_primary_beam=env.array(tp, 'f'), Dt=env.q(1, 4))
    if case == 'outside':
        x, y = env.real('x'), env.real('y')
        bad = env.raises(ValueError, beam, env, x_beam_pos=x, y_beam_pos=y, **kw)
        env.check(env.Iff(bad, env.Or(abs(x) >= 1, abs(y) >= 1)), 'a beam outside the chamber is rejected')
    elif case == 'shift':
        bad = env.raises(ValueError, beam, env, **kw)
        env.check(env.Iff(bad, abs(d) > env.val(1e-4) * env.q(1, 4)), 'another time base is rejected')
    elif case == 'length': env.check(env.raises(ValueError, beam, env, **kw), 'another time base is rejected')
    else:
        bt = beam(env, **kw)
        env.check(bt.flag_secodary_beam, 'secondary beam')


@harness('C13', [dict(nsec=0), dict(nsec=2), dict(nsec=1, stop=True)], [dict(nsec=n, stop=s) for n in (0, 1, 2) for s in (True, False)])
def run(env, nsec, stop=False):
    """the loop of the simulation"""
    plain_map(env)
    t, lam = [env.q(0), env.q(1), env.q(3), env.q(4)], [env.real('lam%d' % i) for i in range(4)]
    env.put_file('prof.mat', dict(t=env.array(t, 'f'), lam_t_array=env.array(lam, 'f')))
    bt = beam(env, beam_long_prof_file=env.path('prof.mat'), b_spac=env.q(3), Dt=env.q(1))
    sec = [beam(env, beam_long_prof_file=env.path('prof.mat'), b_spac=env.q(3), Dt=env.q(1), flag_secodary_beam=True, t_primary_beam=bt.t, fact_beam=env.q(k + 2)) for k in range(nsec)]
    B = env.mod('buildup_simulation')
    sim = object.__new__(B.BuildupSimulation)
    sim.beamtim, sim.sec_beams_list, sim.flag_presence_sec_beams = bt, sec, nsec > 0
    log = []
    sim.sim_time_step = lambda *a, **k: log.append([(b.tt_curr, b.Dt_curr, b.lam_t_curr) for b in [bt] + sec])
    te = env.real('t_stop', -1, 6) if stop else None
    sim.run(te) if stop else sim.run()
    n = 0
    while n < 3:
        if stop and n and bool(t[n - 1] >= te): break
        n += 1
    env.check(len(log) == n, 'one simulation step per sample, until the last one or the requested time')
    for i, l in enumerate(log):
        for k, (a, b, c) in enumerate(l):
            env.eq(a, t[i], 'all beams at the same time'); env.eq(b, t[i + 1] - t[i], 'all beams with the same step'); env.eq(c, lam[i] * (k + 1), 'line density of each beam')
    if not stop: env.check(bt.end_simulation(), 'ended')
