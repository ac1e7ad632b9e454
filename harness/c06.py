from symx.harness import harness
from .common import *

FUNCTIONS = ['impacts_on_surface of all secondary emission models', 'impact_management.backtrack_and_second_emiss', 'MP_system.add_new_MPs', 'hist_for.compute_hist and seg_impact.update_seg_impact (as called)']
BOUNDS = ['1 to 3 impacts of arbitrary charge, position, velocity and segment; an arbitrary emitted charge of up to 3 times the splitting limit (as many as 3 macroparticles per impact); Furman-Pivi: up to 3 electrons per impact', 'up to 3 stored macroparticles per step']
ASSUMPTIONS = ['The chamber is replaced by its contract (rectangle for the inside test; impact points inside it, arbitrary segments): the geometry itself is C04 / C05.', 'Yield and energy laws are C07 / C08: here SEY_process yields an arbitrary non-negative charge.',
               'The Furman-Pivi rejection loop is unrolled up to 8 random draws.']

NORM = [(-1, 0), (0.6, 0.8), (0, 1)]


def quiet_energy(env):
    """emission energies do not matter here"""
    ee = env.mod('electron_emission')
    ee.sec_energy_hilleret_model2 = lambda sw, N, *a: env.array([env.q(2)] * int(N), 'f')


def args(env, n, th, seg, E=None, mass=1.):
    d = dict(mass=mass, nel_impact=env.reals('nel', n, 0), x_impact=env.reals('x', n, -1, 1), y_impact=env.reals('y', n, -1, 1),
             z_impact=env.array([env.q(10 + i) for i in range(n)], 'f'),
             vx_impact=env.reals('vx', n), vy_impact=env.reals('vy', n), vz_impact=env.reals('vz', n),
             Norm_x=env.array([env.q(NORM[i][0]) for i in range(n)], 'f'), Norm_y=env.array([env.q(NORM[i][1]) for i in range(n)], 'f'),
             i_found=env.array([env.int('seg%d' % i, 0, 2) for i in range(n)], 'i') if seg else None,
             v_impact_n=env.reals('vn', n), E_impact_eV=E if E is not None else env.reals('E', n, 0), costheta_impact=env.array([env.q(1, 2)] * n, 'f'), nel_mp_th=th, flag_seg=seg)
    return d


def fixed_process(env, m, n, th, most=3):
    """SEY_process by contract: an arbitrary charge, elastic or not"""
    emit = env.reals('emit', n, 0)
    for i in range(n): env.assume(emit[i] <= most * th)
    el = [env.bool('el%d' % i) for i in range(n)]
    kept = [emit[i] for i in range(n)]
    m.SEY_process = lambda nel, *a: (emit[:len(nel)], env.array(el[:len(nel)], 'b'), env.array([env.Not(e) for e in el[:len(nel)]], 'b'))
    return kept, el


def by_impact(env, out, n):
    """new macroparticles of each impact (recognised by the longitudinal position)"""
    nel_new, z_new = out[11], out[14]
    return [[k for k in range(len(nel_new)) if bool(z_new[k] == 10 + i)] for i in range(n)]


def check_surface(env, a, out, n, want, split=None, el=None, zero_at_origin=False, tol=None):
    (tot, etype, info, nel_r, x_r, y_r, z_r, vx_r, vy_r, vz_r, seg_r, nel_n, x_n, y_n, z_n, vx_n, vy_n, vz_n, seg_n) = out
    for v in (tot, nel_r, x_r, y_r, z_r, vx_r, vy_r, vz_r, etype): env.check(len(v) == n, 'one replaced macroparticle per impact')
    nn = len(nel_n)
    for v in (x_n, y_n, z_n, vx_n, vy_n, vz_n): env.check(len(v) == nn, 'consistent new macroparticles')
    env.check(len(info['extended_event_type']) == n + nn, 'every macroparticle has an event type')
    groups = by_impact(env, out, n)
    env.check(sum(len(g) for g in groups) == nn, 'new macroparticles start at an impact point')
    for i in range(n):
        env.eq(tot[i], want[i], 'emitted charge of an impact is yield times impinging charge')
        env.eq(nel_r[i] + env.sum([nel_n[k] for k in groups[i]]), want[i], 'charge left by an impact is yield times impinging charge')
        for k in groups[i]:
            env.eq(x_n[k], a['x_impact'][i], 'new macroparticle starts at the impact point'); env.eq(y_n[k], a['y_impact'][i], 'new macroparticle starts at the impact point')
            env.ge(nel_n[k], 0, 'charge is not negative')
            env.check(env.Iff(info['extended_event_type'][n + k], etype[i]) if isinstance(el, list) else info['extended_event_type'][n + k] == etype[i], 'event type of new macroparticles')
            if a['flag_seg']: env.check(seg_n[k] == a['i_found'][i], 'new macroparticle belongs to the segment that was hit')
        env.ge(nel_r[i], 0, 'charge is not negative')
        placed = env.And(x_r[i] == a['x_impact'][i], y_r[i] == a['y_impact'][i], z_r[i] == a['z_impact'][i])
        env.check(env.Or(nel_r[i] == 0, placed), 'replaced macroparticle starts at the impact point')
        if a['flag_seg']: env.check(seg_r[i] == a['i_found'][i], 'replaced macroparticle belongs to the segment that was hit')
        if split is not None:
            for c in [nel_r[i]] + [nel_n[k] for k in groups[i]]:
                env.check(env.Or(el[i], c <= split), 'true secondaries are within the splitting limit')
            env.check(env.Implies(el[i], len(groups[i]) == 0), 'a reflected electron stays one macroparticle')
        if el is not None: env.check(env.Iff(info['extended_event_type'][i], env.Not(el[i])), 'event type of the impact')


def call(env, m, a, n):
    b = {k: (v.copy() if hasattr(v, 'copy') and hasattr(v, '__len__') else v) for k, v in a.items()}
    out = m.impacts_on_surface(**b)
    for k, v in b.items():
        if hasattr(v, '__len__') and k != 'i_found':
            for i in range(n): env.eq(v[i], a[k][i], 'impact data are not changed')
    return out


@harness('C06', [dict(n=1, seg=True), dict(n=2, seg=True), dict(n=2, seg=False), dict(n=3, seg=True, most=2)], [dict(n=1, seg=True, most=6), dict(n=1, seg=False), dict(n=2, seg=True, most=4), dict(n=2, seg=False), dict(n=3, seg=True)])
def surface(env, n, seg, most=3):
    """the splitting and replacing of all models that give a yield"""
    quiet_energy(env)
    m = sey_models(env, 'ecloud')
    th = env.real('th', slo=0)
    a = args(env, n, th, seg)
    want, el = fixed_process(env, m, n, th, most)
    check_surface(env, a, call(env, m, a, n), n, want, th, el)


@harness('C06', [dict(kind=k, n=n) for k in ('acc', 'cos', 'flat', 'file', 'nunif', 'charging') for n in (1,)], [dict(kind=k, n=n) for k in ('ecloud', 'acc', 'cos', 'flat', 'file', 'nunif', 'charging') for n in (1, 2)])
def models(env, kind, n):
    """the models themselves: whatever yield they report is what is emitted"""
    quiet_energy(env)
    m = sey_models(env, kind)
    th = env.real('th', slo=0)
    a = args(env, n, th, True, E=env.array([env.q(v) for v in (150, 20)[:n]], 'f'))
    if kind in ('nunif', 'charging'):
        for i in range(n): a['i_found'][i] = env.choice('s%d' % i, range(3))
    for i in range(n): env.assume(a['nel_impact'][i] <= th)
    seen = []
    real = m.SEY_process
    def spy(*x):
        o = real(*x)
        seen.append([list(v) for v in o])
        return o
    m.SEY_process = spy
    out = call(env, m, a, n)
    env.check(len(seen) == 1, 'yields are evaluated once per step')
    check_surface(env, a, out, n, seen[0][0], th, seen[0][1])


@harness('C06', [dict(n=1, excl=False, mcut=10), dict(n=2, excl=False, mcut=2), dict(n=2, excl=True, mcut=10)], [dict(n=n, excl=e, mcut=m) for n in (1, 2, 3) for e in (False, True) for m in (2, 10)])
def furman_pivi(env, n, excl, mcut):
    quiet_energy(env)
    env.limit_draws(8)
    m = sey_models(env, 'fpx' if excl else 'fp')
    m.M_cut = mcut
    a = args(env, n, env.real('th', slo=0), True)
    de, dr, dt = env.reals('de', n, 0), env.reals('dr', n, 0), env.reals('dt', n, 0)
    for i in range(n): env.assume(de[i] + dr[i] < 1)
    fb, fr = [env.bool('fb%d' % i) for i in range(n)], [env.bool('fr%d' % i) for i in range(n)]
    if excl: fr = [False] * n
    else:
        for i in range(n): env.assume(env.Not(env.And(fb[i], fr[i])))
    ft = [env.Not(env.Or(fb[i], fr[i])) for i in range(n)]
    B = lambda v: env.array(v, 'b')
    m.SEY_process = lambda *x: (B(fb), None if excl else B(fr), B(ft), de, None if excl else dr, dt)
    k0 = len(env.drawn())
    out = call(env, m, a, n)
    dr_ = [(j, v) for j, (kind, v) in enumerate(env.drawn()) if j >= k0 and kind == 'poisson']
    ts = [i for i in range(n) if bool(ft[i])]
    num, last = {}, {}
    # first one draw for every true secondary event, then further rounds for those above the cut
    pend, pos = ts, 0
    while pend:
        nxt = []
        for i in pend:
            j, v = dr_[pos]; pos += 1
            lam = env.drawn_params()[j][0]
            env.eq(lam * (1 - de[i] - (0 if excl else dr[i])), dt[i], 'mean number of true secondaries of such an event')
            num[i] = v
            if bool(v > mcut): nxt.append(i)
        pend = nxt
    env.check(pos == len(dr_), 'one number of electrons per true secondary event')
    want = [a['nel_impact'][i] * (num[i] if i in num else 1) for i in range(n)]
    check_surface(env, a, out, n, want)
    for i in range(n):
        if i in num: env.check(num[i] <= mcut, 'never more electrons than the cut')
        for c in [out[3][i]] + [out[11][k] for k in by_impact(env, out, n)[i]]:
            env.le(c, a['nel_impact'][i], 'no macroparticle bigger than the impinging one')
        t = out[2]['extended_event_type'][i]
        env.check(t == (3 if i in num and bool(num[i] == 0) else 1 if i in num else 2 if bool(fr[i]) else 0), 'event type of the impact')


@harness('C06', [dict(n=1), dict(n=2)], [dict(n=1), dict(n=2), dict(n=3)])
def absorber(env, n):
    m = sey_models(env, 'absorb')
    a = args(env, n, env.q(1), True)
    out = call(env, m, a, n)
    check_surface(env, a, out, n, [env.q(0)] * n)
    env.check(len(out[11]) == 0, 'nothing is emitted')


def imp_manager(env, chamb, sey, **kw):
    d = dict(Dx_hist=1., scrub_en_th=20., Nbin_En_hist=3, En_hist_max=2., Nbin_lifetime_hist=3, lifetime_hist_max=2., flag_lifetime_hist=False,
             flag_seg=False, flag_En_hist_seg=False, cos_angle_width=0.5, flag_cos_angle_hist=False)
    d.update(kw)
    return env.mod('impact_management_class').impact_management(chamb, sey, **d)


@harness('C06', [dict(n=1, seg=True), dict(n=2, seg=False), dict(n=2, seg=True, life=True), dict(n=3, seg=False, most=1)], [dict(n=1, seg=s, life=l, most=4) for s in (True, False) for l in (True, False)] + [dict(n=2, seg=s, life=l) for s in (True, False) for l in (True, False)] + [dict(n=3, seg=False, most=2)])
def step(env, n, seg, life=False, most=2):
    """a whole wall interaction step"""
    quiet_energy(env)
    imp = [(env.real('xi%d' % i, -1, 1), env.real('yi%d' % i, -1, 1), env.q(10 + i), env.q(NORM[i][0]), env.q(NORM[i][1]), i) for i in range(n)]
    ch = StubChamb(env, 1., 1., imp, 3 if seg else 0)
    if not seg: del ch.N_vert
    if not seg: ch.N_vert = 0
    mp = make_mp(env, 8, life, nel_ref0=env.real('nel_ref', slo=0), chamb=ch)
    fill(env, mp, n, lifetime=life, tail=False)
    for i in range(n):
        mp.z_mp[i] = env.q(i)
        mp.vx_mp[i], mp.vy_mp[i], mp.vz_mp[i] = env.q(-3), env.q(4), env.q(i)
        mp.y_mp[i] = env.q(0)
        mp.x_mp[i] = env.If(env.bool('hit%d' % i), env.q(2), env.q(1, 2))
    th = mp.nel_mp_split
    old = Obj(x_mp=mp.x_mp[:n] * 0, y_mp=mp.y_mp[:n] * 0, z_mp=mp.z_mp[:n] * 0)
    m = sey_models(env, 'ecloud')
    before, fs = snap(mp, life)
    hit = [i for i in range(n) if bool(mp.x_mp[i] >= 1)]
    want, el = fixed_process(env, m, n, th, most)
    ip = imp_manager(env, ch, m, flag_seg=seg, flag_lifetime_hist=life)
    tt = env.real('tt', 0)
    if life:
        for i in range(n): env.assume(mp.t_last_impact[i] <= tt)
    got = ip.backtrack_and_second_emiss(old, mp, tt)
    env.check(got is mp, 'the same cloud is returned')
    after, _ = snap(mp, life)
    nn = len(after) - n
    for i in range(n):
        if i not in hit: eq_mp(env, after[i], before[i], fs, 'macroparticles that did not hit are untouched')
    env.eq(env.sum([p[6] for p in after]), env.sum([before[i][6] for i in range(n) if i not in hit] + [want[k] for k in range(len(hit))]), 'total charge after the step')
    env.eq(ip.Nel_emit_last_step, env.sum([want[k] for k in range(len(hit))]), 'emitted charge of the step')
    for k, i in enumerate(hit):
        mine = [i] + [j for j in range(n, n + nn) if bool(after[j][2] == 10 + k)]
        env.eq(env.sum([after[j][6] for j in mine]), want[k], 'charge left by the impact')
        for j in mine:
            env.eq(after[j][0], imp[k][0], 'starts at the impact point'); env.eq(after[j][1], imp[k][1], 'starts at the impact point'); env.eq(after[j][2], 10 + k, 'starts at the impact point')
            env.check(env.Or(el[k], after[j][6] <= th), 'true secondaries are within the splitting limit')
            if life: env.eq(after[j][7], tt, 'time of the last impact')
    env.check(env.Implies(len(hit) == 0, nn == 0), 'nothing is emitted without impacts')
    no_stale_charge(env, mp)
