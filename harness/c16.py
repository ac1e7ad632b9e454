from symx.harness import harness
from .common import *

FUNCTIONS = ['pyecloud_saver.start_observing, witness, _stepbystep_data_init, _stepbystep_data_save, _stepbystep_check_for_data_resize, _stepbystep_get_dict, _pass_by_pass_data_init, _pass_by_pass_data_save, _energy_cos_and_lifetime_angle_hist_init/_save, build_outp_dict, _MP_state_init/_save, _rho_video_init/_save, _sc_video_init/_save', 'impact_management_class.impact_management.reset_* (histograms)', 'hist_for.compute_hist (from compute_hist.f)']
BOUNDS = ['up to 7 consecutive steps with arbitrary times (uniform or not), any recorded quantities, up to 3 bunch passages at arbitrary steps', 'decimation factors 1 to 3; growing storage starting from 2 samples', 'up to 2 macroparticles with arbitrary sizes and velocities, up to 2 density probes, 2 wall segments']
ASSUMPTIONS = ['The quantities recorded by the impact management, the cross-ionization, the space charge and custom observables are arbitrary values (C12, C14, C19 decide them); resets set the accumulated histograms to zero.', 'Files are kept in memory (in replays they are written to a scratch folder).', 'Steps are further apart than rounding errors; the first step is not before time zero.']


class Impacts:
    """the accumulators of the impact management by contract"""
    HISTS = dict(nel_impact_hist_tot='reset_impact_hist_tot', nel_impact_hist_scrub='reset_impact_hist_scrub', energ_eV_impact_hist='reset_energ_eV_impact_hist', En_hist_line='reset_En_hist_line', cos_angle_hist='reset_cos_angle_hist',
                 lifetime_hist_line='reset_lifetime_hist_line', nel_hist_impact_seg='reset_hist_impact_seg', nel_hist_emit_seg='reset_hist_emit_seg', energ_eV_impact_seg='reset_energ_impact_seg')

    def __init__(self, env, seg=False, lifetime=False, enseg=False):
        self.env, self.flag_seg, self.flag_En_hist_seg = env, seg, enseg
        self.xg_hist = env.array([env.q(i - 2) for i in range(5)], 'f')
        self.bias_x_hist, self.Dx_hist, self.Nxg_hist = env.q(-2), env.q(1), 5
        self.En_g_hist, self.Nbin_En_hist, self.DEn_hist = env.array([env.q(i) for i in range(4)], 'f'), 4, env.q(1, 1000)
        if lifetime: self.lifetime_g_hist = env.array([env.q(i) for i in range(3)], 'f')
        self.chamb = Obj(area=env.q(11), N_mp_impact=0, N_mp_corrected=0, N_vert=2)
        for h, r in self.HISTS.items():
            setattr(self, h, env.array([env.q(0)] * 2, 'f'))
            setattr(self, r, lambda r=r: getattr(env.mod('impact_management_class').impact_management, r)(self))
        self.reset_seg_En_hist_lines = lambda: env.mod('impact_management_class').impact_management.reset_seg_En_hist_lines(self)
        self.seg_En_hist_lines = [env.array([env.q(0)] * 2, 'f') for _ in range(2)]

    def happen(self, s, totals):
        """one step's worth of impacts"""
        env = self.env
        for k, h in enumerate(self.HISTS):
            v = env.real('h%d_%d' % (k, s)) if k < 4 else env.q(3 * s + k + 1)
            a = getattr(self, h)
            a[s % 2] = a[s % 2] + v
            totals.setdefault(h, []).append((s % 2, v))
        for i in range(2):
            self.seg_En_hist_lines[i][s % 2] = self.seg_En_hist_lines[i][s % 2] + (i + 2 * s + 1)
        for k, f in enumerate(('Nel_impact_last_step', 'Nel_emit_last_step', 'En_imp_last_step_eV', 'En_emit_last_step_eV')):
            setattr(self, f, env.real('last%d_%d' % (k, s)))
        self.chamb.N_mp_impact, self.chamb.N_mp_corrected = 3 * s + 1, 2 * s + 2


def particles(env, n, nmax=3):
    mp = Obj(N_mp=n, mass=env.val(2 * QE), charge=env.q(-1), nel_mp_ref=env.q(7))
    for f in FIELDS + ('t_last_impact',):
        setattr(mp, f, env.array([env.q(0)] * nmax, 'f'))
    return mp


def step_contents(env, mp, s, n, spread):
    for i in range(len(mp.x_mp)):
        inside = i < n
        mp.nel_mp[i] = env.real('nel%d_%d' % (i, s), 0, 10) if inside else env.q(0)
        mp.x_mp[i], mp.y_mp[i] = [(env.q(-1, 4), env.q(1, 4)), (env.q(3, 2), env.q(0)), (env.q(0), env.q(0))][(i + spread * s) % 3]
        for f in ('vx_mp', 'vy_mp', 'vz_mp'): getattr(mp, f)[i] = env.real('%s%d_%d' % (f, i, s), -9, 9) if f == 'vx_mp' and inside else env.q(i + s + 1)
    mp.N_mp, mp.nel_mp_ref = n, env.q(s + 2)


def saver(env, im, mp, bt, **kw):
    S = env.mod('pyecloud_saver').pyecloud_saver(None)
    size = kw.pop('size', None)
    d = dict(Dt_ref=env.q(1, 10), MP_e=mp, beamtim=bt, impact_man=im, r_center=env.q(1, 2), Dt_En_hist=env.q(2), logfile_path=None, progress_path=None, filen_main_outp=env.path('out/Py.mat'), stopfile=env.path('stop'), extract_sey=False, flag_cos_angle_hist=True)
    d.update(kw)
    S.start_observing(**d)
    if size:
        S._stepbystep_data_init(d['Dt_ref'], d.get('dec_fact_out', 1), d.get('el_density_probes', []), d['r_center'], initial_size_t_vect=size, step_by_step_custom_observables=S.step_by_step_custom_observables)
    return S


def witness(S, mp, bt, sc, im, sim=None, cross=None, clouds=(), rho=None):
    return S.witness(mp, bt, sc, im, None, 0, None, 0., 0., 0, None, False, [], list(clouds), buildup_sim=sim, cross_ion=cross, rho_cloud=rho)


def put_dirs(env):
    env.put_file('out/keep.mat', dict(a=env.array([env.q(1)], 'f')))


def centre(mp, x, y, r, env):
    t = 0
    for i in range(mp.N_mp):
        if bool((mp.x_mp[i] - x) * (mp.x_mp[i] - x) + (mp.y_mp[i] - y) * (mp.y_mp[i] - y) < r * r): t = t + mp.nel_mp[i]
    return t


HIST = [dict(steps=5, dec=1, size=2, n=1), dict(steps=6, dec=2, n=1), dict(steps=7, dec=3, size=2, n=0), dict(steps=4, dec=2, uniform=False, n=1), dict(steps=5, dec=1, size=2, n=2, probes=2, detailed=1, cross=True, energy=True, custom=True), dict(steps=3, dec=1, n=1, only=True)]


@harness('C16', HIST, HIST + [dict(steps=7, dec=d, size=s, n=1, uniform=u, probes=1) for d in (1, 2, 3) for s in (1, 3) for u in (True, False)])
def steps(env, steps, dec, n, size=None, uniform=True, probes=0, detailed=0, cross=False, energy=False, custom=False, only=False):
    """step-by-step histories"""
    put_dirs(env)
    im, mp = Impacts(env), particles(env, n)
    bt = Obj(tt_curr=env.q(0), b_spac=env.q(3), pass_numb=-1, N_pass_tot=3, flag_new_bunch_pass=False)
    pr = [dict(x=env.q(k), y=env.q(0), r_obs=env.q(3, 4)) for k in range(probes)]
    obs = {}
    cur = {}
    kw = dict(dec_fact_out=dec, el_density_probes=pr, flag_detailed_MP_info=detailed, flag_cross_ion=cross, flag_electric_energy=energy, size=size, cloud_name='c0')
    if custom: kw['step_by_step_custom_observables'] = dict(mine=lambda sim: cur['mine'])
    if only: kw['save_only'] = ['t', 'Nel_timep']
    S = saver(env, im, mp, bt, **kw)
    sc = Obj(last_recomputation_check=False, U_sc_eV_stp=0., get_potential_electric_energy=lambda: cur['U'])
    sim = Obj(spacech_ele=sc)
    cio = Obj(save_cross_ion_data=lambda name: (cur['a'], cur['b'], cur['c']) if name == 'c0' else None)
    t, acc, want = env.real('t0', 0, 1), [0] * 4, []
    last = None
    for s in range(steps):
        if s: t = t + (env.q(1, 10) if uniform else env.real('gap%d' % s, slo=0, hi=.3))
        im.happen(s, {})
        step_contents(env, mp, s, n, 1)
        bt.tt_curr, bt.lam_t_curr = t, env.real('lam%d' % s)
        bt.pass_numb, bt.flag_new_bunch_pass = s // 3, s % 3 == 0
        for k in ('mine', 'U', 'a', 'b', 'c'): cur[k] = env.real('%s_%d' % (k, s))
        new = (im.Nel_impact_last_step, im.Nel_emit_last_step, im.En_imp_last_step_eV, im.En_emit_last_step_eV)
        acc = [a + b for a, b in zip(acc, new)]
        out = witness(S, mp, bt, sc, im, sim, cio)
        env.check(out is im, 'the impact management is handed back')
        due = s % dec == 0 if uniform else last is None or bool(t - last >= (dec - env.q(1, 10000)) / 10)
        if due:
            last = t
            w = dict(t=t, lam_t_array=bt.lam_t_curr, Nel_timep=sum(mp.nel_mp[i] for i in range(n)), Nel_imp_time=acc[0], Nel_emit_time=acc[1], En_imp_eV_time=acc[2], En_emit_eV_time=acc[3])
            w['En_kin_eV_time'] = sum(mp.nel_mp[i] * (mp.vx_mp[i] * mp.vx_mp[i] + mp.vy_mp[i] * mp.vy_mp[i] + mp.vz_mp[i] * mp.vz_mp[i]) for i in range(n)) * 1
            w['cen_density'] = centre(mp, 0, 0, env.q(1, 2), env) / env.val(env.np.pi) * 4
            if detailed: w['N_mp_time'], w['nel_mp_ref_time'] = n, s + 2
            if energy: w['En_electric_eV_time'] = cur['U']
            if cross: w['Nel_cross_ion'], w['N_mp_cross_ion'], w['DN_cross_ion'] = cur['a'], cur['b'], cur['c']
            if custom: w['mine'] = cur['mine']
            for k in range(probes): w['probe%d' % k] = centre(mp, k, 0, env.q(3, 4), env) / env.val(env.np.pi) / env.q(9, 16)
            want.append(w); acc = [0] * 4
        if bt.flag_new_bunch_pass:
            f = env.get_file('out/Py.mat')
            env.check(f is not None and (not only or sorted(k for k in f if k[:2] != '__') == ['Nel_timep', 't']), 'output file of the passage')
            compare(env, f, want, 'output file of the passage', probes, only)
        mp.N_mp = n
    if only: return
    compare(env, S.build_outp_dict(sim), want, 'history', probes, only)
    env.eq(S.Nel_impact_last_step_group, acc[0], 'what happened since the last sample is kept for the next one'); env.eq(S.En_emit_last_step_group_eV, acc[3], 'what happened since the last sample is kept for the next one')


def compare(env, d, want, label, probes, only):
    for k in (want[0] if not only else ('t', 'Nel_timep')):
        a = d['el_dens_at_probes'] if k[:5] == 'probe' else d[k]
        if k[:5] == 'probe':
            if env.np.ndim(a) == 2: a = [a[int(k[5:]), j] for j in range(env.np.shape(a)[1])]
            elif probes > 1: a = [a[int(k[5:])]]
            elif env.np.ndim(a) == 0: a = [a]
        elif env.np.ndim(a) == 0: a = [a]
        env.check(len(a) == len(want), '%s: one entry of %s per sample' % (label, k))
        for i, w in enumerate(want): env.near(a[i], w[k], '%s: %s' % (label, k), 1e-9) if k in ('En_kin_eV_time', 'cen_density') or k[:5] == 'probe' else env.eq(a[i], w[k], '%s: %s' % (label, k))


PASS = [dict(steps=4), dict(steps=5, seg=True, det=True), dict(steps=4, det=True, n=0), dict(steps=4, every=2, n=2)]


@harness('C16', PASS, PASS + [dict(steps=6, seg=s, det=d, n=n, every=e) for s in (True, False) for d in (True, False) for n in (0, 2) for e in (1, 3)])
def passes(env, steps, seg=False, det=False, n=1, every=1):
    """pass-by-pass histories"""
    put_dirs(env)
    im, mp = Impacts(env, seg=seg), particles(env, n)
    bt = Obj(tt_curr=env.q(0), lam_t_curr=env.q(0), b_spac=env.q(3), pass_numb=-1, N_pass_tot=3, flag_new_bunch_pass=False)
    cur = {}
    kw = dict(save_mat_every=every, Dt_En_hist=env.q(1, 10), pass_by_pass_custom_observables=dict(mine=lambda sim: cur['mine']), save_once_custom_observables=dict(once=lambda sim: cur['mine']))
    if det: kw.update(x_min_hist_det=env.q(-1), x_max_hist_det=env.q(1), y_min_hist_det=env.q(-1, 2), y_max_hist_det=env.q(1, 2), Dx_hist_det=env.q(1, 2))
    S = saver(env, im, mp, bt, **kw)
    sc = Obj(last_recomputation_check=False, U_sc_eV_stp=0.)
    totals, want, mark, p = {}, [], {}, -1
    for s in range(steps):
        im.happen(s, totals)
        step_contents(env, mp, s, n if s != 1 else 0, 1)
        if det and n:
            x, y = env.choice('where%d' % s, [(env.q(-1, 4), env.q(1, 4)), (env.q(3, 4), env.q(3, 4)), (env.q(1), env.q(0)), (env.q(1, 4), env.q(-3, 4)), (env.q(-5, 4), env.q(0))]) if s < 2 else (env.q(0), env.q(0))
            mp.x_mp[0], mp.y_mp[0] = x, y
        bt.tt_curr = env.q(s) + env.real('dt%d' % s, 0, .5)
        bt.flag_new_bunch_pass = env.flag('passage%d' % s) if s and not det else s != 2
        cur['mine'] = env.real('mine%d' % s)
        had = env.get_file('out/Py.mat')
        if bt.flag_new_bunch_pass: p += 1
        bt.pass_numb = p
        witness(S, mp, bt, sc, im)
        if bt.flag_new_bunch_pass:
            w = dict(t_hist=bt.tt_curr, N_mp_impact_pass=3 * s + 1, N_mp_corrected_pass=2 * s + 2, N_mp_pass=mp.N_mp, N_mp_ref_pass=s + 2, mine=cur['mine'])
            for h in ('nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist') + (('nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg') if seg else ()):
                v = [0, 0]
                for k, x in totals[h][mark.get(h, 0):]: v[k] = v[k] + x
                w[h] = v; mark[h] = len(totals[h])
            w['nel_hist'] = hist(env, [(mp.x_mp[i], mp.nel_mp[i]) for i in range(mp.N_mp)], -2, 1, 5)
            if det: w['nel_hist_det'] = hist(env, [(mp.x_mp[i], mp.nel_mp[i]) for i in range(mp.N_mp) if bool(abs(mp.x_mp[i]) < 1) and bool(abs(mp.y_mp[i]) < env.q(1, 2))], env.q(-3, 2), env.q(1, 2), 7)
            want.append(w)
            if (p + 1) % every == 0: pcompare(env, env.get_file('out/Py.mat'), want, 'output file of the passage')
    d = S.build_outp_dict(None)
    pcompare(env, d, want, 'history')
    env.eq(d['once'], cur['mine'], 'observable saved once')
    env.eq(d['chamber_area'], 11, 'area'); env.eq(d['b_spac'], 3, 'bunch spacing')


def hist(env, items, bias, dx, nb):
    v = [env.q(0)] * nb
    for x, w in items:
        f = (x - bias) / dx
        i = int(f)
        u = f - i
        v[i] = v[i] + w * (1 - u)
        if i + 1 < nb: v[i + 1] = v[i + 1] + w * u
    return v


def pcompare(env, d, want, label):
    for k, v0 in want[0].items():
        a = d[k]
        vec = isinstance(v0, list)
        if len(want) == 1 and (env.np.ndim(a) == 0 or vec and env.np.ndim(a) == 1): a = [a]
        env.check(len(a) == len(want), '%s: one entry of %s per passage' % (label, k))
        for i, w in enumerate(want):
            if not vec: env.eq(a[i], w[k], '%s: %s' % (label, k))
            else:
                env.check(len(a[i]) == len(w[k]), '%s: size of %s' % (label, k))
                for x, y in zip(a[i], w[k]): env.eq(x, y, '%s: %s' % (label, k))


EN = [dict(steps=4), dict(steps=3, seg=True, lifetime=True), dict(steps=3, cos=False, n=0)]


@harness('C16', EN, EN + [dict(steps=5, seg=s, lifetime=l, cos=c, n=n) for s in (True, False) for l in (True, False) for c in (True, False) for n in (0, 2)])
def energies(env, steps, seg=False, lifetime=False, cos=True, n=1):
    """energy, angle and lifetime histograms: everything that happened is in exactly one of them"""
    put_dirs(env)
    im, mp = Impacts(env, seg=seg, lifetime=lifetime, enseg=seg), particles(env, n)
    bt = Obj(tt_curr=env.q(0), lam_t_curr=env.q(0), b_spac=env.q(3), pass_numb=0, N_pass_tot=3, flag_new_bunch_pass=False)
    D, L = env.q(2), env.q(3)
    im.DEn_hist = env.q(10)
    S = saver(env, im, mp, bt, Dt_En_hist=D, flag_lifetime_hist=lifetime, Dt_lifetime_hist=L if lifetime else None, flag_cos_angle_hist=cos, cos_angle_width=.5)
    sc = Obj(last_recomputation_check=False, U_sc_eV_stp=0.)
    totals, segs = {}, []
    t = env.real('t0', 2, 3)
    te, tl = None, None
    want, wl = [], []
    me = ml = 0
    for s in range(steps):
        if s: t = t + env.real('gap%d' % s, slo=0, hi=4)
        im.happen(s, totals)
        step_contents(env, mp, s, n, 0)
        for i in range(n): mp.vx_mp[i], mp.vy_mp[i], mp.vz_mp[i] = [env.q(v) for v in ((0, 0, 1), (3, 4, 0))[i]]
        bt.tt_curr = t
        if te is not None: env.assume(abs(t - te - D) > env.q(1, 10**6))
        if tl is not None: env.assume(abs(t - tl - L) > env.q(1, 10**6))
        witness(S, mp, bt, sc, im)
        if te is None or bool(t >= te + D):
            te = t
            g = lambda h: [sum(v for k, v in totals[h][me:] if k == b) for b in range(2)]
            E = [env.val(0)] * 4
            for i in range(n):
                f = env.q((1, 25)[i], 10)
                k = int(f)
                for q, u in ((k, 1 - (f - k)), (k + 1, f - k)): E[q] = E[q] + mp.nel_mp[i] * u
            want.append(dict(t_En_hist=t, En_hist=g('En_hist_line'), cos=g('cos_angle_hist'), all_Ekin_hist=E, seg=[[sum(i + 2 * q + 1 for q in range(me, s + 1) if q % 2 == b) for b in range(2)] for i in range(2)]))
            me = s + 1
        if lifetime and (tl is None or bool(t >= tl + L)):
            tl = t
            wl.append((t, [sum(v for k, v in totals['lifetime_hist_line'][ml:] if k == b) for b in range(2)])); ml = s + 1
    env.check(len(S.En_hist) == len(S.t_En_hist) == len(S.all_Ekin_hist) == len(want), 'one energy histogram per interval')
    env.check(not cos or len(S.cos_angle_hist) == len(want), 'one angle histogram per interval')
    for i, w in enumerate(want):
        env.eq(S.t_En_hist[i], w['t_En_hist'], 'time of the energy histogram')
        for b in range(2):
            env.eq(S.En_hist[i][b], w['En_hist'][b], 'everything since the previous energy histogram')
            if cos: env.eq(S.cos_angle_hist[i][b], w['cos'][b], 'everything since the previous angle histogram')
            if seg:
                for k in range(2): env.eq(S.En_hist_seg[k][i][b], w['seg'][k][b], 'everything since the previous histogram of the segment')
        for b in range(4): env.near(S.all_Ekin_hist[i][b], w['all_Ekin_hist'][b], 'kinetic energies of all macroparticles', 1e-9)
    for b in range(2): env.eq(im.En_hist_line[b], sum(v for k, v in totals['En_hist_line'][me:] if k == b), 'what happened since is kept for the next histogram')
    if lifetime:
        env.check(len(S.lifetime_hist) == len(S.t_lifetime_hist) == len(wl), 'one lifetime histogram per interval')
        for i, (t, v) in enumerate(wl):
            env.eq(S.t_lifetime_hist[i], t, 'time of the lifetime histogram')
            for b in range(2): env.eq(S.lifetime_hist[i][b], v[b], 'everything since the previous lifetime histogram')


@harness('C16', [dict(nobs=2), dict(nobs=1, multi=True)], [dict(nobs=3), dict(nobs=2, multi=True)])
def states(env, nobs, multi=False):
    """macroparticle states saved at requested times"""
    put_dirs(env)
    im, mp = Impacts(env), particles(env, 1)
    bt = Obj(tt_curr=env.q(0), lam_t_curr=env.q(0), b_spac=env.q(3), pass_numb=0, N_pass_tot=3, flag_new_bunch_pass=False)
    obs = [env.real('obs0', 0, 4)]
    for k in range(1, nobs): obs.append(obs[-1] + env.real('d%d' % k, 0, 4))
    S = saver(env, im, mp, bt, save_mp_state_time_file=list(obs), flag_multiple_clouds=multi, cloud_name='ions')
    sc = Obj(last_recomputation_check=False, U_sc_eV_stp=0.)
    done, rec = 0, []
    for s in range(4):
        im.happen(s, {})
        n = 0 if s == 1 else 1
        step_contents(env, mp, s, n, 0)
        bt.tt_curr = env.q(2 * s + 1)
        witness(S, mp, bt, sc, im)
        if n and done < nobs and bool(obs[done] <= 2 * s + 1):
            rec.append((2 * s + 1, [[getattr(mp, f)[0] for f in FIELDS]])); done += 1
    for k in range(nobs):
        f = env.get_file('out/MP_state_%s%d.mat' % ('ions_' if multi else '', k)) or env.get_file('out/MP_state_%s%d' % ('ions_' if multi else '', k))
        env.check((f is not None) == (k < len(rec)), 'one file for each requested time that was reached, the first step with macroparticles not before it')
        if f is None: continue
        env.eq(f['tt'], rec[k][0], 'time of the state'); env.eq(f['N_mp'], 1, 'number of macroparticles')
        for name, v in zip(FIELDS, rec[k][1][0]): env.eq(f[name], v, 'all data of the macroparticle')


@harness('C16', [dict(), dict(multi=True), dict(sc=True)], [dict(multi=m, sc=s) for m in (False, True) for s in (False, True)])
def videos(env, multi=False, sc=False):
    """charge densities and fields of every recomputation, in one file per passage"""
    put_dirs(env)
    im, mp = Impacts(env), particles(env, 0)
    bt = Obj(tt_curr=env.q(0), lam_t_curr=env.q(0), b_spac=env.q(3), pass_numb=0, N_pass_tot=3, flag_new_bunch_pass=False)
    S = saver(env, im, mp, bt, flag_movie=int(not sc), flag_sc_movie=int(sc), flag_multiple_clouds=multi, cloud_name='ions')
    space = Obj(U_sc_eV_stp=0., xg=env.array([env.q(1), env.q(2)], 'f'), yg=env.array([env.q(3), env.q(4)], 'f'))
    p, buf, files, times = -1, [], [], []
    for s in range(4):
        im.happen(s, {})
        bt.tt_curr = env.q(s + 1)
        r = [env.real('rho%d_%d' % (s, k)) for k in range(2)]
        space.rho = env.array(r, 'f')
        rc = env.array([3 * v for v in r], 'f')
        space.efx, space.efy = env.array([v + 1 for v in r], 'f'), env.array([v - 1 for v in r], 'f')
        space.last_recomputation_check = env.flag('recomputed%d' % s)
        bt.flag_new_bunch_pass = s in (0, 2, 3)
        if bt.flag_new_bunch_pass: p += 1
        bt.pass_numb = p
        witness(S, mp, bt, space, im, rho=rc)
        if space.last_recomputation_check: buf.append((s + 1, r)); times.append(s + 1)
        if bt.flag_new_bunch_pass: files.append((p - 1, buf)); buf = []
    env.check(len(S.t_sc_video) == len(times) == len(S.U_sc_eV), 'one record per recomputation')
    for a, b in zip(S.t_sc_video, times): env.eq(a, b, 'times of the recomputations')
    for pn, content in files:
        names = [('efield_video/efield_pass%d.mat', (('efx_video', 1, 1), ('efy_video', 1, -1)), 't_efield_video')] if sc else [('rho_video/rho_pass%d.mat', (('rho_video', 1, 0),), 't_video')] + ([('rho_video_ions/rho_pass%d.mat', (('rho_video', 3, 0),), 't_video')] if multi else [])
        for f, keys, tk in names:
            d = env.get_file('out/' + f % pn)
            env.check(d is not None, 'one file per passage')
            tt = d[tk] if env.np.ndim(d[tk]) else env.array([d[tk]], 'f')
            env.check(len(tt) == len(content), 'every recomputation since the previous passage')
            for i, (t, r) in enumerate(content):
                env.eq(tt[i], t, 'time of the frame')
                for k, m, o in keys:
                    v = d[k][i] if len(content) > 1 else d[k]
                    for j in range(2): env.eq(v[j], m * r[j] + o, 'frame')
