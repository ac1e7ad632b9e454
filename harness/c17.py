import copy
from symx.harness import harness
from .common import *

FUNCTIONS = ['pyecloud_saver._sim_state_save, _checkpoint_save, _sim_state_single_save, _copy_main_outp_to_safety, _copy_main_outp_save, load_from_output, witness (and the recording functions it calls)', 'BuildupSimulation.__init__ (choice of the checkpoint), load_state, load_checkpoint, _save_output_data', 'myloadmat_to_obj']
BOUNDS = ['histories of up to 8 steps with a passage every 2 steps, 1 or 2 clouds, up to 3 checkpoints', 'interruption at every step and before or in the middle of every file operation of that step', 'arbitrary recorded quantities and particle coordinates (1 macroparticle), concrete step times', 'decimation 1 to 3, with and without probes, detailed histograms, segment, energy and lifetime histograms, secondary beams, safety copies, electromagnetic tracking, saving of the output at every passage or less often']
ASSUMPTIONS = ['Between two steps the state evolves as an arbitrary function of the saved state (an increment per step).', 'A stored object is recovered as it was; an interrupted write leaves an unreadable file, and os.replace is atomic.', 'Not covered: previous vector potentials of electromagnetic tracking, counters of the cross-ionization and step-by-step custom observables after a restart (the last is refused by the code).']

HISTS = ['nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'En_hist_line', 'cos_angle_hist', 'lifetime_hist_line', 'nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg']


class Impacts:
    """accumulators of the impact management by contract (C12 decides them)"""

    def __init__(self, env, seg, lifetime):
        self.flag_seg = self.flag_En_hist_seg = seg
        self.xg_hist, self.bias_x_hist, self.Dx_hist, self.Nxg_hist = env.array([env.q(i - 2) for i in range(5)], 'f'), env.q(-2), env.q(1), 5
        self.En_g_hist, self.Nbin_En_hist, self.DEn_hist = env.array([env.q(i) for i in range(4)], 'f'), 4, env.q(100)
        if lifetime: self.lifetime_g_hist = env.array([env.q(i) for i in range(2)], 'f')
        self.chamb = Obj(area=env.q(11), N_mp_impact=0, N_mp_corrected=0, N_vert=2)
        for h in HISTS: setattr(self, h, env.array([env.q(0)] * 2, 'f'))
        self.seg_En_hist_lines = [env.array([env.q(0)] * 2, 'f') for _ in range(2)]

    def zero(self, h): setattr(self, h, 0 * getattr(self, h))
    def reset_impact_hist_tot(self): self.zero('nel_impact_hist_tot')
    def reset_impact_hist_scrub(self): self.zero('nel_impact_hist_scrub')
    def reset_energ_eV_impact_hist(self): self.zero('energ_eV_impact_hist')
    def reset_En_hist_line(self): self.zero('En_hist_line')
    def reset_cos_angle_hist(self): self.zero('cos_angle_hist')
    def reset_lifetime_hist_line(self): self.zero('lifetime_hist_line')
    def reset_hist_impact_seg(self): self.zero('nel_hist_impact_seg')
    def reset_hist_emit_seg(self): self.zero('nel_hist_emit_seg')
    def reset_energ_impact_seg(self): self.zero('energ_eV_impact_seg')
    def reset_seg_En_hist_lines(self): self.seg_En_hist_lines = [0 * a for a in self.seg_En_hist_lines]


class Pic:
    def build_sparse_solver(self): self.luobj = 'factorised'
    def get_state_object(self): return 'new state'


class Space:
    def get_potential_electric_energy(self): return self.energy


class Cross:
    """recorded production of the cross-ionization by contract"""

    def __init__(self, clouds): self.clouds = clouds
    def generate(self, *a, **k): pass
    def save_cross_ion_data(self, name): return tuple(k * self.clouds[0].MP_e.nel_mp[0] for k in (3, 4, 5))


class Sources:
    """arbitrary values, the same ones for the reference and the interrupted run"""

    def __init__(self, env): self.env, self.v = env, {}

    def __call__(self, name, lo=None, hi=None):
        if name not in self.v: self.v[name] = self.env.real(name, lo, hi)
        return self.v[name]


def build(env, run, nclouds, first, dec=1, det=False, seg=False, lifetime=False, probes=0, detailed=0, energy=False, custom=False, safe=False, check=None, every=1, states=False, sec=False, em=False, sim_states=-1, copy_DT=None, cross=False):
    """everything the input files describe, freshly initialised"""
    bt = Obj(tt_curr=env.q(-1, 10), ii_curr=-1, lam_t_curr=env.q(0), b_spac=env.q(3), pass_numb=-1, N_pass_tot=4, flag_new_bunch_pass=False, t=env.array([env.q(0)], 'f'))
    secs = [Obj(lam_t_curr=env.q(0), lam_t_array=env.array([env.q(5)], 'f'))] if sec else []
    sp = Space()
    sp.PyPICobj = Pic()
    sp.PyPICobj.luobj = 'factorised'
    sp.flag_em_tracking, sp.U_sc_eV_stp, sp.last_recomputation_check, sp.energy = em, env.q(0), False, env.q(0)
    sp.t_last_recom, sp.rho = env.q(0), env.array([env.q(0)] * 2, 'f')
    if em: sp.state_Ax, sp.state_Ay, sp.state_Ax_old, sp.state_Ay_old = 'Ax', 'Ay', 'Ax old', 'Ay old'
    clouds = []
    for c in range(nclouds):
        mp = Obj(N_mp=1, mass=env.val(2 * QE), charge=env.q(-1), nel_mp_ref=env.q(7))
        for f in FIELDS + ('t_last_impact',): setattr(mp, f, env.array([env.q(0)] * 2, 'f'))
        mp.nel_mp[0], mp.x_mp[0] = first, env.q(1, 4)
        im = Impacts(env, seg, lifetime)
        S = env.mod('pyecloud_saver').pyecloud_saver(None)
        kw = dict(Dt_ref=env.q(1, 10), r_center=env.q(1, 2), Dt_En_hist=env.q(1, 4), logfile_path=None, progress_path=None, stopfile=env.path('stop'), extract_sey=False, cos_angle_width=.5, dec_fact_out=dec, save_mat_every=every, flag_detailed_MP_info=detailed,
                  filen_main_outp=env.path('%s/Pyecltest%s.mat' % (run, c or '')), flag_multiple_clouds=nclouds > 1, cloud_name='c%d' % c, flag_last_cloud=c == nclouds - 1, flag_presence_sec_beams=sec, sec_beams_list=secs,
                  el_density_probes=[dict(x=env.q(k), y=env.q(0), r_obs=env.q(1, 2)) for k in range(probes)], flag_electric_energy=energy, flag_cross_ion=cross, save_simulation_state_time_file=sim_states,
                  flag_lifetime_hist=lifetime, Dt_lifetime_hist=env.q(7, 20) if lifetime else None)
        if states: kw['save_mp_state_time_file'] = [env.q(1, 20), env.q(5, 20), env.q(9, 20)]
        if custom: kw['pass_by_pass_custom_observables'] = dict(mine=lambda sim: sim.cloud_list[0].MP_e.nel_mp[0] * 2)
        if det: kw.update(x_min_hist_det=env.q(-1), x_max_hist_det=env.q(1), y_min_hist_det=env.q(-1, 2), y_max_hist_det=env.q(1, 2), Dx_hist_det=env.q(1, 2))
        if safe: kw['copy_main_outp_folder'] = env.path(run + '/safe')
        if safe and copy_DT is not None: kw['copy_main_outp_DT'] = copy_DT
        if check is not None: kw.update(checkpoint_DT=check, checkpoint_folder=env.path(run + '/chk') + '/')
        S.start_observing(MP_e=mp, beamtim=bt, impact_man=im, **kw)
        clouds.append(Obj(MP_e=mp, impact_man=im, pyeclsaver=S, dynamics=None, gas_ion_flag=0, resgasion=None, t_ion=env.q(0), photoem_flag=0, phemiss=None, rho=sp.rho))
    BS = env.mod('buildup_simulation')
    folder = env.path(run + '/chk') + '/' if check is not None else None
    BS.init = Obj(read_input_files_and_init_components=lambda *a, **k: (bt, sp, env.q(0), sec, secs, dict(), nclouds > 1, clouds, folder, None, False))
    sim = BS.BuildupSimulation()
    if cross: sim.cross_ion = Cross(sim.cloud_list)
    return sim


def evolve(env, sim, src):
    """one step: every part of the state moves on from what it was"""
    bt, sp = sim.beamtim, sim.spacech_ele
    s = bt.ii_curr + 1
    bt.ii_curr, bt.tt_curr = s, bt.tt_curr + env.q(1, 10)
    bt.lam_t_curr = bt.lam_t_curr + src('lam%d' % s)
    bt.flag_new_bunch_pass = s % 2 == 0
    bt.pass_numb = bt.pass_numb + (s % 2 == 0)
    for b in sim.sec_beams_list: b.lam_t_curr = b.lam_t_curr + src('sec%d' % s)
    sp.last_recomputation_check = s % 3 != 1
    sp.energy, sp.U_sc_eV_stp = sp.energy + src('energy%d' % s), sp.U_sc_eV_stp + src('energy%d' % s)
    for c, cloud in enumerate(sim.cloud_list):
        mp, im = cloud.MP_e, cloud.impact_man
        mp.nel_mp[0] = mp.nel_mp[0] + src('nel%d_%d' % (c, s), 0, 9)
        mp.x_mp[0] = -mp.x_mp[0] if s % 3 else mp.x_mp[0]
        mp.vx_mp[0] = mp.vx_mp[0] + 1
        mp.nel_mp_ref = mp.nel_mp_ref + 1
        v = src('hist%d_%d' % (c, s))
        for k, h in enumerate(HISTS):
            a = getattr(im, h)
            a[s % 2] = a[s % 2] + (k + 1) * v
        for k, a in enumerate(im.seg_En_hist_lines): a[s % 2] = a[s % 2] + (k + 11) * v
        im.Nel_impact_last_step, im.Nel_emit_last_step, im.En_imp_last_step_eV, im.En_emit_last_step_eV = v, 2 * v, 3 * v, 4 * v
        im.chamb.N_mp_impact += 3; im.chamb.N_mp_corrected += 2


def folders(env):
    for f in ('run', 'run/safe', 'run/chk', 'ref', 'ref/safe'): env.put_file(f + '/keep.txt', '')


def same(env, a, b, label):
    a, b = (env.items(env.np.asarray(x)) for x in (a, b))
    env.check(len(a) == len(b), label + ': as many values')
    for x, y in zip(a, b): env.eq(x, y, label)


def same_output(env, a, b, label):
    env.check(sorted(k for k in a if k[:2] != '__') == sorted(k for k in b if k[:2] != '__'), label + ': the same quantities')
    for k in a:
        if k[:2] != '__': same(env, a[k], b[k], '%s: %s' % (label, k))


def same_state(env, sim, ref):
    a, b = sim.beamtim, ref.beamtim
    for k in ('tt_curr', 'ii_curr', 'lam_t_curr', 'pass_numb', 'flag_new_bunch_pass'): env.eq(getattr(a, k), getattr(b, k), 'beam')
    env.check(len(sim.sec_beams_list) == len(ref.sec_beams_list), 'secondary beams')
    for x, y in zip(sim.sec_beams_list, ref.sec_beams_list): env.eq(x.lam_t_curr, y.lam_t_curr, 'secondary beam')
    for k in ('energy', 'U_sc_eV_stp', 't_last_recom', 'last_recomputation_check'): env.eq(getattr(sim.spacech_ele, k), getattr(ref.spacech_ele, k), 'space charge')
    env.eq(sim.t_sc_ON, ref.t_sc_ON, 'start of space charge'); env.check(bool(sim.flag_presence_sec_beams) == bool(ref.flag_presence_sec_beams), 'secondary beams')
    env.check(sim.spacech_ele.PyPICobj.luobj is not None, 'the field solver can be used')
    if sim.spacech_ele.flag_em_tracking: env.check(sim.spacech_ele.state_Ax is not None and sim.spacech_ele.state_Ay is not None, 'the field solver can be used for the vector potentials')
    for x, y in zip(sim.cloud_list, ref.cloud_list):
        for f in FIELDS: same(env, getattr(x.MP_e, f), getattr(y.MP_e, f), 'macroparticles')
        for f in ('N_mp', 'nel_mp_ref', 'mass', 'charge'): env.eq(getattr(x.MP_e, f), getattr(y.MP_e, f), 'macroparticles')
        for f in HISTS: same(env, getattr(x.impact_man, f), getattr(y.impact_man, f), 'accumulated histograms')
        env.check((x.impact_man.chamb.N_mp_impact, x.impact_man.chamb.N_mp_corrected) == (y.impact_man.chamb.N_mp_impact, y.impact_man.chamb.N_mp_corrected), 'counters of the chamber')


R = [dict(), dict(nclouds=2, safe=True, dec=2), dict(det=True, seg=True, lifetime=True, probes=2, detailed=1), dict(probes=1, dec=3, every=2, states=True, sec=True, energy=True), dict(custom=True, safe=True, every=3, copy_DT=(1, 4), lifetime=True), dict(em=True, nclouds=2, dec=3, seg=True, cross=True)]
R = [dict(c, when=w) for c in R for w in ((2, 4), (1, 5))]


@harness('C17', R, [dict(c, when=(w,), steps=9, check=k) for c in R[::2] for w in range(8) for k in ((1, 20), (3, 20), (7, 20))])
def restart(env, when, nclouds=1, steps=8, check=(3, 20), copy_DT=None, **opts):
    """interrupted anywhere and restarted, the histories are those of the uninterrupted run"""
    folders(env)
    src = Sources(env)
    if copy_DT is not None: opts['copy_DT'] = env.q(*copy_DT)
    ref = build(env, 'ref', nclouds, src('first', 0, 9), **opts)
    for s in range(steps): evolve(env, ref, src); ref._save_output_data(ref.beamtim)
    fresh = lambda: build(env, 'run', nclouds, src('first', 0, 9), check=env.q(*check), **opts)
    stop = env.choice('step', list(when))
    period = 2 * -(-check[0] * 5 // check[1])       # steps of a tenth, a bunch passes at every second one
    at = env.choice('operation', list(range((20 if nclouds == 2 else 14) if stop % period == 0 else 2)))
    sim = fresh()
    for s in range(stop): evolve(env, sim, src); sim._save_output_data(sim.beamtim)
    evolve(env, sim, src)
    crashed = env.crash(at, sim._save_output_data, sim.beamtim)
    sim = fresh()
    due = [t for t in range(period, stop if crashed else stop + 1, period)]
    if due: env.check(sim.beamtim.ii_curr >= 0, 'a completed checkpoint is found at the restart')
    env.check(sim.beamtim.ii_curr <= stop, 'the restart does not skip steps')
    while sim.beamtim.ii_curr < steps - 1: evolve(env, sim, src); sim._save_output_data(sim.beamtim)
    same_state(env, sim, ref)
    for a, b in zip(sim.cloud_list, ref.cloud_list):
        same_output(env, a.pyeclsaver.build_outp_dict(sim), b.pyeclsaver.build_outp_dict(ref), 'history after the restart')
    for c in range(nclouds):
        names = ['Pyecltest%s.mat' % (c or '')]
        if opts.get('states'): names += ['MP_state_%d' % k for k in range(3)]
        for f in names:
            a, b = env.get_file('run/' + f), env.get_file('ref/' + f)
            if f[:3] == 'MP_' or opts.get('every', 1) == 1:
                env.check((a is None) == (b is None), 'output files')
                if a is not None: same_output(env, a, b, 'output file')
    left = env.listdir('run/chk')
    env.check(sum(f.endswith('.pkl') for f in left) <= 2, 'old checkpoints are removed')


@harness('C17', [dict(nclouds=n, em=e, lifetime=n == 2) for n in (1, 2) for e in (False, True)], [dict(nclouds=n, em=e, lifetime=l, sec=s, kind=k) for n in (1, 2, 3) for e in (False, True) for l in (False, True) for s in (False, True) for k in ('state', 'checkpoint')])
def saving(env, nclouds, em, kind=None, **opts):
    """saving leaves the simulation as it was, and the saved state is the one of that moment"""
    folders(env)
    src = Sources(env)
    kind = kind or env.choice('kind', ['state', 'checkpoint'])
    kw = dict(check=env.q(3, 20)) if kind == 'checkpoint' else dict(sim_states=[env.q(1, 4)])
    sim = build(env, 'run', nclouds, src('first', 0, 9), em=em, **kw, **opts)
    ref = build(env, 'ref', nclouds, src('first', 0, 9), em=em, **opts)
    ids = lambda: [sim.beamtim, sim.spacech_ele, sim.spacech_ele.PyPICobj, sim.spacech_ele.PyPICobj.luobj] + ([getattr(sim.spacech_ele, k) for k in ('state_Ax', 'state_Ay', 'state_Ax_old', 'state_Ay_old')] if em else []) + [x for c in sim.cloud_list for x in (c, c.MP_e, c.impact_man, c.pyeclsaver)]
    for s in range(5):
        evolve(env, sim, src); evolve(env, ref, src)
        before = ids()
        sim._save_output_data(sim.beamtim); ref._save_output_data(ref.beamtim)
        for a, b in zip(before, ids()): env.check(a is b, 'the running simulation keeps all its parts')
        same_state(env, sim, ref)
        for a, b in zip(sim.cloud_list, ref.cloud_list):
            env.check(a.pyeclsaver is not b.pyeclsaver and len(a.pyeclsaver.t_hist) == len(b.pyeclsaver.t_hist), 'recording goes on')
    saved = 'simulation_state_0.pkl' if kind == 'state' else 'chk/simulation_checkpoint_1.pkl'
    env.check(saved.split('/')[-1] in env.listdir('run/chk' if kind == 'checkpoint' else 'run'), 'the state is saved when it is due')
    new = build(env, 'run', nclouds, src('first', 0, 9), em=em, **dict(kw, check=None), **opts)
    old = [c.pyeclsaver for c in new.cloud_list]
    names = [c.pyeclsaver.filen_main_outp for c in new.cloud_list]
    new.load_state(saved, load_from_folder=env.path('run') + '/')
    for a, b in zip(old, new.cloud_list): env.check(a is b.pyeclsaver, 'the new simulation records with its own savers')
    for a, n in zip(old, names): env.check(a.filen_main_outp != n and a.filen_main_outp.startswith(n[:-4]) and not a.flag_save_simulation_state, 'a reloaded state does not overwrite the output of the run that saved it')
    then = build(env, 'ref', nclouds, src('first', 0, 9), em=em, **opts)
    for s in range(4 if kind == 'state' else 5):
        evolve(env, then, src)
        if s < (3 if kind == 'state' else 4): then._save_output_data(then.beamtim)
    if kind == 'state' and nclouds == 1:
        same_state(env, new, then)
    else:
        for k in ('tt_curr', 'lam_t_curr', 'pass_numb'): env.eq(getattr(new.beamtim, k), getattr(then.beamtim, k), 'beam of the saved state')
        for a, b in zip(new.cloud_list, then.cloud_list):
            for f in FIELDS: same(env, getattr(a.MP_e, f), getattr(b.MP_e, f), 'macroparticles of the saved state')
