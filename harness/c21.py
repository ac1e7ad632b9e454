import types
from fractions import Fraction
from symx.harness import harness
from .common import *

FUNCTIONS = ['PyEC4PyHT.Ecloud.__init__, track, _track_single_slice, _track_in_single_slice_mode, _reinitialize, _finalize, replace_with_recorded_field_map, track_once_and_replace_with_recorded_field_map, generate_twin_ecloud_with_shared_space_charge', 'PyEC4PyHT.DummyBeamTim', 'Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map', 'MP_system.extract_dict, init_from_dict, add_from_file']
BOUNDS = ['1 to 3 slices, up to 3 beam particles, up to 2 macroparticles in the cloud, 2 passages', 'any coordinates, momenta, offsets, field values, slice borders (up to 3 sub-steps per slice), interaction length and charges', 'enable flags, kick mode, slice-by-slice mode and kind of slice are cases']
ASSUMPTIONS = ['BuildupSimulation.sim_time_step (decided by C14, C15) is replaced by: any new state of the cloud and any new field.', 'The field of the cloud at a particle is any linear function of its position, a different one for every step; interpolation itself is decided by C11 and C14.', 'Bunch and slices follow the interface of PyHEADTAIL (slice_positions, particle_indices_of_slice); PyPIC by its interface.', 'The field in which the cloud moves during the first step of a passage is the one left by the previous step; it is not part of the check.']
C_ = 299792458
GAM, BET = Fraction(5, 4), Fraction(3, 5)


class Slices:
    """PyHEADTAIL SliceSet: sorted particle indices and first position of every slice"""
    def __init__(self, env, z_bins, groups):
        self.env, self.z_bins, self.n_slices = env, z_bins, len(groups)
        self.particle_indices_by_slice = [i for g in groups for i in g]
        self.slice_positions = [0]
        for g in groups: self.slice_positions.append(self.slice_positions[-1] + len(g))

    def particle_indices_of_slice(self, i):
        return self.env.array([i for i in self.particle_indices_by_slice[self.slice_positions[i]:self.slice_positions[i + 1]]], 'i')


def bunch(env, n, pre='', m0=None):
    b = Obj(macroparticlenumber=n, beta=env.q(3, 5), gamma=env.q(5, 4), charge=env.real('charge', -9, 9) * env.q(C_) * env.q(C_), mass=env.q(2), particlenumber_per_mp=env.real('ppm', 0, 9))
    b.p0 = b.mass * b.beta * b.gamma * C_
    for f in ('x', 'y', 'xp', 'yp', 'z', 'dp'): setattr(b, f, env.reals(pre + f, n))
    b.cleaned = []
    b.clean_slices = lambda: b.cleaned.append(1)
    return b


class Field:
    """linear field, read through the interface of PyPIC"""
    def __init__(self, env, name):
        self.ex = [env.real('%s.ex%d' % (name, k)) for k in range(3)]
        self.ey = [env.real('%s.ey%d' % (name, k)) for k in range(3)]
    def at(self, x, y):
        return [c[0] + c[1] * x + c[2] * y for c in (self.ex, self.ey)]


def grid(env, c):
    """the three coefficients stored on a 2 x 2 grid"""
    a = env.np.zeros((2, 2))
    a[0, 0], a[1, 0], a[0, 1] = c
    return a


class Sim:
    """a build-up simulation by contract"""
    def __init__(self, env, mp, Dt, track='Boris', clouds=1, steps=3):
        self.env, self.mp = env, mp
        self.config_dict = dict(track_method=track, Dt=Dt)
        self.flag_multiple_clouds = clouds > 1
        self.flag_presence_sec_beams, self.sec_beams_list = False, []
        self.cloud_list = [Obj(MP_e=mp, pyeclsaver=None, config_dict=Obj(), impact_man=None)]
        self.calls, self.fields, self.scattered, self.log = [], [], [], []
        me = self
        class State:
            def scatter(s, x_mp, y_mp, nel_mp, charge=None, flag_add=False):
                me.log.append('scatter'); me.scattered.append((list(env.items(x_mp)), list(env.items(y_mp)), list(env.items(nel_mp)), charge, flag_add))
            def gather(s, x, y):
                me.log.append('gather')
                return x * 2, y * 3
        class Pic:
            def get_state_object(s): return State()
            def solve_states(s, l): me.log.append(('solve', list(l)))
        self.pic_states = []
        class Sc:
            PyPICobj = Pic()
            xg = yg = (0, 1)
            def get_sc_eletric_field(s, m):
                f = me.fields[-1]
                if m.N_mp > 0:
                    e = f.at(m.x_mp[0:m.N_mp], m.y_mp[0:m.N_mp])
                    return e[0], e[1]
                return 0., 0.
        self.spacech_ele = Sc()
        for a in ('rho', 'phi', 'efx', 'efy'): setattr(self.spacech_ele, a, env.zeros(2, 2))

    def sim_time_step(self, **k):
        env, mp = self.env, self.mp
        i = len(self.calls)
        bt = k['beamtim_obj']
        n = int(mp.N_mp)
        before = [[getattr(mp, f)[j] for f in FIELDS] for j in range(n)]
        for v in env.items(mp.nel_mp[n:]): env.eq(v, 0, 'no charge behind the last macroparticle of the cloud')
        mark = len(self.log)
        fld = bt.get_beam_eletric_field(mp)
        self.calls.append(dict(k, bt=bt, Dt=bt.Dt_curr, t=bt.tt_curr, lam=bt.lam_t_curr, beam=[bt.x_beam_pos, bt.y_beam_pos, bt.sigmax, bt.sigmay], before=before, ref=(mp.nel_mp_ref, mp.nel_mp_split, mp.nel_mp_cl_th), field=fld, reads='gather' in self.log[mark:], log=list(self.log[:mark])))
        del self.log[:]
        # any later state: one macroparticle is lost or gained, everything changes
        new = 1 + i % 2
        for f in FIELDS:
            a = getattr(mp, f)
            for j in range(len(a)): a[j] = env.real('step%d.%s%d' % (i, f, j), 0 if f == 'nel_mp' else None) if j < new else 0
        mp.N_mp = new
        mp.set_nel_mp_ref(env.q(7 + i))
        self.fields.append(Field(env, 'field%d' % i))
        self.spacech_ele.efx, self.spacech_ele.efy = grid(env, self.fields[-1].ex), grid(env, self.fields[-1].ey)
        self.spacech_ele.rho, self.spacech_ele.phi = env.array([env.q(100 + i)]), env.array([env.q(200 + i)])


class Map:
    """PyPIC_Scatter_Gather by contract"""
    def __init__(self, xg=None, yg=None, **k): self.xg, self.yg = xg, yg
    def gather(self, x, y):
        return [f[0, 0] + f[1, 0] * x + f[0, 1] * y for f in (self.efx, self.efy)]


def ecloud(env, nmp=2, Dt=None, Dt_ref=None, track='Boris', clouds=1, slicer='slicer', **kw):
    scatter = types.ModuleType('PyPIC.PyPIC_Scatter_Gather')
    scatter.PyPIC_Scatter_Gather = Map
    env.stub('PyPIC.PyPIC_Scatter_Gather', scatter)
    ht = types.ModuleType('PyHEADTAIL.particles.slicing')
    ht.UniformBinSlicer = None
    env.stub('PyHEADTAIL.particles.slicing', ht)
    PE = env.mod('PyEC4PyHT')
    PE.subprocess = Obj(check_output=lambda *a, **k: b'hash')
    TM = env.mod('Transverse_Efield_map_for_frozen_cloud')
    TM.PyPIC_Scatter_Gather = Map
    mp = make_mp(env, 4, lifetime=False, nel_ref0=env.q(3))
    fill(env, mp, nmp, lifetime=False, tail=False)
    sim = Sim(env, mp, Dt, track, clouds)
    made = []
    def build(**k):
        made.append(k)
        if k.get('spacech_ele') is not None: sim.spacech_ele = k['spacech_ele']
        return sim
    PE.bsim = Obj(BuildupSimulation=build)
    L = env.real('L', 0, 99)
    ec = PE.Ecloud(L, slicer, env.q(1) if Dt_ref is None else Dt_ref, pyecl_input_folder='in', **kw)
    return PE, ec, sim, mp, L, made


def kick_check(env, b, old, ids, fields, L, off, ex, ey, label):
    """momenta change by q E L / (m beta^2 gamma c^2) at the particles of every slice, nothing else changes"""
    k = b.charge * L / (b.mass * b.beta * b.beta * b.gamma * C_ * C_)
    done = set()
    for g, f in zip(ids, fields):
        for i in g:
            done.add(i)
            e = f.at(old['x'][i] + off[0], old['y'][i] + off[1])
            env.eq(b.xp[i], old['xp'][i] + (k * e[0] if ex else 0), label + ' (x)')
            env.eq(b.yp[i], old['yp'][i] + (k * e[1] if ey else 0), label + ' (y)')
    for i in range(b.macroparticlenumber):
        for f in ('x', 'y', 'z', 'dp') + (() if i in done else ('xp', 'yp')): env.eq(getattr(b, f)[i], old[f][i], 'nothing else of the beam changes')


def keep(env, b):
    return {f: list(env.items(getattr(b, f))) for f in ('x', 'y', 'xp', 'yp', 'z', 'dp')}


GROUPS = {1: [[0, 1]], 2: [[1], [0]], 3: [[2], [], [0, 1]]}
V = [dict(ns=3), dict(ns=2, ex=False), dict(ns=2, ey=False, off=True, kick_mode=True), dict(ns=3, off=True, clean=True, multi='BorisMultipole'), dict(ns=1, ex=False, ey=False), dict(ns=2, reinterp=True, substeps=True)]


@harness('C21', V, V + [dict(ns=ns, ex=a, ey=b, off=o, kick_mode=k, substeps=s) for ns in (1, 2, 3) for a in (False, True) for b in (False, True) for o in (False, True) for k in (False, True) for s in (False, True) if not (s and ns == 3)])
def track(env, ns, ex=True, ey=True, off=False, kick_mode=False, clean=False, multi='Boris', reinterp=False, substeps=False):
    """two passages of a bunch through the cloud"""
    kw = {}
    o = [env.q(0), env.q(0)]
    if off: o = [env.real('ox'), env.real('oy')]; kw.update(x_beam_offset=o[0], y_beam_offset=o[1])
    if not ex: kw.update(enable_kick_x=False)
    if not ey: kw.update(enable_kick_y=False)
    v = env.q(3 * C_, 5)
    PE, ec, sim, mp, L, made = ecloud(env, 1 if not ex else 2, Dt=env.q(100), track=multi, flag_clean_slices=clean, kick_mode_for_beam_field=kick_mode, force_interp_at_substeps_interacting_slices=reinterp, **kw)
    init = [[getattr(mp, f)[j] for f in FIELDS] for j in range(int(mp.N_mp))]
    ec.save_ele_field = True
    groups = GROUPS[ns]
    n = sum(map(len, groups))
    widths = [env.real('dz%d' % i, env.q(1, 10), env.q(35, 10) if substeps else env.q(1)) * v for i in range(ns)]
    z = [env.q(0)]
    for w in widths: z.append(z[-1] + w)
    t = env.q(0)
    for p in range(2):
        b = bunch(env, n, 'p%d.' % p)
        sl = Slices(env, z, groups)
        asked = []
        b.get_slices = lambda s: asked.append(s) or sl
        old = keep(env, b)
        start = len(sim.calls)
        ec.track(b)
        calls, fields = sim.calls[start:], sim.fields[start:]
        env.check(asked == ['slicer'] and bool(b.cleaned) == clean, 'slices of the bunch')
        env.check(len(calls) == ns, 'every slice acts on the cloud once')
        if len(calls) != ns: return
        order = list(range(ns))[::-1]
        for c, i in zip(calls, order):
            dt = widths[i] / v
            env.near(c['Dt'], dt, 'slice duration', 1e-9)
            env.near(c['t'], t, 'slices follow each other in time', 1e-9)
            t = t + dt
            N = c['N_sub_steps_custom']
            env.near(c['Dt_substep_custom'] * N, dt, 'sub-steps cover the slice', 1e-9)
            env.check(env.And(N >= 1, env.Or(N == 1, env.And(N * 2 <= dt * 2 + 1 + env.q(1, 10**6), N * 2 >= dt * 2 - 1 - env.q(1, 10**6)))), 'sub-steps of about the reference duration')
            env.check(env.Implies(dt > env.q(16, 10), N >= 2), 'sub-steps of about the reference duration')
            env.check(bool(c['kick_mode_for_beam_field']) == kick_mode and bool(c['force_recompute_space_charge']) and bool(c['skip_MP_cleaning']) and bool(c['skip_MP_regen']) and bool(c['force_reinterp_fields_at_substeps']) == reinterp, 'how the cloud is advanced')
            g = groups[i]
            if not g:
                env.eq(c['lam'], 0, 'an empty slice has no charge'); env.check(not c['reads'], 'an empty slice has no field')
                env.eqs(env.items(c['field'][0]) if hasattr(c['field'][0], '__len__') else [], [0] * len(c['before']), 'an empty slice has no field')
            else:
                env.near(c['lam'] * v, b.particlenumber_per_mp * len(g) / widths[i] * v, 'line density of the slice', 1e-9)
                sc = sim.scattered.pop(0)
                env.eqs(sc[0], [old['x'][j] + o[0] for j in g], 'the particles of the slice act on the cloud')
                env.eqs(sc[1], [old['y'][j] + o[1] for j in g], 'the particles of the slice act on the cloud')
                for q in sc[2]: env.near(q * v, b.particlenumber_per_mp / widths[i] * v, 'charge per length of the slice', 1e-9)
                env.check(len(sc[2]) == len(g) and not sc[4], 'each slice replaces the previous one')
                env.eq(sc[3], b.charge, 'charge of the beam')
                env.check(c['log'][0] == 'scatter' and [x for x in c['log'] if isinstance(x, tuple)] == [('solve', [ec.beam_PyPIC_state])], 'the field of the slice is solved before the cloud moves')
                if len(c['before']): env.check(c['reads'], 'the cloud feels the slice')
                env.near(c['beam'][0] * len(g), sum(old['x'][j] + o[0] for j in g), 'position of the slice', 1e-9)
                env.near(c['beam'][1] * len(g), sum(old['y'][j] + o[1] for j in g), 'position of the slice', 1e-9)
        first = calls[0]
        env.check(len(first['before']) == len(init), 'each passage starts from the initial cloud')
        for u, w in zip(first['before'], init): env.eqs(u, w, 'each passage starts from the initial cloud')
        env.eqs(first['ref'], [env.q(3), env.q(9, 2), env.q(3, 4)], 'each passage starts with the initial reference size')
        env.check(not sim.scattered, 'nothing else acts on the cloud')
        kick_check(env, b, old, [groups[i] for i in order], fields, L, o, ex, ey, 'kick of the field of the cloud after its slice')
        env.check(len(ec.Ex_ele_last_track) == ns, 'field recorded for each slice')
        for k, i in enumerate(order):
            for c, r in ((fields[k].ex, ec.Ex_ele_last_track[i]), (fields[k].ey, ec.Ey_ele_last_track[i])): env.eqs([r[0, 0], r[1, 0], r[0, 1]], c, 'field recorded for its slice')
    env.check(ec.N_tracks == 2, 'passages are counted')


@harness('C21', [dict(ns=3), dict(ns=2, ex=False, off=True), dict(ns=2, ey=False), dict(ns=2, mode=True), dict(ns=3, mode=True, off=True), dict(ns=2, mode=True, ey=False)], [dict(ns=ns, ex=a, ey=b, off=o, mode=m) for ns in (1, 2, 3) for a in (False, True) for b in (False, True) for o in (False, True) for m in (False, True)])
def stored(env, ns, ex=True, ey=True, off=False, mode=False):
    """a passage is recorded, later passages use its field"""
    kw = {}
    o = [env.q(0), env.q(0)]
    if off: o = [env.real('ox'), env.real('oy')]; kw.update(x_beam_offset=o[0], y_beam_offset=o[1])
    if not ex: kw.update(enable_kick_x=False)
    if not ey: kw.update(enable_kick_y=False)
    PE, ec, sim, mp, L, made = ecloud(env, Dt=None, slicer=None if mode else 'slicer', slice_by_slice_mode=mode, **kw)
    groups = GROUPS[ns]
    n = sum(map(len, groups))
    v = C_ * BET
    z = [env.q(0)]
    for i in range(ns): z.append(z[-1] + env.q(i + 1) * 10**8)
    def passage(pre, run):
        if mode:
            parts = [bunch(env, len(g), '%s%d.' % (pre, i)) for i, g in enumerate(groups)]
            for i, s in enumerate(parts): s.slice_info = dict(z_bin_left=z[i], z_bin_right=z[i + 1])
            olds = [keep(env, s) for s in parts]
            rest = bunch(env, 1, pre + 'rest.')
            rest.slice_info = 'unsliced'
            ro = keep(env, rest)
            run(parts[::-1] + [rest])
            kick_check(env, rest, ro, [], [], L, o, ex, ey, 'particles outside the slices')
            return parts, olds
        b = bunch(env, n, pre)
        sl = Slices(env, z, groups)
        b.get_slices = lambda s: sl
        old = keep(env, b)
        run(b)
        return b, old
    def verify(parts, olds, label):
        fs = sim.fields[:ns][::-1]          # by slice
        if mode:
            for i, (s, old) in enumerate(zip(parts, olds)): kick_check(env, s, old, [range(len(groups[i]))], [fs[i]], L, o, ex, ey, label)
        else: kick_check(env, parts, olds, groups, fs, L, o, ex, ey, label)
    verify(*passage('a.', ec.track_once_and_replace_with_recorded_field_map), 'kick of the recorded passage')
    env.check(len(sim.calls) == ns, 'the cloud is simulated once')
    for p in range(2):
        def again(x):
            if mode:
                ec.finalize_and_reinitialize()
                for s in x: ec.track(s)
            else: ec.track(x)
        verify(*passage('p%d.' % p, again), 'kick of the stored field of the same slice')
    env.check(len(sim.calls) == ns, 'the cloud is simulated once')


@harness('C21', [dict(n=n, centroid=c, off=o) for n in (1, 2, 3) for c, o in ((False, False), (True, False), (False, True))])
def frozen(env, n, centroid, off):
    """kick of a given field map"""
    PE, ec, sim, mp, L, made = ecloud(env)
    TM = env.mod('Transverse_Efield_map_for_frozen_cloud')
    o = [env.real('ox'), env.real('oy')] if off else [env.q(0), env.q(0)]
    fs = [Field(env, 'map%d' % i) for i in range(3)]
    Ex, Ey = env.np.zeros((3, 2, 2)), env.np.zeros((3, 2, 2))
    for i, f in enumerate(fs):
        for A, c in ((Ex, f.ex), (Ey, f.ey)): A[i, 0, 0], A[i, 1, 0], A[i, 0, 1] = c
    m = TM.Transverse_Efield_map(xg=(0, 1), yg=(0, 1), Ex=Ex, Ey=Ey, L_interaction=L, slicer='s', flag_clean_slices=True, wrt_slice_centroid=centroid, x_beam_offset=o[0], y_beam_offset=o[1])
    groups = {1: [[], [0], []], 2: [[0], [], [1]], 3: [[1, 2], [0], []]}[n]
    if centroid: groups = [g for g in groups if g]; m.Ex, m.Ey, fs = Ex[:len(groups)], Ey[:len(groups)], fs[:len(groups)]
    b = bunch(env, n)
    sl = Slices(env, [env.q(i) for i in range(len(groups) + 1)], groups)
    b.get_slices = lambda s: sl
    old = keep(env, b)
    m.track(b)
    env.check(bool(b.cleaned), 'slices are renewed')
    if not centroid: kick_check(env, b, old, groups, fs, L, o, True, True, 'kick of the map of its slice'); return
    k = b.charge * L / (b.mass * b.beta * b.beta * b.gamma * C_ * C_)
    for g, f in zip(groups, fs):
        cx, cy = sum(old['x'][i] for i in g) / len(g), sum(old['y'][i] for i in g) / len(g)
        for i in g:
            e = f.at(old['x'][i] - cx, old['y'][i] - cy)
            for a, w in ((b.xp[i], old['xp'][i] + k * e[0]), (b.yp[i], old['yp'][i] + k * e[1])): env.eq(a, w, 'kick relative to the centre of the slice')


@harness('C21', [dict(kind=k) for k in ('plain', 'quiet', 'long', 'quiet_long', 'train', 'nodt')])
def single(env, kind):
    """slices given one at a time"""
    Dt = env.q(1)
    PE, ec, sim, mp, L, made = ecloud(env, Dt=None if kind == 'nodt' else Dt, Dt_ref=env.q(1, 2), slicer=None, slice_by_slice_mode=True)
    init = [[getattr(mp, f)[j] for f in FIELDS] for j in range(int(mp.N_mp))]
    v = env.q(3 * C_, 5)
    interact = not kind.startswith('quiet')
    lo, hi = dict(plain=(Fraction(1, 4), Fraction(9, 10)), quiet=(Fraction(1, 4), Fraction(9, 10)), long=(Fraction(11, 10), 5), quiet_long=(Fraction(11, 10), Fraction(29, 10)), nodt=(Fraction(1, 4), Fraction(14, 10)), train=(Fraction(1, 4), Fraction(9, 10)))[kind]
    dt = env.real('dt', lo, hi)
    def slc(pre, **info):
        s = bunch(env, 2, pre)
        left = env.real(pre + 'left')
        s.slice_info = dict(z_bin_left=left, z_bin_right=left + dt * v, **info)
        return s
    if kind == 'train':
        order = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 0), (1, 0)]
        for k, (i, j) in enumerate(order):
            s = slc('s%d.' % k, info_parent_bunch=dict(i_bunch=i), i_slice=j)
            ec.track(s)
            c = sim.calls[-1]
            env.check(bool(c['bt'].flag_new_bunch_pass) == (j == 0), 'a new passage starts with each bunch')
            env.check(c['bt'].pass_numb == i, 'number of the passage')
            fresh = (i, j) == (0, 0)
            if fresh:
                env.check(len(c['before']) == len(init), 'the cloud is restored before the first bunch')
                for u, w in zip(c['before'], init): env.eqs(u, w, 'the cloud is restored before the first bunch')
            else:
                env.check(c['ref'][0] == env.q(7 + k - 1), 'the cloud goes on between the slices')
        env.check(len(sim.calls) == len(order), 'every slice acts on the cloud once')
        return
    s = slc('s.', **({} if kind == 'plain' else dict(interact_with_EC=interact)), **(dict(info_parent_bunch=dict(i_bunch=3), i_slice=0) if kind == 'quiet_long' else {}))
    old = keep(env, s)
    if kind == 'long':
        env.check(env.raises(ValueError, ec.track, s), 'an interacting slice longer than the time step is refused')
        env.check(not sim.calls, 'an interacting slice longer than the time step is refused')
        return
    ec.track(s)
    N = len(sim.calls)
    total = sum(c['Dt'] for c in sim.calls)
    env.near(total, dt, 'the steps cover the slice', 1e-9)
    if kind != 'nodt':
        for c in sim.calls: env.le(c['Dt'], Dt * (1 + env.q(1, 10**9)), 'no step is longer than the time step')
        env.check(env.Or(N == 1, (N - 1) * Dt <= dt * (1 + env.q(1, 10**9))), 'no more steps than needed')
    t = env.q(0)
    if kind == 'quiet_long': env.check([bool(c['bt'].flag_new_bunch_pass) for c in sim.calls] == [True] + [False] * (N - 1), 'a new passage starts once')
    for i, c in enumerate(sim.calls):
        env.near(c['t'], t, 'steps follow each other in time', 1e-9)
        t = t + c['Dt']
        env.check(bool(c['skip_MP_cleaning']) == interact and bool(c['skip_MP_regen']) == interact, 'cleaning and regeneration only between interactions')
        env.check(bool(c['force_recompute_space_charge']) == (interact or i == 0), 'space charge is renewed')
        if not interact: env.eq(c['lam'], 0, 'a slice that does not interact has no field'); env.check(not c['reads'], 'a slice that does not interact has no field')
    if interact: kick_check(env, s, old, [[0, 1]], sim.fields[-1:], L, [env.q(0)] * 2, True, True, 'kick of the field of the cloud after its slice')
    else: kick_check(env, s, old, [], [], L, None, True, True, '')


@harness('C21', [dict(what=w) for w in ('twin', 'tracker', 'clouds', 'once', 'probes', 'sizes', 'args')])
def setup(env, what):
    """construction, twins and refusals"""
    if what == 'tracker':
        env.check(env.raises(ValueError, ecloud, env, track=env.choice('track', ['StrongBdip', 'StrongBgen', 'none'])), 'other trackers are refused'); return
    if what == 'clouds':
        env.check(env.raises(ValueError, ecloud, env, clouds=2), 'several clouds are refused'); return
    ox = env.real('ox')
    kw = dict(x_beam_offset=ox, enable_kick_y=False, nel_mp_ref_0=env.real('ref'))
    if what == 'probes': kw.update(probes_position=[dict(x=env.real('px%d' % i), y=env.real('py%d' % i)) for i in range(2)])
    PE, ec, sim, mp, L, made = ecloud(env, Dt=env.q(100), kick_mode_for_beam_field=True, verbose=False, force_interp_at_substeps_interacting_slices=True, **kw)
    if what == 'args':
        k = made[0]
        env.check(k['pyecl_input_folder'] == 'in' and k['skip_beam'] and k['skip_pyeclsaver'] and k['spacech_ele'] is None, 'how the simulation is built')
        env.eq(k['nel_mp_ref_0'], kw['nel_mp_ref_0'], 'parameters given here override the files')
        env.check({'x_beam_offset', 'y_beam_offset', 'enable_kick_x', 'enable_kick_y', 'probes_position'} <= set(k['ignore_kwargs']), 'parameters of the coupling are not those of the simulation')
        return
    if what == 'twin':
        tw = ec.generate_twin_ecloud_with_shared_space_charge()
        for a in ('slicer', 'Dt_ref', 'L_ecloud', 'flag_clean_slices', 'slice_by_slice_mode', 'kick_mode_for_beam_field', 'enable_kick_x', 'enable_kick_y', 'force_interp_at_substeps_interacting_slices', 'pyecl_input_folder', 'beam_monitor', 'verbose', 'save_pyecl_outp_as'):
            env.check(getattr(tw, a) is getattr(ec, a) or bool(getattr(tw, a) == getattr(ec, a)), 'the twin has the same settings: ' + a)
        env.eq(tw.x_beam_offset, ox, 'the twin has the same settings')
        env.check(len(made) == 2 and made[1]['spacech_ele'] is ec.spacech_ele, 'the twin shares the space charge')
        env.eq(made[1]['nel_mp_ref_0'], kw['nel_mp_ref_0'], 'the twin has the same settings')
        ec.efieldmap = 1
        env.check(env.raises(ValueError, ec.generate_twin_ecloud_with_shared_space_charge), 'no twin of a replaced cloud')
        return
    z = [env.q(0), env.q(10**8)]
    def run(pre):
        b = bunch(env, 2, pre)
        sl = Slices(env, z, [[0, 1]])
        b.get_slices = lambda s: sl
        old = keep(env, b)
        ec.track(b)
        return b, old
    if what == 'sizes':
        b = bunch(env, 2)
        b.particlenumber_per_mp = env.reals('ppm', 2)
        env.check(env.raises(ValueError, ec.track, b), 'different sizes of beam particles are refused'); return
    if what == 'once':
        ec.track_only_first_time = True
        run('a.')
        b, old = run('b.')
        env.check(len(sim.calls) == 1, 'only the first passage is simulated')
        kick_check(env, b, old, [], [], L, [ox, 0], True, True, '')
        return
    run('a.')
    for i in range(2):
        e = sim.fields[0].at(kw['probes_position'][i]['x'], kw['probes_position'][i]['y'])
        env.eq(ec.Ex_ele_last_track_at_probes[0][i], e[0], 'field at the probes')
        env.eq(ec.Ey_ele_last_track_at_probes[0][i], e[1], 'field at the probes')
