from symx.harness import harness
from .common import *
from .c06 import imp_manager, args, fixed_process, quiet_energy

FUNCTIONS = ['impact_management.__init__, backtrack_and_second_emiss, reset_*', 'impact_management.extract_sey_curves, extract_energy_distributions', 'hist_for.compute_hist, seg_impact.update_seg_impact, MP_system.add_new_MPs (as called)']
BOUNDS = ['up to 3 stored macroparticles, each hitting or not, one or two successive steps; speeds, charges, positions, last-impact times, thresholds and all previous histogram contents arbitrary; directions of motion and normals from a list of rational ones',
          'up to 3 new macroparticles per step with arbitrary charge, place, energy and segment; histograms of 2 to 5 bins']
ASSUMPTIONS = ['The chamber and the emission model are replaced by their contracts (arbitrary impact points inside, arbitrary emitted macroparticles); they are the subject of C05 to C08. One configuration runs the ECLOUD model itself.',
               'A last-impact time is never later than the current time; impact points lie within the chamber apertures.']

# direction of the velocity (unit vectors), normal, cosine of the angle of incidence
DIRS = [((-1, 0, 0), (1, 0), (1, 1)), ((0, (3, 5), (4, 5)), (0, -1), (3, 5)), (((-3, 13), (12, 13), (4, 13)), (1, 0), (3, 13)), ((0, 0, 1), (0, 1), (0, 1)), (((2, 3), (1, 3), (2, 3)), ((3, 5), (4, 5)), (2, 3)), (((1, 9), (4, 9), (8, 9)), (-1, 0), (1, 9))]
PLACES = [(1, 4), (-5, 8), (1, 1), (-1, 8)]
KE = 2.                       # eV per squared speed: mass = 2 KE e


def rat(env, v): return env.q(*v) if isinstance(v, tuple) else env.q(v)


class StubSey:
    """an emission model by contract: everything it returns is arbitrary"""
    event_types = {0: 'elast', 1: 'true'}

    def __init__(self, env, nnew, nseg, sym='rws'): self.env, self.nnew, self.nseg, self.calls, self.made, self.sym = env, nnew, nseg, [], [], sym

    def some(self, pre, n):
        """n macroparticles as dictionaries"""
        env, l = self.env, []
        for i in range(n):
            p = '%s%d_%d' % (pre, len(self.made), i)
            s = env.real(p + 's', 0); d = DIRS[(i + len(pre)) % len(DIRS)][0]
            l.append(dict(nel=env.real(p + 'nel', 0), x=env.real(p + 'x', -1, 1) if pre[0] in self.sym.replace('w', 'n') else env.q(*PLACES[(i + len(self.made) + len(pre)) % 4]), y=env.real(p + 'y', -1, 1), z=env.real(p + 'z'),
                          vx=rat(env, d[0]) * s, vy=rat(env, d[1]) * s, vz=rat(env, d[2]) * s, E=KE * s * s, seg=(env.int(p + 'seg', 0, self.nseg - 1) if 's' in self.sym else (i + 1) % self.nseg) if self.nseg else None))
        return l

    def impacts_on_surface(self, mass, nel_impact, x_impact, y_impact, z_impact, vx_impact, vy_impact, vz_impact, Norm_x, Norm_y, i_found,
                           v_impact_n, E_impact_eV, costheta_impact, nel_mp_th, flag_seg):
        env, n = self.env, len(nel_impact)
        self.calls.append(dict(nel=nel_impact, x=x_impact, y=y_impact, z=z_impact, vx=vx_impact, vy=vy_impact, vz=vz_impact, nx=Norm_x, ny=Norm_y, seg=i_found, vn=v_impact_n, E=E_impact_eV, ct=costheta_impact, th=nel_mp_th, mass=mass))
        rep, new = self.some('rep', n), self.some('new', self.nnew)
        tot = [env.real('tot%d_%d' % (len(self.made), i), 0) for i in range(n)]
        ty = [i % 2 for i in range(n)]
        self.made.append((rep, new, tot))
        A = lambda l, k: env.array([p[k] for p in l], 'f')
        S = lambda l: env.array([p['seg'] for p in l], 'i') if self.nseg else None
        return (env.array(tot, 'f'), env.array(ty, 'i'), {'extended_event_type': env.array(ty + [i % 2 for i in range(self.nnew)], 'i')},
                *[A(rep, k) for k in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz')], S(rep), *[A(new, k) for k in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz')], S(new))


def share(env, h0, samples, b, D, label, h):
    """h = h0 plus each (coordinate, weight, condition): linear share of the two next bins, the last one takes what lies beyond"""
    n = len(h0)
    env.check(len(h) == n, 'number of bins')
    for i in range(n):
        want = h0[i]
        for x, w, c in samples:
            u = (x - b) / D - i
            s = env.If(env.Or(u <= -1, u >= 1), 0, env.If(u >= 0, 1 - u, 1 + u))
            if i == n - 1: s = env.If(u >= 0, 1, s)
            want = want + env.If(c, w * s, 0)
        env.eq(h[i], want, label)


HISTS = ('nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'En_hist_line')


def hists(ip):
    d = {k: list(getattr(ip, k)) for k in HISTS}
    if ip.flag_cos_angle_hist: d['cos'] = list(ip.cos_angle_hist)
    if ip.flag_lifetime_hist: d['life'] = list(ip.lifetime_hist_line)
    if ip.flag_seg:
        d['seg_imp'], d['seg_em'], d['seg_en'] = list(ip.nel_hist_impact_seg), list(ip.nel_hist_emit_seg), list(ip.energ_eV_impact_seg)
        if ip.flag_En_hist_seg:
            for i, h in enumerate(ip.seg_En_hist_lines): d['seg_hist%d' % i] = list(h)
    return d


def prefill(env, ip):
    """arbitrary contents from earlier steps"""
    def put(pre, a):
        for i in range(len(a)): a[i] = env.real('%s_%d' % (pre, i))
    for k in HISTS: put(k, getattr(ip, k))
    if ip.flag_cos_angle_hist: put('cos', ip.cos_angle_hist)
    if ip.flag_lifetime_hist: put('life', ip.lifetime_hist_line)
    if ip.flag_seg:
        put('si', ip.nel_hist_impact_seg); put('se', ip.nel_hist_emit_seg); put('sn', ip.energ_eV_impact_seg)
        if ip.flag_En_hist_seg:
            for i, h in enumerate(ip.seg_En_hist_lines): put('sh%d' % i, h)


def build(env, n, steps, nnew, seg, life, enseg, cos, sey=None, Dx=(1, 1), dirs=0, ang=(1, 2), sym='xs'):
    imp = [(env.real('xi%d' % i, -1, 1) if 'x' in sym else env.q(*PLACES[(i + 1) % 4]), env.real('yi%d' % i, -1, 1), env.q(10 + i), *[rat(env, c) for c in DIRS[(i + dirs) % len(DIRS)][1]], (env.int('segi%d' % i, 0, 2) if 's' in sym else (2 * i + 1) % 3) if seg else 0) for i in range(n * steps)]
    ch = StubChamb(env, 1., 1., imp, 3 if seg else 0)
    if not seg and hasattr(ch, 'N_vert'): ch.N_vert = 0
    m = sey or StubSey(env, nnew, 3 if seg else 0, sym)
    kw = dict(scrub_en_th=env.real('scrub', 0), flag_lifetime_hist=life, flag_cos_angle_hist=cos, Dx_hist=float(env.q(*Dx)) if not env.symbolic else Dx[0] / Dx[1], cos_angle_width=ang[0] / ang[1])
    ip = imp_manager(env, ch, m, flag_seg=seg, flag_En_hist_seg=enseg, **kw)
    return ch, m, ip


S = lambda n=1, steps=1, nnew=1, sym='x', **k: dict(n=n, steps=steps, nnew=nnew, sym=sym, seg=k.get('seg', False), life=k.get('life', False), enseg=k.get('enseg', False), cos=k.get('cos', True), dirs=k.get('dirs', 0), Dx=k.get('Dx', (1, 1)), ang=k.get('ang', (1, 2)))


@harness('C12', [S(0), S(1, 1, 0, 'xE'), S(1, 1, 1, 'r', life=True), S(1, 1, 2, 'w', dirs=1), S(1, 1, 1, 's', seg=True, enseg=True, dirs=1), S(1, 1, 1, 'E', seg=True, enseg=True, dirs=2), S(2, 1, 1, 'x', cos=False), S(2, 1, 0, 's', seg=True, dirs=2), S(2, 1, 0, 'E', seg=True, enseg=True, dirs=3),
                 S(2, 1, 1, 't', life=True, dirs=4), S(1, 2, 1, 't', life=True, dirs=4), S(2, 2, 1, '', life=True, seg=True, dirs=4), S(1, 1, 0, 'x', Dx=(1, 2), dirs=2, ang=(1, 4)), S(1, 1, 0, '', dirs=3), S(1, 1, 0, '', dirs=5, ang=(3, 8)), S(3, 1, 0, '', cos=False)],
         [S(2, 1, 1, y, seg=g, life=l, enseg=g, dirs=d) for y, g, l, d in (('x', True, True, 0), ('r', True, False, 1), ('w', True, False, 2), ('E', True, True, 3), ('s', True, False, 4), ('t', False, True, 5))] + [S(1, 2, 1, y, seg=True, life=True, enseg=True, dirs=d) for d, y in enumerate(('x', 'r', 'w', 'E', 's', 't'))] + [S(1, 1, 2, y, seg=True, enseg=True, dirs=d) for d, y in enumerate(('xE', 'wr', 'sE'))] + [S(3, 1, 0, y, cos=False) for y in 'xE'])
def step(env, n, steps, nnew, sym, seg, life, enseg, cos, dirs, Dx, ang):
    """one or two wall interaction steps"""
    ch, m, ip = build(env, n, steps, nnew, seg, life, enseg, cos, None, Dx, dirs, ang, sym)
    mp = make_mp(env, 12, life, chamb=ch, mass=2 * KE * QE)
    qe = QE
    fill(env, mp, n, lifetime=life, tail=False)
    prefill(env, ip)
    tt = env.real('tt', 0) if 't' in sym else env.q(1)
    for st in range(steps):
        sp = [env.real('speed%d_%d' % (st, i), slo=0) if 'E' in sym else env.q(*((1, 2), (3, 2), (1, 1), (3, 4))[(i + st + dirs) % 4]) for i in range(n)]
        for i in range(n):
            d = DIRS[(st * n + i + dirs) % len(DIRS)][0]
            mp.vx_mp[i], mp.vy_mp[i], mp.vz_mp[i] = [rat(env, c) * sp[i] for c in d]
            mp.x_mp[i] = env.If(env.bool('hit%d_%d' % (st, i)), env.q(2), env.q(1, 4)); mp.y_mp[i] = env.q(1, 4)
            mp.z_mp[i] = env.q(i)
        for i in range(n, int(mp.N_mp)): mp.x_mp[i] = env.q(0); mp.y_mp[i] = env.q(0)
        if life:
            tt = tt + (env.real('dt%d' % st, slo=0) if 't' in sym else env.q(1))
            if 't' not in sym and st == 0:
                for i in range(n): mp.t_last_impact[i] = env.q(*((-1, 1), (1, 2), (5, 4))[(i + dirs) % 3])
            for i in range(int(mp.N_mp)): env.assume(mp.t_last_impact[i] <= tt)
        N0 = int(mp.N_mp)
        hit = [i for i in range(n) if bool(mp.x_mp[i] >= 1)]
        nel = [mp.nel_mp[i] for i in range(n)]; tl = [mp.t_last_impact[i] for i in range(n)] if life else None
        h0 = hists(ip)
        imps = ch.impacts[ch.used:]
        old = Obj(x_mp=mp.x_mp[:N0] * 0 + 5, y_mp=mp.y_mp[:N0] * 0 - 5, z_mp=mp.z_mp[:N0] * 0 + 7)
        nc = len(m.calls)
        ip.backtrack_and_second_emiss(old, mp, tt)
        h1 = hists(ip)
        if not hit:
            for k in h0:
                for a, b in zip(h0[k], h1[k]): env.eq(a, b, 'a step without impacts changes no histogram')
            for v in ('Nel_impact_last_step', 'Nel_emit_last_step', 'En_imp_last_step_eV', 'En_emit_last_step_eV'): env.eq(getattr(ip, v), 0, 'totals of a step without impacts')
            env.check(len(m.calls) == nc, 'nothing is emitted without impacts')
            continue
        env.check(len(m.calls) == nc + 1, 'the emission model is asked once per step')
        c = m.calls[-1]; rep, new, tot = m.made[-1]
        d = [DIRS[(st * n + i + dirs) % len(DIRS)] for i in hit]
        E = [KE * sp[i] * sp[i] for i in hit]
        env.check(len(c['nel']) == len(hit), 'one event per impact')
        for k, i in enumerate(hit):
            nrm = (imps[k][3], imps[k][4])
            vn = (rat(env, d[k][0][0]) * nrm[0] + rat(env, d[k][0][1]) * nrm[1])
            for key, w in (('nel', nel[i]), ('x', imps[k][0]), ('y', imps[k][1]), ('z', imps[k][2]), ('nx', nrm[0]), ('ny', nrm[1]), ('E', E[k]), ('vx', rat(env, d[k][0][0]) * sp[i]), ('vy', rat(env, d[k][0][1]) * sp[i]), ('vz', rat(env, d[k][0][2]) * sp[i]), ('vn', vn * sp[i])):
                env.eq(c[key][k], w, 'the emission model gets the impact as it was (%s)' % key)
            env.eq(c['ct'][k], env.If(vn < 0, -vn, vn), 'cosine of the angle of incidence')
            if seg: env.check(c['seg'][k] == imps[k][5], 'the emission model gets the impact as it was (segment)')
            env.eq(ch.calls[-1][3][k], 2, 'paths end where the macroparticles are'); env.eq(ch.calls[-1][0][k], 5, 'paths start at the old positions'); env.eq(ch.calls[-1][1][k], -5, 'paths start at the old positions'); env.eq(ch.calls[-1][2][k], 7, 'paths start at the old positions')
            env.eq(ch.calls[-1][4][k], env.q(1, 4), 'paths end where the macroparticles are'); env.eq(ch.calls[-1][5][k], i, 'paths end where the macroparticles are')
        X = range(len(hit)); out = rep + new
        env.eq(ip.Nel_impact_last_step, env.sum([nel[i] for i in hit]), 'impacting charge of the step')
        env.eq(ip.En_imp_last_step_eV, env.sum([nel[i] * E[k] for k, i in enumerate(hit)]), 'impacting energy of the step')
        env.eq(ip.Nel_emit_last_step, env.sum(tot), 'emitted charge of the step')
        env.eq(ip.En_emit_last_step_eV, env.sum([p['nel'] * p['E'] for p in out]), 'emitted energy of the step')
        Dxq = env.q(*Dx); b = -(len(ip.xg_hist) // 2) * Dxq
        env.check(len(ip.xg_hist) % 2 == 1, 'position histogram is symmetric')
        for k in range(len(ip.xg_hist)): env.eq(ip.xg_hist[k], b + k * Dxq, 'position histogram bins')
        share(env, h0['nel_impact_hist_tot'], [(imps[k][0], nel[i], True) for k, i in enumerate(hit)], b, Dxq, 'position histogram of the impacting charge', h1['nel_impact_hist_tot'])
        share(env, h0['nel_impact_hist_scrub'], [(imps[k][0], nel[i], E[k] > ip.scrub_en_th) for k, i in enumerate(hit)], b, Dxq, 'position histogram above the scrubbing threshold', h1['nel_impact_hist_scrub'])
        share(env, h0['energ_eV_impact_hist'], [(imps[k][0], nel[i] * E[k], True) for k, i in enumerate(hit)] + [(p['x'], -p['nel'] * p['E'], True) for p in out], b, Dxq, 'position histogram of the deposited energy', h1['energ_eV_impact_hist'])
        share(env, h0['En_hist_line'], [(E[k], nel[i], True) for k, i in enumerate(hit)], 0, 1, 'energy histogram (last bin takes everything above)', h1['En_hist_line'])
        if cos:
            w = env.q(*ang)
            share(env, h0['cos'], [(c['ct'][k], nel[i], True) for k, i in enumerate(hit)], 0, w, 'angle histogram', h1['cos'])
            env.check(len(h1['cos']) * w > 1 and (len(h1['cos']) - 1) * w <= 1, 'angle histogram covers normal incidence')
        if life:
            share(env, h0['life'], [(tt - tl[i], nel[i], tl[i] > 0) for i in hit], 0, 1, 'lifetime histogram counts macroparticles that hit before', h1['life'])
            for i in hit: env.eq(mp.t_last_impact[i], tt, 'time of the last impact')
            for i in range(n):
                if i not in hit: env.eq(mp.t_last_impact[i], tl[i], 'time of the last impact')
            for j in range(N0, int(mp.N_mp)): env.eq(mp.t_last_impact[j], tt, 'time of the last impact of emitted macroparticles')
        if seg:
            for s in range(3):
                env.eq(h1['seg_imp'][s], h0['seg_imp'][s] + env.sum([env.If(imps[k][5] == s, nel[i], 0) for k, i in enumerate(hit)]), 'charge hitting a segment')
                env.eq(h1['seg_en'][s], h0['seg_en'][s] + env.sum([env.If(imps[k][5] == s, nel[i] * E[k], 0) for k, i in enumerate(hit)] + [env.If(p['seg'] == s, -p['nel'] * p['E'], 0) for p in out]), 'energy deposited on a segment')
                env.eq(h1['seg_em'][s], h0['seg_em'][s] + env.sum([env.If(p['seg'] == s, p['nel'], 0) for p in out]), 'charge emitted by a segment')
                if enseg: share(env, h0['seg_hist%d' % s], [(E[k], nel[i], imps[k][5] == s) for k, i in enumerate(hit)], 0, 1, 'energy histogram of a segment', h1['seg_hist%d' % s])
        # what the model returned is what is stored
        for k, i in enumerate(hit):
            for key, f in zip(('x', 'y', 'z', 'vx', 'vy', 'vz', 'nel'), FIELDS): env.eq(getattr(mp, f)[i], rep[k][key], 'what is emitted is what is stored')
        env.check(int(mp.N_mp) == N0 + len(new), 'what is emitted is what is stored')
        for k, p in enumerate(new):
            for key, f in zip(('x', 'y', 'z', 'vx', 'vy', 'vz', 'nel'), FIELDS): env.eq(getattr(mp, f)[N0 + k], p[key], 'what is emitted is what is stored')


@harness('C12', [dict(seg=True, most=2)], [dict(seg=s, most=m) for s in (True, False) for m in (2, 4)])
def ecloud(env, seg, most):
    """bookkeeping of charge and energy with the ECLOUD model itself"""
    quiet_energy(env)
    m = sey_models(env, 'ecloud')
    ch, m, ip = build(env, 1, 1, 0, seg, False, False, False, m)
    mp = make_mp(env, 8, False, nel_ref0=env.real('nel_ref', slo=0), chamb=ch, mass=2 * KE * QE)
    fill(env, mp, 1, lifetime=False, tail=False)
    mp.x_mp[0], mp.y_mp[0], mp.z_mp[0] = env.q(2), env.q(0), env.q(3)
    s = env.real('speed', slo=0)
    mp.vx_mp[0], mp.vy_mp[0], mp.vz_mp[0] = -env.q(3, 5) * s, env.q(0), env.q(4, 5) * s
    nel = mp.nel_mp[0]
    want, el = fixed_process(env, m, 1, mp.nel_mp_split, most)
    ip.backtrack_and_second_emiss(Obj(x_mp=mp.x_mp[:1] * 0, y_mp=mp.y_mp[:1] * 0, z_mp=mp.z_mp[:1] * 0), mp, 0.)
    N = int(mp.N_mp)
    E = [KE * (mp.vx_mp[i] * mp.vx_mp[i] + mp.vy_mp[i] * mp.vy_mp[i] + mp.vz_mp[i] * mp.vz_mp[i]) for i in range(N)]
    em = env.sum([mp.nel_mp[i] * E[i] for i in range(N)])
    env.eq(ip.Nel_emit_last_step, env.sum([mp.nel_mp[i] for i in range(N)]), 'emitted charge of the step is what is stored')
    env.eq(ip.En_emit_last_step_eV, em, 'emitted energy of the step is what is stored')
    env.eq(env.sum(list(ip.nel_impact_hist_tot)), nel, 'impacting charge')
    env.eq(env.sum(list(ip.energ_eV_impact_hist)), nel * KE * s * s - em, 'deposited energy is impacting minus emitted')
    if seg:
        env.eq(env.sum(list(ip.nel_hist_emit_seg)), want[0], 'emitted charge of the segments')
        env.eq(env.sum(list(ip.energ_eV_impact_seg)), nel * KE * s * s - em, 'deposited energy is impacting minus emitted')


@harness('C12', [dict(seg=True), dict(seg=False)], [dict(seg=True), dict(seg=False)])
def resets(env, seg):
    """each reset empties its own histogram and nothing else"""
    ch, m, ip = build(env, 1, 1, 0, seg, True, seg, True)
    names = [('reset_impact_hist_tot', 'nel_impact_hist_tot'), ('reset_impact_hist_scrub', 'nel_impact_hist_scrub'), ('reset_energ_eV_impact_hist', 'energ_eV_impact_hist'), ('reset_En_hist_line', 'En_hist_line'), ('reset_cos_angle_hist', 'cos'), ('reset_lifetime_hist_line', 'life')]
    if seg: names += [('reset_hist_impact_seg', 'seg_imp'), ('reset_hist_emit_seg', 'seg_em'), ('reset_energ_impact_seg', 'seg_en'), ('reset_seg_En_hist_lines', 'seg_hist')]
    else: names += [('reset_hist_impact_seg', None), ('reset_hist_emit_seg', None), ('reset_energ_impact_seg', None)]
    for k, l in hists(ip).items():
        for v in l: env.eq(v, 0, 'histograms start empty')
    for fn, key in names:
        prefill(env, ip)
        h0 = hists(ip)
        getattr(ip, fn)()
        for k, l in hists(ip).items():
            mine = k == key or (key == 'seg_hist' and k.startswith('seg_hist'))
            for a, b in zip(l, h0[k]): env.eq(a, 0 if mine else b, '%s empties its histogram only' % fn)


@harness('C12', [dict(n=2, nct=2, nE=2), dict(n=1, nct=1, nE=3)], [dict(n=2, nct=2, nE=2), dict(n=1, nct=1, nE=3), dict(n=3, nct=2, nE=2)])
def curves(env, n, nct, nE):
    """extract_sey_curves and extract_energy_distributions"""
    m = StubSey(env, 1, 3, '')
    ch, m, ip = build(env, 1, 1, 0, True, False, False, False, m)
    cts = env.array([env.q(1), env.q(3, 5)][:nct], 'f'); Es = env.array([env.q(v) for v in (2, 18, 50)][:nE], 'f')
    out = ip.extract_sey_curves(n, Es, cts, -1., 2 * KE * QE)
    env.check(sorted(out) == ['elast', 'true'] and len(m.calls) == nct * nE, 'one evaluation per angle and energy')
    for i in range(nct):
        for j in range(nE):
            c, (rep, new, tot) = m.calls[i * nE + j], m.made[i * nE + j]
            for k in range(n):
                env.eq(c['E'][k], Es[j], 'evaluated at the energy of the entry'); env.eq(c['ct'][k], cts[i], 'evaluated at the angle of the entry'); env.eq(c['nel'][k], 1, 'electron by electron')
                env.near(KE * (c['vx'][k] * c['vx'][k] + c['vy'][k] * c['vy'][k] + c['vz'][k] * c['vz'][k]), Es[j], 'speed of the entry', 1e-9)
                env.near(c['vn'][k], c['vx'][k] * c['nx'][k] + c['vy'][k] * c['ny'][k], 'speed along the normal', 1e-9)
            for ty, name in ((0, 'elast'), (1, 'true')):
                env.eq(out[name][i, j] * n, env.sum([tot[k] for k in range(n) if k % 2 == ty]), 'emitted per impacting charge of each kind')
    m.calls, m.made, m.sym = [], [], ''
    m.nnew = 1
    En = env.q(2)
    d = ip.extract_energy_distributions(n, float(2.), cts, 2 * KE * QE, 3, 2.)
    env.check(len(m.calls) == nct, 'one evaluation per angle')
    for i in range(nct):
        rep, new, tot = m.made[i]
        for ty, name in ((0, 'elast'), (1, 'true')):
            share(env, [0, 0, 0], [(p['E'], 1, True) for k, p in enumerate(rep) if k % 2 == ty] + [(p['E'], 1, True) for k, p in enumerate(new) if k % 2 == ty], 0, 2, 'energy distribution of each kind', [d[name][k, i] for k in range(3)])
    for k in range(3): env.eq(d['emit_ene_g_hist'][k], 2 * k, 'energies of the bins')
