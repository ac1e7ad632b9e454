import os
from symx.harness import harness
from .common import *

FUNCTIONS = ['sec_emission_model_ECLOUD.yield_fun2 / SEY_process', 'sec_emission_model_ECLOUD_nunif (uniform tables and charging) SEY_process / SEY_model_evol', 'sec_emission_model_accurate_low_ene',
             'sec_emission_model_cos_low_ener', 'sec_emission_model_flat_low_ener', 'sec_emission_model_from_file', 'sec_emission_model_furman_pivi yields and SEY_process', 'sec_emission_model_perfect_absorber']
BOUNDS = ['1 to 3 impacts of arbitrary energy, angle, charge and model parameters (R0 in [0,1], Emax > 0, E0 > 0, s > 1); tables of 3 to 4 nodes with arbitrary values; 3 wall segments; 2 consecutive impact steps for charging']
ASSUMPTIONS = ['exp, power and cosine are abstract functions (positivity, monotonicity, congruence); the same function values enter the law and the code.', 'Furman-Pivi: parameters for which delta_e + delta_r < 1 (the code rejects the others).']


def impacts(env, n, lo=0, sym=None):
    """impact number `sym` is arbitrary, the others (all, when None) are given numbers"""
    E, ct, nel = env.reals('E', n, lo), env.reals('ct', n, 0, 1), env.reals('nel', n, 0)
    for i in range(n):
        if sym is not None and i != sym:
            E[i], ct[i], nel[i] = env.q([30, 400, 2][i]), env.q([1, 3, 1][i], [2, 4, 1][i]), env.q(3)
    return E, ct, nel


def law_true(env, E, ct, Emax, dmax, s, scale=True, shift=True):
    d = dmax * env.np.exp(env.q(1, 2) * (1 - ct)) if scale else dmax
    em = Emax * (1 + env.q(7, 10) * (1 - ct)) if shift else Emax
    x = E / em
    return d * s * x / (s - 1 + x**s)


def law_elast(env, E, R0, E0):
    a, b = env.np.sqrt(E), env.np.sqrt(E + E0)
    return R0 * ((a - b) / (a + b))**2


def process_checks(env, out, E, ct, nel, total, frac, u, label=''):
    """a model that multiplies the charge by the yield and picks the event type with the elastic fraction"""
    nel_emit, el, ts = out
    for i in range(len(E)):
        env.eq(nel_emit[i], nel[i] * total[i], label + 'emitted charge is impinging charge times yield')
        env.check(env.Iff(el[i], u[i] < frac[i]), label + 'elastic exactly with the elastic fraction as probability')
        env.check(env.Iff(ts[i], env.Not(el[i])), label + 'every event is either elastic or true secondary')


def yields_checks(env, total, frac, true, elast, label=''):
    for i in range(len(total)):
        env.check(env.finite(total[i]), label + 'yield is finite')
        env.check(env.finite(frac[i]), label + 'elastic fraction is finite')
        env.ge(total[i], 0, label + 'yield is not negative')
        env.eq(total[i], true[i] + elast[i], label + 'yield follows its law')
        env.ge(frac[i], 0, label + 'elastic fraction is not negative')
        env.le(frac[i], 1, label + 'elastic fraction is at most one')
        env.eq(frac[i] * (true[i] + elast[i]), elast[i], label + 'elastic fraction follows its law')


def us(env, k=0):
    return [v for kind, v in env.drawn()][k:]


def params(env, num=False):
    if num: return dict(Emax=env.q(300), del_max=env.q(1.5), R0=env.q(3, 4)), env.q(150)
    return dict(Emax=env.real('Emax', slo=0), del_max=env.real('dmax', 0), R0=env.real('R0', 0, 1)), env.real('E0', slo=0)


@harness('C07', [dict(n=1, scale=True, shift=True, sym_s=True), dict(n=2, scale=True, shift=False, sym_s=False), dict(n=2, scale=False, shift=True, sym_s=False), dict(n=1, scale=False, shift=False, sym_s=True)],
         [dict(n=n, scale=a, shift=b, sym_s=c) for n in (1, 2) for a in (True, False) for b in (True, False) for c in (True, False)])
def ecloud(env, n, scale, shift, sym_s):
    M = env.mod('sec_emission_model_ECLOUD')
    P, E0 = params(env, n > 1)
    s = env.real('s', slo=1) if sym_s else env.q(1.35)
    E, ct, nel = impacts(env, n, 0, None if n == 1 else 1)
    m = M.SEY_model_ECLOUD(E0=E0, s=s, flag_costheta_delta_scale=scale, flag_costheta_Emax_shift=shift, **P)
    true = [law_true(env, E[i], ct[i], P['Emax'], P['del_max'], s, scale, shift) for i in range(n)]
    el = [law_elast(env, E[i], P['R0'], E0) for i in range(n)]
    d, f = M.yield_fun2(E, ct, P['Emax'], P['del_max'], P['R0'], E0, s, scale, shift)
    yields_checks(env, d, f, true, el)
    for i in range(n): env.check(env.Implies(E[i] <= 0, d[i] == P['R0']), 'yield at zero energy is R0')
    out = m.SEY_process(nel, E, ct, None)
    process_checks(env, out, E, ct, nel, [true[i] + el[i] for i in range(n)], f, us(env))
    m.SEY_model_evol(env.real('Dt', 0))
    d2, f2 = M.yield_fun2(E, ct, m.Emax, m.del_max, m.R0, m.E0, m.s)
    env.check(m.Emax is P['Emax'] or bool(m.Emax == P['Emax']), 'parameters do not change with time')


@harness('C07', [dict(n=1, kind='acc'), dict(n=1, kind='cos'), dict(n=1, kind='flat'), dict(n=2, kind='flat')],
         [dict(n=n, kind=k) for n in (1, 2) for k in ('acc', 'cos', 'flat')])
def low_energy(env, n, kind):
    P, E0 = params(env)
    E, ct, nel = impacts(env, n)
    s = env.q(1.35)
    true = [law_true(env, E[i], ct[i], P['Emax'], P['del_max'], s) for i in range(n)]
    if kind == 'acc':
        M = env.mod('sec_emission_model_accurate_low_ene')
        m = M.SEY_model_acc_low_ene(E0=E0, **P)
        el = [law_elast(env, E[i], P['R0'], E0) for i in range(n)]
        t, r, f = M.yield_fun3(E, ct, P['Emax'], P['del_max'], P['R0'], E0)
        yields_checks(env, [t[i] + r[i] for i in range(n)], f, true, el)
        ne, fe, ft = m.SEY_process(nel, E, ct, None)
        u = us(env)
        for i in range(n):
            env.check(env.Iff(fe[i], u[i] < el[i]), 'elastic with the reflectivity as probability')
            env.check(env.Iff(ft[i], env.Not(fe[i])), 'every event is either elastic or true secondary')
            if bool(fe[i]): env.eq(ne[i], nel[i], 'elastic events keep the charge')
            else: env.eq(ne[i] * (1 - el[i]), nel[i] * true[i], 'expected emission of an impact is the total yield')
        return
    if kind == 'cos':
        M = env.mod('sec_emission_model_cos_low_ener')
        m = M.SEY_model_cos_le(E0=E0, **P)
        el = []
        for i in range(n):
            c = env.np.cos(env.q(1, 2) * env.np.pi * E[i] / E0)
            el.append(env.If(E[i] < E0, P['R0'] * c * c, env.q(0)))
        d, f = M.yield_fun2(E, ct, P['Emax'], P['del_max'], P['R0'], E0)
    else:
        M = env.mod('sec_emission_model_flat_low_ener')
        m = M.SEY_model_flat_le(**P)
        el = [env.If(env.And(true[i] < P['R0'], E[i] < P['Emax']), P['R0'] - true[i], env.q(0)) for i in range(n)]
        d, f = M.yield_fun2(E, ct, P['Emax'], P['del_max'], P['R0'])
    yields_checks(env, d, f, true, el)
    out = m.SEY_process(nel, E, ct, None)
    process_checks(env, out, E, ct, nel, [true[i] + el[i] for i in range(n)], f, us(env))


def seg_chamber(env, nseg, charging=False, sym=0):
    """wall segments; the parameters of segment `sym` are arbitrary (negative: use the default)"""
    c = Obj(chamb_type='polyg')
    num = lambda name, v, lo, hi=None: env.array([env.real(name, lo, hi) if i == sym else env.q(x) for i, x in enumerate(v)], 'f')
    c.del_max_segments = num('dseg', [1.5, -1, 1.25][:nseg], -1)
    c.R0_segments = num('Rseg', [-1, 0.5, 0.25][:nseg], -1, 1)
    c.Emax_segments = num('Eseg', [300, -1, 200][:nseg], -1)
    if sym is not None: env.assume(env.Not(c.Emax_segments[sym] == 0))
    c.L_edg = env.reals('L', nseg)
    for i in range(nseg): env.assume(c.L_edg[i] > 0)
    if charging:
        c.flag_charging = env.array([1, 0, 1][:nseg], 'i')
        c.Q_max_segments = env.reals('Qmax', nseg)
        c.EQ_segments = env.reals('EQ', nseg)
        c.tau_segments = env.reals('tau', nseg)
        for i in range(nseg):
            env.assume(c.Q_max_segments[i] > 0); env.assume(c.EQ_segments[i] > 0)
    return c


@harness('C07', [dict(n=1), dict(n=2, sym=None)], [dict(n=1), dict(n=2), dict(n=2, sym=None), dict(n=1, sym=1), dict(n=2, sym=2), dict(n=3, sym=1)])
def segments(env, n, sym=0):
    M = env.mod('sec_emission_model_ECLOUD_nunif')
    P, E0 = params(env, n > 1)
    nseg = 3
    c = seg_chamber(env, nseg, sym=sym)
    keep = [[c.del_max_segments[i], c.R0_segments[i], c.Emax_segments[i]] for i in range(nseg)]
    m = M.SEY_model_ECLOUD_non_unif(c, P['Emax'], P['del_max'], P['R0'], E0)
    E, ct, nel = impacts(env, n, 0, n - 1)
    seg = [env.choice('seg%d' % i, range(nseg)) for i in range(n)]
    par = lambda k, j, d: env.If(keep[j][k] < 0, d, keep[j][k])
    s = env.q(1.35)
    true = [law_true(env, E[i], ct[i], par(2, seg[i], P['Emax']), par(0, seg[i], P['del_max']), s) for i in range(n)]
    el = [law_elast(env, E[i], par(1, seg[i], P['R0']), E0) for i in range(n)]
    out = m.SEY_process(nel, E, ct, env.array(seg, 'i'))
    u = us(env)
    for i in range(n):
        env.eq(out[0][i], nel[i] * (true[i] + el[i]), 'the segment that was hit gives the yield')
        env.check(env.Iff(out[1][i], u[i] * (true[i] + el[i]) < el[i]), 'the segment that was hit gives the elastic fraction')
        env.check(env.Iff(out[2][i], env.Not(out[1][i])), 'every event is either elastic or true secondary')
    for i in range(nseg):
        env.eq(c.del_max_segments[i], keep[i][0], 'the chamber description is not changed')


@harness('C07', [dict(n=1, hist=True, fixed=None), dict(n=2, hist=True, fixed=(0, 0)), dict(n=2, hist=True, fixed=(0, 2)), dict(n=2, hist=False, fixed=(1, 0))],
         [dict(n=1, hist=h, fixed=None) for h in (True, False)] + [dict(n=2, hist=h, fixed=(a, b)) for h in (True, False) for a in range(3) for b in range(3)] + [dict(n=3, hist=False, fixed=(0, 2, 0))])
def charging(env, n, hist, fixed):
    """one step of impacts on segments that may already be charged, then the decay"""
    M = env.mod('sec_emission_model_ECLOUD_nunif')
    P, E0 = params(env, True)
    nseg = 3
    c = seg_chamber(env, nseg, True, None)
    m = M.SEY_model_ECLOUD_non_unif_charging(c, P['Emax'], P['del_max'], P['R0'], E0)
    Q = []
    for i in range(nseg):
        env.check(bool(m.Q_segments[i] == 0), 'segments start uncharged')
        q = env.real('Q%d' % i) if hist and i != 1 else env.q(0)
        m.Q_segments[i] = q
        Q.append(q)
    E, ct, nel = impacts(env, n, 0, 0)
    if n > 1: ct[0] = env.q(1, 2)
    seg = list(fixed) if fixed else [env.choice('seg%d' % i, range(nseg)) for i in range(n)]
    M0 = env.mod('sec_emission_model_ECLOUD')
    tot, fr = [], []
    for i in range(n):
        j = seg[i]
        pick = lambda a, d: env.If(a[j] < 0, d, a[j])
        one = lambda v: env.array([v], 'f')
        Em, dm, R0 = pick(c.Emax_segments, P['Emax']), pick(c.del_max_segments, P['del_max']), pick(c.R0_segments, P['R0'])
        # the law itself is decided in `segments`
        d, f = M.yield_fun2(one(E[i]), one(ct[i]), one(Em), one(dm), one(R0), E0)
        d, f = d[0], f[0]
        if j != 1:
            q = env.If(Q[j] < 0, env.q(0), env.If(Q[j] > c.Q_max_segments[j], c.Q_max_segments[j], Q[j]))
            r = q / c.Q_max_segments[j]
            d = d * (1 - r) + (1 - env.np.exp(-E[i] / c.EQ_segments[j])) * r
        tot.append(d); fr.append(f)
    ne, fe, ft = m.SEY_process(nel, E, ct, env.array(seg, 'i'))
    u = us(env)
    for i in range(n):
        env.eq(ne[i], nel[i] * tot[i], 'yield of a charged segment is limited as documented')
        env.ge(ne[i], 0, 'yield of a charged segment is not negative')
        env.check(env.Iff(fe[i], u[i] < fr[i]), 'elastic fraction is that of the segment')
    qe = M.qe
    Qn = []
    for j in range(nseg):
        want = Q[j]
        if j != 1:
            for i in range(n):
                if seg[i] == j: want = want + (nel[i] - nel[i] * tot[i]) * (-qe) / c.L_edg[j]
        env.eq(m.Q_segments[j], want, 'charge is accumulated on the segment that was hit only', 0)
        Qn.append(m.Q_segments[j])
    Dt = env.real('Dt', 0)
    m.SEY_model_evol(Dt)
    for j in range(nseg):
        if j != 1 and bool(c.tau_segments[j] > 0):
            env.eq(m.Q_segments[j], Qn[j] * env.np.exp(-Dt / c.tau_segments[j]), 'charge decays with the configured time constant', 0)
        else:
            env.eq(m.Q_segments[j], Qn[j], 'no decay without a time constant', 0)


@harness('C07', [dict(n=1, nodes=3, scale=True, shift=True, src='dict'), dict(n=1, nodes=4, scale=False, shift=False, src='file'), dict(n=1, nodes=2, scale=True, shift=False, src='folder'), dict(n=2, nodes=2, scale=False, shift=False, src='dict')],
         [dict(n=1, nodes=k, scale=a, shift=b, src=s) for k in (2, 3, 4) for a in (True, False) for b in (True, False) for s in ('dict', 'file', 'folder')] + [dict(n=2, nodes=k, scale=a, shift=False, src='dict') for k in (2, 3) for a in (False, True)])
def table(env, n, nodes, scale, shift, src):
    M = env.mod('sec_emission_model_from_file')
    e0 = env.choice('e0', [0, 1]) if n == 1 else 0
    step = env.choice('step', [1, 2]) if n == 1 else 40
    grid = [e0 + step * k for k in range(nodes)]
    yt, ye = env.reals('yt', nodes), env.reals('ye', nodes)
    ex = {k: env.real(k) for k in ('extrapolate_grad_true', 'extrapolate_const_true', 'extrapolate_grad_elast', 'extrapolate_const_elast')}
    wrap = lambda v: env.array([v], 'f')
    d = dict(energy_eV=env.array([env.q(g) for g in grid], 'f'), sey_true=yt, sey_elast=ye, **{k: wrap(v) for k, v in ex.items()})
    if src == 'file':
        env.put_file('sey.mat', d)
        d = env.path('sey.mat')
    elif src == 'folder':
        env.put_file(os.path.join(os.path.dirname(M.__file__), 'sey_files', 'sey_in_folder.mat'), d)
        d = 'sey_in_folder.mat'
    m = M.SEY_model_from_file(d, scale, shift)
    E, ct, nel = impacts(env, n, env.q(e0), None if n == 1 else n - 1)
    if shift:
        for i in range(n): env.assume(E[i] / (1 + env.q(7, 10) * (1 - ct[i])) >= e0)

    def look(y, e, g, c):
        acc = c + g * e
        for k in range(nodes - 2, -1, -1):
            t = (e - grid[k]) / step
            acc = env.If(e <= grid[k + 1], y[k] + t * (y[k + 1] - y[k]), acc)
        return acc
    cut = lambda v: env.If(v < env.q(1e-10), env.q(0), v)
    total, frac = m.SEY_values(E, ct)
    out = m.SEY_process(nel, E, ct, None)
    u = us(env)
    for i in range(n):
        e = E[i] / (1 + env.q(7, 10) * (1 - ct[i])) if shift else E[i]
        t = look(yt, e, ex['extrapolate_grad_true'], ex['extrapolate_const_true'])
        if scale: t = t * env.np.exp(env.q(1, 2) * (1 - ct[i]))
        r = look(ye, E[i], ex['extrapolate_grad_elast'], ex['extrapolate_const_elast'])
        t, r = cut(t), cut(r)
        env.ge(total[i], 0, 'tabulated yield is not negative')
        env.eq(total[i], t + r, 'tabulated yield interpolates or extrapolates its table', env.q(1, 10**9))
        env.eq(frac[i] * (t + r), r, 'tabulated elastic fraction', env.q(1, 10**9))
        env.check(env.And(frac[i] >= 0, frac[i] <= 1), 'elastic fraction is in [0, 1]')
        env.eq(out[0][i], nel[i] * total[i], 'emitted charge is impinging charge times yield')
        env.check(env.Iff(out[1][i], u[i] < frac[i]), 'elastic exactly with the elastic fraction as probability')


@harness('C07', [dict(kind='uneven'), dict(kind='missing')])
def table_rejected(env, kind):
    M = env.mod('sec_emission_model_from_file')
    one = lambda v: env.array([v], 'f')
    if kind == 'missing':
        env.check(env.raises(ValueError, M.SEY_model_from_file, env.path('nothere.mat'), True, True), 'a missing table is rejected')
        return
    a = env.real('a', slo=1, shi=2)
    env.assume(abs(a - env.q(3, 2)) > env.q(1, 100))
    d = dict(energy_eV=env.array([env.q(0) + 1, a, env.q(2)], 'f'), sey_true=env.reals('yt', 3), sey_elast=env.reals('ye', 3),
             **{k: one(env.q(0)) for k in ('extrapolate_grad_true', 'extrapolate_const_true', 'extrapolate_grad_elast', 'extrapolate_const_elast')})
    env.check(env.raises(ValueError, M.SEY_model_from_file, d, True, True), 'a table with unequal steps is rejected')


FP = dict(use_modified_sigmaE=False, use_ECLOUD_theta0_dependence=False, use_ECLOUD_energy=True, conserve_energy=False, choice='poisson', M_cut=10,
          exclude_rediffused=False, sigmaE=2.)
FPK = ('p1EInf', 'p1Ehat', 'eEHat', 'w', 'p', 'e1', 'e2', 'p1RInf', 'eR', 'r', 'q', 'r1', 'r2', 'deltaTSHat', 'eHat0', 's', 't1', 't2', 't3', 't4')


FPS = dict(p1EInf=.02, p1Ehat=.5, eEHat=1, w=50, e1=.25, p1RInf=.125, eR=.0625, r1=.25, deltaTSHat=1.5, eHat0=250, t1=.75, t3=.75)


@harness('C07', [dict(n=1, ecl=e, excl=x, scale=True, shift=True, sym='') for e in (False, True) for x in (False, True)] + [dict(n=1, ecl=False, excl=False, scale=True, shift=True, sym='er'), dict(n=1, ecl=False, excl=False, scale=True, shift=True, sym='t'), dict(n=1, ecl=True, excl=False, scale=True, shift=True), dict(n=1, ecl=False, excl=True, scale=False, shift=False)],
         [dict(n=n, ecl=a, excl=b, scale=c, shift=d, sym=s) for s, n in (('er', 1), ('t', 1), ('', 2)) for a in (True, False) for b in (True, False) for c in (True, False) for d in (True, False)])
def furman_pivi(env, n, ecl, excl, scale, shift, sym='ert'):
    M = env.mod('sec_emission_model_furman_pivi')
    # exponents are given numbers (all different where they could be confused)
    num = dict(p=env.q(2), r=env.q(1), s=env.q(3, 2), e2=env.q(1), r2=env.q(2), t2=env.q(3), t4=env.q(2))
    group = lambda k: 't' if k in ('deltaTSHat', 'eHat0', 't1', 't3') else 'er'
    P = {k: num[k] if k in num else env.real('fp_' + k, slo=0) if group(k) in sym else env.q(FPS.get(k, .5)) for k in FPK}
    env.assume(P['p1Ehat'] >= P['p1EInf'])
    surf = dict(FP, use_ECLOUD_theta0_dependence=ecl, exclude_rediffused=excl, p_n=None, eps_n=None, **P)
    m = M.SEY_model_furman_pivi(surf, flag_costheta_delta_scale=scale, flag_costheta_Emax_shift=shift)
    E, ct, nel = impacts(env, n)
    for i in range(n): env.assume(env.Or(ct[i] > 0))
    np = env.np
    de, dr, dt = [], [], []
    for i in range(n):
        e, c = E[i], ct[i]
        a = P['p1EInf'] + (P['p1Ehat'] - P['p1EInf']) * np.exp(-(abs(e - P['eEHat']) / P['w'])**P['p'] / P['p'])
        if scale and not ecl: a = a * (1 + P['e1'] * (1 - c**P['e2']))
        b = P['p1RInf'] * (1 - np.exp(-(e / P['eR'])**P['r']))
        if scale: b = b * (1 + P['r1'] * (1 - c**P['r2']))
        t3, t4 = (env.q(7, 10), env.q(1)) if ecl else (P['t3'], P['t4'])
        eh = P['eHat0'] * (1 + t3 * (1 - c**t4)) if shift else P['eHat0']
        x = e / eh
        t = P['deltaTSHat'] * P['s'] * x / (P['s'] - 1 + x**P['s'])
        if scale: t = t * (np.exp(env.q(1, 2) * (1 - c)) if ecl else 1 + P['t1'] * (1 - c**P['t2']))
        de.append(a); dr.append(b); dt.append(t)
    ok = env.And(*[de[i] + dr[i] < 1 for i in range(n)])
    rejected = env.raises(ValueError, m.yield_fun_furman_pivi, E, ct)
    env.check(env.Iff(rejected, env.Not(ok)), 'parameters whose elastic and rediffused yields exceed one are rejected')
    if rejected: return
    fb, fr, ft, e, r, t = m.SEY_process(E, ct, None)
    u = us(env)
    for i in range(n):
        env.eq(e[i], de[i], 'elastic component'); env.ge(de[i], 0, 'elastic component is not negative')
        env.eq(t[i], dt[i], 'true secondary component'); env.ge(dt[i], 0, 'true secondary component is not negative')
        env.check(env.Iff(fb[i], u[i] <= de[i]) if excl else env.Implies(env.Not(u[i] == de[i]), env.Iff(fb[i], u[i] < de[i])), 'elastic with the elastic component as probability')
        if not excl:
            env.eq(r[i], dr[i], 'rediffused component'); env.ge(dr[i], 0, 'rediffused component is not negative')
            env.check(env.Iff(ft[i], u[i] > de[i] + dr[i]), 'true secondary otherwise')
            env.check(env.Iff(fr[i], env.Not(env.Or(fb[i], ft[i]))), 'exactly one kind of event')
        else:
            env.check(env.Iff(ft[i], env.Not(fb[i])), 'exactly one kind of event')
