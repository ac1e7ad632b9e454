from symx.harness import harness
from .common import *

FUNCTIONS = ['MP_system.MP_system.check_for_regeneration', 'hist_for.compute_hist', 'MP_system.MP_system.set_nel_mp_ref']
BOUNDS = ['up to 3 macroparticles, 3 to 5 cells per coordinate; one or two phase-space coordinates of a macroparticle (thorough: of every one) and all draws arbitrary at fixed charges, or all charges, reference sizes and draws arbitrary at fixed coordinates (thorough: also one coordinate together with the charges)',
          'up to 3 macroparticles generated, rejection loop up to 1 rejected position']
ASSUMPTIONS = ['Chamber contract in this property: the rectangle |x|<1, |y|<1 (C04 decides the real chambers).']

DIMS = ('x_mp', 'y_mp', 'vx_mp', 'vy_mp', 'vz_mp')
FIX = [dict(x_mp=0.25, y_mp=-0.5, vx_mp=2., vy_mp=-1., vz_mp=0.5), dict(x_mp=-0.5, y_mp=0.75, vx_mp=-1., vy_mp=2., vz_mp=-2.),
       dict(x_mp=0.5, y_mp=0., vx_mp=0., vy_mp=1., vz_mp=1.)]
CELLS = dict(x_mp=3, y_mp=5, vx_mp=3, vy_mp=5, vz_mp=3)


def build(env, n, nmax, sym, cells, nsym, free=False, q=True, **kw):
    cells = dict(CELLS, **cells)
    ref0 = env.real('ref0', slo=0) if q else 0.5
    mp = make_mp(env, nmax, True, ref0, 1.5, 0.25, Nx_reg=cells['x_mp'], Ny_reg=cells['y_mp'], Nvx_reg=cells['vx_mp'], Nvy_reg=cells['vy_mp'], Nvz_reg=cells['vz_mp'], **kw)
    for i in range(n):
        for f in DIMS:
            a = getattr(mp, f)
            if f in sym and i < nsym:
                if f[0] != 'v': a[i] = env.real('%s%d' % (f, i), slo=-1, shi=1)
                elif free: a[i] = env.real('%s%d' % (f, i))
                else: a[i] = env.real('%s%d' % (f, i), -2, 2)
            else:
                a[i] = FIX[i % 3][f]
        mp.z_mp[i] = env.real('z%d' % i)
        mp.nel_mp[i] = env.real('nel%d' % i, slo=0) if q else [1.25, 0.5, 1.][i]
        mp.t_last_impact[i] = env.real('t%d' % i)
    for i in range(n, nmax):
        for f in DIMS: getattr(mp, f)[i] = 3.
    mp.N_mp = n
    return mp, ref0, cells


def C(sym, nsym=1, n=2, cells={}, rej=0, free=False, q=False):
    return dict(n=n, sym=sym, cells=cells, nsym=nsym, rej=rej, free=free, q=q)


CFG = [C((d,)) for d in DIMS] + [C(('vz_mp',), free=True), C(('x_mp', 'vz_mp')), C(('y_mp', 'vx_mp')), C(('vy_mp', 'vz_mp')),
       C(('vx_mp',), cells=dict(vx_mp=4)), C(('x_mp',), cells=dict(x_mp=4)), C((), rej=2), C((), q=True)]


@harness('C03', CFG, CFG + [C((d,), 2) for d in DIMS] + [C((d,), 2, free=True) for d in DIMS[2:]] + [C((a, b)) for i, a in enumerate(DIMS) for b in DIMS[:i]] + [C((d,), 3, 3) for d in DIMS[2:]] + [C((d,), 1, q=True) for d in DIMS]
         + [C((d,), cells={d: c}) for d in DIMS for c in (2, 4, 5, 6, 8)] + [C(('y_mp',), rej=2)])
def regenerate(env, n, sym, cells, nsym, rej, free, q):
    cells_ = cells
    sym = tuple(sym)
    target = 2
    nmax = n + target + 3
    pos = rej
    env.limit_draws(n + (target + n) * 5 + rej)
    cut = env.real('cut', 0, shi=0.5) if sym == ('x_mp',) and not cells_ else 0.001
    box = BoxChamb(1., 1.)
    if not pos:
        box.is_outside = lambda x, y: (abs(x) >= 5.) | (abs(y) >= 5.)
    lim = 1 if pos else 5
    mp, ref0, cells = build(env, n, nmax, sym, cells, nsym, free, q, N_mp_regen=n - 1, N_mp_after_regen=target, regen_hist_cut=cut, Dx_hist_reg=0.5, chamb=box)
    tot = env.sum([mp.nel_mp[i] for i in range(n)])
    old = {f: [getattr(mp, f)[i] for i in range(n)] for f in DIMS}
    nel = [mp.nel_mp[i] for i in range(n)]
    mp.check_for_regeneration()
    ref = env.If(tot / target < ref0, ref0, tot / target)
    env.eq(mp.nel_mp_ref, ref, 'reference size after regeneration', 0)
    env.eq(mp.nel_mp_split, 1.5 * ref, 'split threshold scaled along', 0)
    env.eq(mp.nel_mp_cl_th, 0.25 * ref, 'clean threshold scaled along', 0)
    k = int(mp.N_mp)
    # histogram of the charge along x (weights of a cloud-in-cell deposit) and the range kept of it
    G = [-1.5, -1., -0.5, 0., 0.5, 1., 1.5]
    H = [env.sum([w * hat(env, (x - g) / 0.5) for x, w in zip(old['x_mp'], nel)]) for g in G]
    i_cut = 1
    while bool(env.sum(H[:i_cut]) + env.sum(H[len(G) - i_cut:]) < cut * tot):
        i_cut += 1
    xmax = env.q(len(G) - i_cut + 1, 2) - env.q(3, 2)
    kept = [i for i in range(n) if bool(abs(old['x_mp'][i]) <= xmax)]
    D = dict(x_mp=xmax * 2 / (cells['x_mp'] - 1), y_mp=env.q(2, cells['y_mp'] - 1))
    for f in DIMS[2:]:
        vm = 0
        for i in kept: vm = env.If(abs(old[f][i]) > vm, abs(old[f][i]), vm)
        vm = env.If(vm == 0, env.q(1, 100000), vm)
        D[f] = 2 * vm / (cells[f] - 1)
    # every generated macroparticle
    eps = 0 if env.symbolic else 1e-9
    idx = lambda f, v: v / D[f]
    near = []
    for j in range(k):
        env.eq(mp.nel_mp[j], ref, 'every macroparticle has the new reference size', 0)
        env.check(env.And(abs(mp.x_mp[j]) < lim, abs(mp.y_mp[j]) < lim), 'inside the chamber')
        env.check(env.Or(*[env.And(*[abs(getattr(mp, f)[j] - old[f][i]) <= D[f] * (1 + eps) for f in DIMS]) for i in kept]),
                  'generated macroparticle lies within one cell of a macroparticle that was there before')
    for j in range(len(mp.t_last_impact)):
        env.eq(mp.t_last_impact[j], -1, 'last-impact times are reset')
    no_stale_charge(env, mp)
    # cell by cell
    centre = {i: {f: cell(env, old[f][i] / D[f], cells[f]) * D[f] for f in DIMS} for i in kept}
    for i in kept:
        same = [env.And(*[close(env, centre[i][f], centre[l][f]) for f in DIMS]) for l in kept]
        q = env.sum([env.If(s, nel[l], 0) for s, l in zip(same, kept)])
        got = env.sum([env.If(env.And(*[abs(getattr(mp, f)[j] - centre[i][f]) <= D[f] * (0.5 + eps) for f in DIMS]), 1, 0) for j in range(k)])
        fl = env.floor(q / ref)
        env.check(got >= fl, 'a cell receives at least the integer part of its charge over the reference size')
    tot_kept = env.sum([nel[i] for i in kept])
    env.check(env.And(k * ref > tot_kept - len(kept) * ref, k * ref < tot_kept + len(kept) * ref), 'every cell is rounded down or up by less than one macroparticle')
    env.observe('n', k)
    env.observe('x', mp.x_mp[:k])


def close(env, a, b):
    return a == b if env.symbolic else abs(a - b) <= 1e-9 * (abs(a) + abs(b) + 1e-12)


def hat(env, u):
    return env.If(abs(u) >= 1, 0, 1 - abs(u))


def cell(env, u, N):
    """index of the cell centre nearest to u, of the N cells of an axis"""
    if env.symbolic:
        from symx.core import R
        r = R.of(u).rint()
    else:
        r = round(u)
    lo = 1 - -(-N // 2)
    hi = N - -(-N // 2)
    return env.If(r < lo, lo, env.If(r > hi, hi, r))


@harness('C03', [dict(n=2), dict(n=0)], [dict(n=0), dict(n=1), dict(n=2), dict(n=3)])
def trigger(env, n):
    """regeneration runs exactly under the documented condition"""
    env.limit_draws(30)
    up = env.choice('up', range(0, 4)); low = env.choice('low', range(0, 4))
    env.assume(low <= up)
    mp, ref0, cells = build(env, n, n + 6, (), {}, 0, False, False, N_mp_regen=up, N_mp_regen_low=low, N_mp_after_regen=2)
    ref = env.real('ref', slo=0) if n else ref0      # an emptied cloud is back at the initial reference size (C01)
    mp.set_nel_mp_ref(ref)
    before, fs = snap(mp)
    mp.check_for_regeneration()
    should = env.Or(n > up, env.And(n < low, ref > ref0))
    if bool(should):
        for j in range(len(mp.t_last_impact)):
            env.eq(mp.t_last_impact[j], -1, 'regeneration runs above the upper limit, and below the lower limit with an enlarged reference size')
    else:
        after, fs = snap(mp)
        env.check(len(after) == n, 'no regeneration between the limits')
        for a, b in zip(after, before):
            eq_mp(env, a, b, fs, 'no regeneration between the limits')
        env.eq(mp.nel_mp_ref, ref, 'reference size unchanged between the limits')
