from symx.harness import harness
from .common import *

FUNCTIONS = ['MP_system.MP_system.clean_small_MPs', 'set_nel_mp_ref', 'add_new_MPs', 'add_from_file', 'extract_dict', 'init_from_dict',
             'add_uniform_MP_distrib', 'add_uniform_ele_density', 'get_positions']
BOUNDS = ['storage for up to 5 macroparticles (quick) / 6 (thorough); every stored value, threshold and draw an arbitrary real']
ASSUMPTIONS = ['Chamber contract in this property: a rectangle (C04 decides the real chambers). Rejection loops are explored up to 2 rejected draws.']


@harness('C01', [dict(n=n, nmax=5, lifetime=l) for n, l in ((0, True), (1, True), (2, False), (3, True), (4, True))],
         [dict(n=n, nmax=6, lifetime=l) for n in range(7) for l in (True, False)])
def clean(env, n, nmax, lifetime):
    ref0 = env.real('ref0', slo=0)
    split = env.real('split', slo=0)
    cl = env.real('clean', 0)
    mp = make_mp(env, nmax, lifetime, ref0, split, cl)
    fill(env, mp, n, lifetime=lifetime)
    ref = env.real('ref', slo=0)
    mp.set_nel_mp_ref(ref)
    env.eq(mp.nel_mp_split, split * ref, 'split threshold follows the reference size')
    env.eq(mp.nel_mp_cl_th, cl * ref, 'clean threshold follows the reference size')
    th = cl * ref
    before, fs = snap(mp, lifetime)
    mp.clean_small_MPs()
    after, fs = snap(mp, lifetime)
    want = [p for p in before if bool(p[6] >= th)]
    env.check(len(after) == len(want), 'exactly the macroparticles below threshold are removed')
    env.check(mp.N_mp == len(want), 'count equals survivors')
    for a, b in zip(after, want):
        eq_mp(env, a, b, fs, 'survivor keeps its own data in order')
    no_stale_charge(env, mp)
    r = ref0 if not want else ref
    env.eq(mp.nel_mp_ref, r, 'reference size after cleaning')
    env.eq(mp.nel_mp_split, split * r, 'split threshold after cleaning')
    env.eq(mp.nel_mp_cl_th, cl * r, 'clean threshold after cleaning')
    p = mp.get_positions()
    env.check(len(p.x_mp) == len(after), 'positions list every macroparticle')
    for i, a in enumerate(after):
        env.eq(p.x_mp[i], a[0], 'positions x'); env.eq(p.y_mp[i], a[1], 'positions y'); env.eq(p.z_mp[i], a[2], 'positions z')
    env.observe('nel', mp.nel_mp)
    env.observe('x', mp.x_mp)


@harness('C01', [dict(n=0, k=2, nmax=5, lifetime=True), dict(n=2, k=1, nmax=5, lifetime=True), dict(n=2, k=3, nmax=5, lifetime=False)],
         [dict(n=n, k=k, nmax=6, lifetime=l) for n in (0, 1, 2, 3) for k in (0, 1, 2, 3) for l in (True, False)])
def add_new(env, n, k, nmax, lifetime):
    mp = make_mp(env, nmax, lifetime)
    fill(env, mp, n, lifetime=lifetime)
    before, fs = snap(mp, lifetime)
    cols = [env.reals('new_' + f, k) for f in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz', 't')]
    mp.add_new_MPs(k, *cols)
    after, fs = snap(mp, lifetime)
    env.check(len(after) == n + k, 'count grows by the number added')
    for a, b in zip(after, before):
        eq_mp(env, a, b, fs, 'existing macroparticle untouched')
    order = [1, 2, 3, 4, 5, 6, 0] + ([7] if lifetime else [])
    for i in range(k):
        eq_mp(env, after[n + i], tuple(cols[c][i] for c in order), fs, 'new macroparticle has exactly the given data')
    no_stale_charge(env, mp)


@harness('C01', [dict(n=1, k=2, nmax=4, lifetime=True, src='dict', give_t=True), dict(n=2, k=1, nmax=4, lifetime=True, src='dict', give_t=False),
                 dict(n=1, k=3, nmax=4, lifetime=True, src='file', give_t=True), dict(n=1, k=1, nmax=4, lifetime=False, src='file', give_t=True)],
         [dict(n=n, k=k, nmax=5, lifetime=l, src=s, give_t=g) for n in (0, 1, 2) for k in (1, 2, 3) for l in (True, False) for s in ('dict', 'file') for g in (True, False)])
def add_saved(env, n, k, nmax, lifetime, src, give_t):
    mp = make_mp(env, nmax, lifetime)
    fill(env, mp, n, lifetime=lifetime)
    before, fs = snap(mp, lifetime)
    d = {f: env.reals('new_' + f, k) for f in FIELDS}
    d['N_mp'] = k
    if give_t: d['t_last_impact'] = env.reals('new_t', k)
    if src == 'file':
        env.put_file('mps.mat', d)
        mp.add_from_file(env.path('mps.mat'))
    else:
        mp.add_from_file(d)
    after, fs = snap(mp, lifetime)
    env.check(len(after) == n + k, 'count grows by the number in the saved state')
    for a, b in zip(after, before):
        eq_mp(env, a, b, fs, 'existing macroparticle untouched')
    for i in range(k):
        w = tuple(d[f][i] for f in FIELDS) + (((d['t_last_impact'][i] if give_t else -1),) if lifetime else ())
        eq_mp(env, after[n + i], w, fs, 'macroparticle from the saved state has exactly the saved data')
    no_stale_charge(env, mp)


@harness('C01', [dict(n=2, m=4, nmax=5, lifetime=True), dict(n=3, m=1, nmax=5, lifetime=True), dict(n=0, m=2, nmax=4, lifetime=False), dict(n=1, m=3, nmax=4, lifetime=False)],
         [dict(n=n, m=m, nmax=5, lifetime=l) for n in range(5) for m in range(6) for l in (True, False)])
def roundtrip(env, n, m, nmax, lifetime):
    """export n macroparticles, let the storage hold m others, re-initialise from the export"""
    a = make_mp(env, nmax, lifetime)
    fill(env, a, n, lifetime=lifetime)
    want, fs = snap(a, lifetime)
    d = a.extract_dict()
    fill(env, a, m, pre='b_', lifetime=lifetime)     # whatever happened in between
    a.init_from_dict(d)
    got, fs = snap(a, lifetime)
    env.check(len(got) == n, 'same number of macroparticles')
    for g, w in zip(got, want):
        eq_mp(env, g, w, fs, 'macroparticle reproduced')
    no_stale_charge(env, a, 'no charge of the previous content remains')


@harness('C01', [dict(n=1, nnew=2, nmax=5, lifetime=True, lims=False), dict(n=0, nnew=1, nmax=4, lifetime=True, lims=True)],
         [dict(n=n, nnew=k, nmax=6, lifetime=l, lims=x) for n in (0, 2) for k in (1, 2) for l in (True, False) for x in (True, False)])
def uniform_distrib(env, n, nnew, nmax, lifetime, lims):
    env.limit_draws(1 + 2 * nnew + 4 + 3)
    ref = env.real('ref', slo=0)
    X = env.real('xa', slo=0); Y = env.real('ya', slo=0)
    ch = BoxChamb(X, Y)
    mp = make_mp(env, nmax, lifetime, 1., chamb=BoxChamb(1., 1.))
    mp.chamb = ch
    mp.set_nel_mp_ref(ref)
    fill(env, mp, n, lifetime=lifetime)
    before, fs = snap(mp, lifetime)
    DNel = env.real('DNel', 0)
    env.assume(DNel <= nnew * ref)
    E0 = env.real('E', 0)
    if lims:
        lim = [env.real('xmax'), env.real('xmin'), env.real('ymax'), env.real('ymin')]
        env.assume(lim[0] > lim[1]); env.assume(lim[2] > lim[3])
        env.assume(env.And(lim[0] <= X, lim[1] >= -X, lim[2] <= Y, lim[3] >= -Y))
    else:
        lim = [None] * 4
    mp.add_uniform_MP_distrib(DNel, E0, *lim)
    check_uniform(env, mp, before, fs, n, DNel / ref, lim, X, Y, ref, E0, lifetime, exact=True)


def check_uniform(env, mp, before, fs, n, ideal, lim, X, Y, ref, E0, lifetime, exact):
    after, fs = snap(mp, lifetime)
    k = len(after) - n
    env.check(k >= 0, 'none lost')
    for a, b in zip(after, before):
        eq_mp(env, a, b, fs, 'existing macroparticle untouched')
    if exact:
        env.check(env.And(k > ideal - 1, k < ideal + 1), 'number of new macroparticles is the charge over the reference size, rounded down or up')
    else:
        env.check(k < ideal + 1, 'at most the charge over the reference size, rounded up')
    for i in range(n, n + k):
        x, y, z, vx, vy, vz, nel = after[i][:7]
        env.check(env.And(abs(x) < X, abs(y) < Y), 'new macroparticle inside the chamber')
        if lim[0] is not None:
            env.check(env.And(x <= lim[0], x >= lim[1], y <= lim[2], y >= lim[3]), 'new macroparticle inside the requested limits')
        env.eq(z, 0, 'z of new macroparticle')
        env.eq(nel, ref, 'new macroparticle has the reference size')
        v2 = 2 * E0 / 3 / 4
        env.check(env.And(vx * vx <= v2, vy * vy <= v2, vz * vz <= v2), 'velocity components within the initial energy')
        if lifetime:
            env.eq(after[i][7], -1, 'new macroparticle marked as never having hit the wall')
    no_stale_charge(env, mp)


@harness('C01', [dict(n=1, nnew=2, nmax=5, lifetime=True)],
         [dict(n=n, nnew=k, nmax=6, lifetime=l) for n in (0, 2) for k in (1, 2) for l in (True, False)])
def uniform_density(env, n, nnew, nmax, lifetime):
    ref = env.real('ref', slo=0)
    X = env.real('xa', slo=0); Y = env.real('ya', slo=0)
    mp = make_mp(env, nmax, lifetime, 1., chamb=BoxChamb(1., 1.))
    mp.chamb = BoxChamb(X, Y)
    mp.set_nel_mp_ref(ref)
    fill(env, mp, n, lifetime=lifetime)
    before, fs = snap(mp, lifetime)
    dens = env.real('dens', 0)
    w = env.real('w', slo=0); h = env.real('h', slo=0); x0 = env.real('x0'); y0 = env.real('y0')
    N = dens * w * h
    env.assume(N <= nnew * ref)
    E0 = env.real('E', 0)
    lim = [x0 + w, x0, y0 + h, y0]
    mp.add_uniform_ele_density(dens, E0, *lim)
    check_uniform(env, mp, before, fs, n, N / ref, lim, X, Y, ref, E0, lifetime, exact=False)
