from symx.harness import harness
from .common import *

FUNCTIONS = ['MP_system.MP_system.perform_soft_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration', 'clean_small_MPs', 'set_nel_mp_ref']
BOUNDS = ['up to 4 stored macroparticles (quick) / 5 (thorough), limit 0..5, target 1..4; all charges positive, every other value arbitrary except the z position, which labels the macroparticle']
ASSUMPTIONS = ['Macroparticle charges are positive and storage behind the last macroparticle holds no charge (established by cleaning).']


def check_soft(env, before, after, fs, mp, tot, ref0, target, split, cl):
    """after is an ordered subset of before with one common charge factor and the same total"""
    k = len(after)
    env.check(k <= len(before), 'no macroparticle is created')
    env.eq(env.sum([a[6] for a in after]), tot, 'total charge is conserved', 0)
    # the z position is a label: it tells which macroparticle each survivor was
    ids = []
    for p in after:
        m = [j for j, q in enumerate(before) if bool(p[2] == q[2])]
        env.check(len(m) == 1 and (not ids or m[0] > ids[-1]), 'survivors are a subset in the original order')
        ids += m
    kept = env.sum([before[j][6] for j in ids])
    for p, j in zip(after, ids):
        for f, u, v in zip(fs, p, before[j]):
            if f != 'nel_mp': env.eq(u, v, 'survivors keep their %s' % f)
        env.eq(p[6] * kept, before[j][6] * tot, 'one common factor for all charges', 0)
    new = tot / target
    env.eq(mp.nel_mp_ref, env.If(new < ref0, ref0, new), 'reference size after regeneration', 0)
    env.eq(mp.nel_mp_split, split * mp.nel_mp_ref, 'split threshold scaled along', 0)
    env.eq(mp.nel_mp_cl_th, cl * mp.nel_mp_ref, 'clean threshold scaled along', 0)
    no_stale_charge(env, mp)


def setup(env, n, nmax, lifetime, **kw):
    ref0 = env.real('ref0', slo=0); split = env.real('split', slo=0); cl = env.real('clean', 0)
    mp = make_mp(env, nmax, lifetime, ref0, split, cl, **kw)
    fill(env, mp, n, lifetime=lifetime)
    for i in range(n):
        env.assume(mp.nel_mp[i] > 0)
        mp.z_mp[i] = env.q(i + 1, 2)
    ref = env.real('ref', slo=0)
    mp.set_nel_mp_ref(ref)
    return mp, ref0, split, cl, ref


@harness('C02', [dict(n=n, nmax=5, lifetime=l) for n, l in ((1, True), (2, False), (3, True), (4, False))],
         [dict(n=n, nmax=6, lifetime=l) for n in range(6) for l in (True, False)])
def soft(env, n, nmax, lifetime):
    limit = env.choice('limit', range(0, 6)); target = env.choice('target', range(1, 5))
    env.assume(target <= limit)
    mp, ref0, split, cl, ref = setup(env, n, nmax, lifetime, N_mp_soft_regen=limit, N_mp_after_soft_regen=target)
    before, fs = snap(mp, lifetime)
    tot = env.sum([p[6] for p in before])
    mp.check_for_soft_regeneration()
    after, fs = snap(mp, lifetime)
    if n <= limit:
        unchanged(env, mp, before, after, fs, ref, split, cl)
    else:
        check_soft(env, before, after, fs, mp, tot, ref0, target, split, cl)


def unchanged(env, mp, before, after, fs, ref, split, cl):
    env.check(len(after) == len(before), 'nothing happens below the limit')
    for a, b in zip(after, before):
        eq_mp(env, a, b, fs, 'nothing happens below the limit')
    env.eq(mp.nel_mp_ref, ref, 'reference size unchanged below the limit')
    env.eq(mp.nel_mp_split, split * ref, 'split threshold unchanged below the limit')
    env.eq(mp.nel_mp_cl_th, cl * ref, 'clean threshold unchanged below the limit')


@harness('C02', [dict(n=n, nmax=5, lifetime=l) for n, l in ((2, True), (3, False), (4, True))],
         [dict(n=n, nmax=6, lifetime=l) for n in range(5) for l in (True, False)])
def asynchronous(env, n, nmax, lifetime):
    limit = env.choice('limit', range(0, 4)); target = env.choice('target', range(1, 4))
    env.assume(target <= limit)
    mp, ref0, split, cl, ref = setup(env, n, nmax, lifetime, N_mp_async_regen=limit, N_mp_after_async_regen=target)
    before, fs = snap(mp, lifetime)
    mp.check_for_async_regeneration()
    after, fs = snap(mp, lifetime)
    if n <= limit:
        return unchanged(env, mp, before, after, fs, ref, split, cl)
    kept = [p for p in before if bool(p[6] >= cl * ref)]
    if len(kept) <= limit:
        r = ref if kept else ref0
        return unchanged(env, mp, kept, after, fs, r, split, cl)
    check_soft(env, kept, after, fs, mp, env.sum([p[6] for p in kept]), ref0, target, split, cl)


@harness('C02', [dict(n=3)])
def disabled(env, n):
    """neither variant does anything unless both of its parameters are given"""
    kw = env.choice('kw', [dict(), dict(N_mp_soft_regen=1), dict(N_mp_after_soft_regen=1), dict(N_mp_async_regen=1), dict(N_mp_after_async_regen=1)])
    mp, ref0, split, cl, ref = setup(env, n, n + 1, True, **kw)
    before, fs = snap(mp, True)
    mp.check_for_soft_regeneration()
    mp.check_for_async_regeneration()
    after, fs = snap(mp, True)
    unchanged(env, mp, before, after, fs, ref, split, cl)
