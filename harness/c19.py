from symx.harness import harness
from .common import *

FUNCTIONS = ['Ionization_Process.__init__, generate, get_sigma, _interp', 'Cross_Ionization.__init__, generate, save_cross_ion_data, _extract_sigma, _init_new_mp_dict, _add_to_mp_dict', 'MP_system.add_new_MPs']
BOUNDS = ['1 to 3 projectiles per cloud, 1 or 2 projectile clouds, 1 or 2 processes each, up to 3 clouds', 'expected number of products per projectile below 2.5, any cross sections, sizes, positions and random draws', 'tables of 4 or 5 energies (linear or logarithmic), any cross-section values; energies arbitrary for linear tables, at a set of values for logarithmic ones']
ASSUMPTIONS = ['Target densities stay positive.', 'Step lengths, densities and speeds range over a set of values when the cross section is arbitrary.', 'Generation (in the dispatch harness) is replaced by its contract: arbitrary new macroparticles; the other harness decides it.']


def cloud(env, name, n, nmax, ref, mass, pre=''):
    mp = make_mp(env, nmax, lifetime=True, nel_ref0=ref, charge=env.q(-1), mass=mass)
    fill(env, mp, n, pre, tail=False, nel_lo=0)
    return Obj(name=name, MP_e=mp)


def table(env, energies, sigma):
    env.put_file('in/cs.mat', dict(energy_eV=env.array([env.q(*e) if isinstance(e, tuple) else env.q(e) for e in energies], 'f'), cross_section_cm2=env.array(sigma, 'f')))


def definitions(env, products, dens=2, E0=3, equally=False, extract=False):
    d = dict(target_density=env.q(dens), E_eV_init=env.q(E0), products=list(products), cross_section='cs.mat' if extract else 'cs', extract_sigma=extract)
    if equally: d['generate_equally'] = True
    return d


LIN = [0, 10, 20, 30]
G = [dict(n=1, products=['a', 'b']), dict(n=2, products=['a'], sym=False), dict(n=2, products=['b', 'a'], equally=True, sym=False), dict(n=1, products=['a', 'b'], equally=True)]


@harness('C19', G, G + [dict(n=n, products=p, equally=e, sym=s, extraction=x) for n in (1, 2, 3) for p in (['a'], ['b', 'a'], ['a', 'b', 'c']) for e in (False, True) for s in (True, False) for x in (False, True) if not (n == 3 and s) and not (len(p) == 3 and n == 3)])
def products(env, n, products, equally=False, sym=True, extraction=False):
    """number, position, size and velocity of the products of every projectile"""
    table(env, LIN, [env.q(1)] * 4)
    refs = dict(a=env.q(2), b=env.q(3), c=env.q(5))
    clouds = {k: Obj(name=k, MP_e=Obj(nel_mp_ref=r, mass=env.val(m * QE))) for (k, r), m in zip(refs.items(), (2, 8, 32))}
    CI = env.mod('cross_ionization')
    P = CI.Ionization_Process(env.path('in'), 'p', definitions(env, products, equally=equally, E0=6), clouds, env.q(7))
    Dt, v = env.q(1, 4), [env.q(k + 1) for k in range(n)]
    nel = env.reals('nel', n, 0, 9) if sym else [env.q(k + 2) for k in range(n)]
    sig = [env.choice('sigma%d' % i, [env.q(0), env.q(1, 3), env.q(1)]) for i in range(n)] if sym else env.reals('sigma', n, 0, 3)
    x, y, z = env.reals('x', n), env.reals('y', n), env.reals('z', n)
    seen = []
    def get_sigma(energy_eV_proj):
        seen.append(list(env.items(energy_eV_proj)))
        return env.array(sig, 'f')
    P.get_sigma = get_sigma
    arr = lambda l: env.array(l, 'f')
    area0, dens0 = env.q(7), env.q(2)
    DN = [sig[i] * dens0 * v[i] * Dt * nel[i] for i in range(n)]
    ref = {p: sum(refs[q] for q in products) / len(products) if equally else refs[p] for p in products}
    for d in DN: env.assume(d <= env.q(5, 2) * min(env.q(2), *[refs[p] for p in products]))
    mass = env.val(2 * QE)
    info, total = P.generate(Dt, clouds, mass, n, arr(nel), arr(x), arr(y), arr(z), arr(v), flag_generate=not extraction)
    env.eq(total, sum(DN), 'reported production is the sum over the projectiles')
    for i in range(n): env.near(seen[0][i], v[i] * v[i], 'the cross section is the one at the kinetic energy of the projectile', 1e-9)
    if extraction: env.eq(P.target_dens, dens0, 'a test does not consume the target'); env.eq(P.N_target, area0 * dens0, 'a test does not consume the target')
    else:
        env.le(abs(P.N_target - (area0 * dens0 - sum(DN))), env.q(1, 1000), 'the target loses what was produced')
        env.eq(P.target_dens * area0, P.N_target, 'density of the target')
    u = [w for k, w in env.drawn() if k == 'rand']
    env.check(sorted(info) == sorted(set(products)), 'one set of macroparticles per product')
    pos = 0
    counts = []
    for kp, p in enumerate(products):
        d = info[p]
        N = d['N_new_MPs']
        if kp == 0 or not equally:
            draws = u[pos:pos + n]; pos += n
            count = []
            for i in range(n):
                want = DN[i] / ref[p]
                lo = env.floor(want)
                count.append(lo + env.If(draws[i] < want - lo, 1, 0))
        counts.append(count)
        env.eq(N, sum(count), 'as many macroparticles as ionizations, rounded at random')
        for f in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz'): env.check(len(d[f + '_new_MPs']) == N, 'as many values as macroparticles')
        j = 0
        who = []
        for i in range(n):
            c = 0
            while bool(count[i] > c): c += 1; who.append(i)
        v0 = env.np.sqrt(2 * env.q(6) / 3 * QE / clouds[p].MP_e.mass)
        for j, i in enumerate(who):
            if j >= len(d['x_new_MPs']): break
            env.eq(d['nel_new_MPs'][j], ref[p], 'reference size of the product')
            env.check(env.And(d['x_new_MPs'][j] == x[i], d['y_new_MPs'][j] == y[i], d['z_new_MPs'][j] == z[i]), 'at the position of its projectile')
            for f in ('vx', 'vy', 'vz'): env.le(abs(d[f + '_new_MPs'][j]), v0 / 2 * (1 + env.q(1, 10**9)), 'starts with the configured energy at most')
        if len(who):
            k = 0
            m = len(who)
            w = u[pos:pos + 3 * m]; pos += 3 * m
            for c, f in enumerate(('vx', 'vy', 'vz')):
                for j in range(m):
                    if len(w) == 3 * m and j < len(d[f + '_new_MPs']): env.check(env.Or(*[abs(d[f + '_new_MPs'][j] - v0 * (q - env.q(1, 2))) <= abs(v0) * env.q(1, 10**9) for q in w]), 'velocities are drawn evenly around zero')


@harness('C19', [dict(log=False, k=k) for k in range(5)] + [dict(log=True, k=k) for k in range(5)], [dict(log=l, k=k, n=n) for l in (False, True) for k in range(5) for n in (1, 2)])
def sigma(env, log, k, n=1):
    """interpolation in the table"""
    grid = [10, 100, 1000, 10000] if log else [5, 10, 15, 20]
    s = [env.real('s%d' % i, 0, 9) for i in range(4)]
    table(env, grid, s)
    CI = env.mod('cross_ionization')
    P = CI.Ionization_Process(env.path('in'), 'p', definitions(env, ['a']), dict(a=0), env.q(7))
    env.check(bool(P.flag_log) == log, 'spacing of the table')
    rng = [(0, grid[0]), (grid[0], grid[1]), (grid[1], grid[2]), (grid[2], grid[3]), (grid[3], 10 * grid[3])]
    es = []
    for i in range(n):
        lo, hi = rng[(k + 2 * i) % 5]
        if log: e = env.choice('e%d' % i, [lo or 1, lo + (hi - lo) / env.q(4) if lo else env.q(9), hi])
        else: e = env.real('e%d' % i, lo, hi)
        es.append(env.q(e) if isinstance(e, int) else e)
    out = P.get_sigma(env.array(es, 'f'))
    env.check(len(out) == n, 'one cross section per projectile')
    for e, o in zip(es, out):
        o = o * 10**4
        if bool(e < grid[0]) or bool(e > grid[3]): env.eq(o, 0, 'no cross section outside the table'); continue
        j = max(i for i in range(4) if bool(e >= grid[i]))
        if j == 3: w = s[3]
        elif not log: w = s[j] + (s[j + 1] - s[j]) * (e - grid[j]) / (grid[j + 1] - grid[j])
        else: w = s[j] + (s[j + 1] - s[j]) * (env.np.log10(env.val(e)) - j - 1)
        env.le(abs(o - w), env.q(1, 10**6), 'interpolated between the nodes of the table')


@harness('C19', [dict()], [dict()])
def grids(env):
    """tables that are evenly spaced in neither way are refused, and unknown products too"""
    CI = env.mod('cross_ionization')
    which = env.choice('which', ['uneven', 'product', 'missing suffix'])
    table(env, [5, 10, 30, 31] if which == 'uneven' else LIN, [env.q(1)] * 4)
    make = lambda: CI.Ionization_Process(env.path('in'), 'p', definitions(env, ['zz'] if which == 'product' else ['a']), dict(a=0), env.q(7))
    if which == 'uneven': env.check(env.raises(ValueError, make), 'uneven tables are refused')
    elif which == 'product': env.check(env.raises(AssertionError, make), 'products that are no clouds are refused')
    else: env.eq(make().energy_eV_max, 30, 'the table is found')


def fake(env, name, products, src):
    """a process by contract: arbitrary new macroparticles, listed per call"""
    P = Obj(name=name, products=list(products), calls=[])
    def generate(Dt=None, cloud_dict=None, mass_proj=None, N_proj=None, nel_mp_proj=None, x_proj=None, y_proj=None, z_proj=None, v_mp_proj=None, flag_generate=True):
        k = len(P.calls)
        info = {}
        for p in products:
            m = env.choice('new_%s_%s_%d' % (name, p, k), [0, 1, 2] if k == 0 else [1])
            info[p] = dict(N_new_MPs=m)
            for f in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz'):
                info[p][f + '_new_MPs'] = env.array([env.real('%s_%s_%s_%d_%d' % (name, p, f, k, i), 0) for i in range(m)], 'f') if m else env.np.array([])
        dn = env.real('DN_%s_%d' % (name, k), 0)
        P.calls.append(dict(Dt=Dt, mass=mass_proj, N=N_proj, nel=list(env.items(nel_mp_proj)), x=list(env.items(x_proj)), y=list(env.items(y_proj)), z=list(env.items(z_proj)), v=list(env.items(v_mp_proj)), info=info, DN=dn, clouds=cloud_dict))
        return info, dn
    P.generate = generate
    return P


D = [dict(procs=[('a', ['a', 'b'])], steps=4), dict(procs=[('a', ['b']), ('a', ['b', 'a'])], na=2), dict(procs=[('a', ['b']), ('b', ['c'])], na=1, nb=1), dict(procs=[('a', ['a'])], na=0)]


@harness('C19', D, D + [dict(procs=[('a', ['a', 'b']), ('b', ['a', 'c']), ('a', ['c'])], na=2, nb=1, steps=1), dict(procs=[('c', ['a', 'b', 'c'])], na=1, nb=1, nc=2, steps=3)])
def dispatch(env, procs, na=1, nb=0, nc=0, steps=2):
    """every product goes to its cloud, and what is recorded is what was generated since the last record"""
    CI = env.mod('cross_ionization')
    X = object.__new__(CI.Cross_Ionization)
    clouds = [cloud(env, c, n, 12, env.q(2), env.val(m), c) for c, n, m in zip('abc', (na, nb, nc), (1, 2, 3))]
    X.projectiles_dict, X.products = {}, []
    for k, (proj, prods) in enumerate(procs):
        X.projectiles_dict.setdefault(proj, []).append(fake(env, 'p%d' % k, prods, None))
        for p in prods:
            if p not in X.products: X.products.append(p)
    z = lambda: {c.name: 0. for c in clouds}
    X.nel_cross_ion, X.N_mp_cross_ion, X.DN_proj = z(), z(), z()
    acc = {c.name: [0, 0, 0] for c in clouds}
    for s in range(steps):
        for i, c in enumerate(clouds):
            for j in range(c.MP_e.N_mp):
                if s == 0: c.MP_e.vx_mp[j], c.MP_e.vy_mp[j], c.MP_e.vz_mp[j] = [env.q(q) for q in ((2, 3, 6), (-1, 2, -2), (0, 0, -5))[(i + j) % 3]]
        before = {c.name: snap(c.MP_e)[0] for c in clouds}
        mark = {p.name: len(p.calls) for ps in X.projectiles_dict.values() for p in ps}
        Dt = env.real('Dt%d' % s, slo=0)
        X.generate(Dt, clouds)
        want = {c.name: [] for c in clouds}
        for proj, ps in X.projectiles_dict.items():
            c = [q for q in clouds if q.name == proj][0]
            for p in ps:
                new = p.calls[mark[p.name]:]
                env.check(len(new) == (1 if len(before[proj]) else 0), 'every process acts once per step on the macroparticles of its cloud')
                for q in new:
                    env.eq(q['Dt'], Dt, 'length of the step'); env.eq(q['mass'], c.MP_e.mass, 'mass of the projectiles')
                    env.check(len(q['nel']) == len(before[proj]) == q['N'] == len(q['x']) == len(q['v']), 'all macroparticles of the cloud are projectiles, and not those generated in this step')
                    for i, b in enumerate(before[proj]):
                        b = dict(zip(FIELDS, b))
                        env.check(env.And(q['nel'][i] == b['nel_mp'], q['x'][i] == b['x_mp'], q['y'][i] == b['y_mp'], q['z'][i] == b['z_mp']), 'projectiles of the cloud')
                        v2 = sum(b[f] * b[f] for f in ('vx_mp', 'vy_mp', 'vz_mp'))
                        env.near(q['v'][i] * q['v'][i], v2, 'speed of the projectile', 1e-9); env.ge(q['v'][i], 0, 'speed of the projectile')
                    for prod, d in q['info'].items():
                        for i in range(d['N_new_MPs']): want[prod].append([d[f[:-3] + '_new_MPs'][i] for f in FIELDS])
                        acc[prod][2] = acc[prod][2] + q['DN']
        for c in clouds:
            now = snap(c.MP_e)[0]
            env.check(len(now) == len(before[c.name]) + len(want[c.name]), 'each cloud grows by its products')
            for a, b in zip(before[c.name], now): env.check(env.And(*[p == q for p, q in zip(a, b)]), 'what was there is not touched')
            new = now[len(before[c.name]):]
            equal = lambda a, b: env.And(*[p == q for p, q in zip(a, b)])
            for w in want[c.name]: env.check(env.Or(*[equal(w, b) for b in new]), 'products as generated')
            for b in new:
                env.check(env.Or(*[equal(w, b) for w in want[c.name]]), 'products as generated')
                env.eq(b[len(FIELDS)], -1, 'products have not hit the wall yet')
            acc[c.name][0] = acc[c.name][0] + sum(w[6] for w in want[c.name]); acc[c.name][1] += len(want[c.name])
        if s == steps - 1 or (s != 0 if steps == 2 else s == 1 and steps == 4):
            for c in clouds:
                r = X.save_cross_ion_data(c.name)
                for a, b, l in zip(r, acc[c.name], ('charge', 'macroparticles', 'production')): env.eq(a, b, 'recorded %s is what was generated since the last record' % l)
                acc[c.name] = [0, 0, 0]


W = [dict(n=1), dict(n=2), dict(n=1, equally=True), dict(n=1, extract=True, hi=8000)]


@harness('C19', W, W + [dict(n=3), dict(n=2, equally=True), dict(n=1, two=True)])
def whole(env, n, equally=False, two=False, extract=False, hi=None):
    """from the definitions to the clouds, with the real processes"""
    CI = env.mod('cross_ionization')
    s = [env.real('s%d' % i, 0, hi or env.q(1, 2)) for i in range(4)]
    table(env, LIN, s)
    M = env.val(2 * QE)
    clouds = [cloud(env, 'e', n, 14, env.q(2), M, 'e'), cloud(env, 'gas', 0, 14, env.q(4), env.val(8 * QE), 'g')]
    d = dict(e=dict(p=definitions(env, ['gas', 'e'], equally=equally, extract=extract)))
    if two: d['e']['q'] = definitions(env, ['gas'])
    X = CI.Cross_Ionization(env.path('in'), d, clouds, env.q(7), n_rep_test=2, Dt_test=1., energy_eV_test=env.array([env.q(4)], 'f'))
    for c in clouds: env.check(all(v == 0 for v in X.save_cross_ion_data(c.name)), 'nothing is recorded before the first step')
    mp = clouds[0].MP_e
    if extract:
        f = env.get_file('in/cs_extracted.mat')
        env.check(f is not None, 'extracted cross sections are saved')
        st = s[0] + (s[1] - s[0]) * env.q(4, 10)
        env.le(abs(f['sigma_cm2_interp'] - st), env.q(1, 10**6), 'extracted cross section')
        # two test particles of the reference size 2 and speed 2
        for c in ('gas', 'e'): env.le(abs(f['sigma_cm2_sampled_' + c] - st) * 2 * 2 * 4 / 10**4, (8 if c == 'gas' else 4) * (1 + env.q(1, 10**6)), 'sampled cross section, within rounding')
        env.check(mp.N_mp == n and clouds[1].MP_e.N_mp == 0, 'the test adds no macroparticles')
        env.eq(X.projectiles_dict['e'][0].target_dens, 2, 'the test does not consume the target')
    if extract: return
    sp = []
    for j in range(n):
        mp.vx_mp[j], mp.vy_mp[j], mp.vz_mp[j] = [env.q(q) for q in ((1, 2, 2), (0, 0, 4), (3, 4, 0))[j]]
        sp.append((3, 4, 5)[j]); mp.nel_mp[j] = env.q(300)
    before = snap(mp)[0]
    X.generate(env.q(10), clouds)
    exp = []
    for v in sp:
        e = v * v
        sg = s[e // 10] + (s[e // 10 + 1] - s[e // 10]) * env.q(e % 10, 10)
        exp.append(sg / 10**4 * 2 * v * 10 * 300)
    for c in clouds:
        ref = 3 if equally else c.MP_e.nel_mp_ref
        lo = 2 if two and c.name == 'gas' else 1
        k0 = n if c.name == 'e' else 0
        new = c.MP_e.N_mp - k0
        env.check(new >= 0 and all(env.finite(c.MP_e.x_mp[k0 + i]) for i in range(new)), 'products')
        t = sum(exp)
        r = X.save_cross_ion_data(c.name)
        env.near(r[2], lo * t, 'recorded production', 1e-6)
        env.eq(r[0], sum(c.MP_e.nel_mp[k0 + i] for i in range(new)), 'recorded charge'); env.eq(r[1], new, 'recorded macroparticles')
        if not two:
            env.le(abs(new * ref - t), ref * n * (1 + env.q(1, 10**6)), 'as many products as ionizations, within rounding')
            for i in range(n):
                at = sum(env.If(env.And(c.MP_e.x_mp[k0 + j] == before[i][0], c.MP_e.y_mp[k0 + j] == before[i][1]), 1, 0) for j in range(new))
                env.ge(at * ref, exp[i] - ref * (1 + env.q(1, 10**6)), 'each projectile makes its products')
