"""helpers shared by the harnesses"""
from symx.harness import Obj
FIELDS = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')
QE = 1.602176634e-19
ME = 9.1093837015e-31


class BoxChamb:
    """chamber contract for callers that only ask 'outside?': the rectangle |x|<x_aper, |y|<y_aper"""
    def __init__(self, x_aper, y_aper):
        self.x_aper, self.y_aper = x_aper, y_aper
        self.N_vert = 0
        self.chamb_type = 'stub'

    def is_outside(self, x, y):
        return (abs(x) >= self.x_aper) | (abs(y) >= self.y_aper)


def make_mp(env, nmax, lifetime=True, nel_ref0=None, split=None, clean=None, chamb=None, charge=-1., mass=1., **kw):
    """an MP_system of the code under test with unit charge and mass unless given"""
    M = env.mod('MP_system')
    args = dict(N_mp_max=nmax, nel_mp_ref_0=1. if nel_ref0 is None else nel_ref0, fact_split=1.5 if split is None else split,
                fact_clean=0.25 if clean is None else clean, N_mp_regen_low=0, N_mp_regen=1000, N_mp_after_regen=500,
                Dx_hist_reg=0.5, Nx_reg=3, Ny_reg=3, Nvx_reg=3, Nvy_reg=3, Nvz_reg=3, regen_hist_cut=0.001,
                chamb=chamb or BoxChamb(1., 1.), charge=charge, mass=mass, flag_lifetime_hist=lifetime, name='c')
    args.update(kw)
    return M.MP_system(**args)


def fill(env, mp, n, pre='', lifetime=True, nel_lo=0, tail=True, vbound=None, xbound=None, nel_hi=None):
    """symbolic contents for the first n macroparticles; stale position data behind them, no charge behind them"""
    nmax = len(mp.x_mp)
    for f in FIELDS:
        a = getattr(mp, f)
        for i in range(nmax):
            if i < n:
                lo = hi = None
                if f == 'nel_mp': lo, hi = nel_lo, nel_hi
                elif f[0] == 'v' and vbound is not None: lo, hi = -vbound, vbound
                elif f in ('x_mp', 'y_mp') and xbound is not None: lo, hi = -xbound, xbound
                a[i] = env.real('%s%s%d' % (pre, f, i), lo, hi)
            elif f != 'nel_mp' and tail:
                a[i] = env.real('%sstale_%s%d' % (pre, f, i), -1, 1)
    if lifetime:
        for i in range(nmax):
            mp.t_last_impact[i] = env.real('%st_last%d' % (pre, i)) if i < n else (env.real('%sstale_t%d' % (pre, i), -1, 1) if tail else -1)
    mp.N_mp = n


def snap(mp, lifetime=True):
    """per-macroparticle tuples of everything stored about them"""
    fs = FIELDS + (('t_last_impact',) if lifetime else ())
    return [tuple(getattr(mp, f)[i] for f in fs) for i in range(int(mp.N_mp))], fs


def eq_mp(env, a, b, fs, label, scale=None):
    for f, u, v in zip(fs, a, b):
        env.eq(u, v, '%s (%s)' % (label, f), scale)


def no_stale_charge(env, mp, label='no charge stored behind the last macroparticle'):
    n = int(mp.N_mp)
    for i in range(n, len(mp.nel_mp)):
        env.eq(mp.nel_mp[i], 0, label, 0)


class StubChamb(BoxChamb):
    """a chamber by contract: the rectangle decides what is outside; impact points, normals and segments are given (one entry per impact, in order)"""
    def __init__(self, env, x_aper, y_aper, impacts, nseg=0):
        BoxChamb.__init__(self, x_aper, y_aper)
        self.env, self.impacts, self.used, self.calls = env, impacts, 0, []
        if nseg: self.N_vert = nseg

    def impact_point_and_normal(self, x_in, y_in, z_in, x_out, y_out, z_out, *a, **k):
        n = len(x_in)
        self.calls.append((list(x_in), list(y_in), list(z_in), list(x_out), list(y_out), list(z_out)))
        use = self.impacts[self.used:self.used + n]
        self.used += n
        cols = [self.env.array([u[c] for u in use], 'f') for c in range(5)]
        seg = self.env.array([u[5] for u in use], 'i') if self.N_vert else None
        return cols[0], cols[1], cols[2], cols[3], cols[4], seg


SEY_KW = dict(E_th=35., sigmafit=1.0828, mufit=1.6636, switch_no_increase_energy=0, thresh_low_energy=-1., secondary_angle_distribution='normal_emission')
FP_NUM = dict(use_modified_sigmaE=False, use_ECLOUD_theta0_dependence=False, use_ECLOUD_energy=True, conserve_energy=False, choice='poisson', M_cut=10, p_n=None, eps_n=None,
              exclude_rediffused=False, p1EInf=0.02, p1Ehat=0.496, eEHat=0., w=60.86, p=1., e1=0.26, e2=2., sigmaE=2., p1RInf=0.2, eR=0.041, r=0.104, q=0.5, r1=0.26, r2=2.,
              deltaTSHat=1.8848, eHat0=276.8, s=1.54, t1=0.66, t2=0.8, t3=0.7, t4=1.)


def sey_models(env, kind, nseg=3, **kw):
    """an instance of each secondary emission model with ordinary parameters"""
    k = dict(SEY_KW, **kw)
    if kind == 'ecloud': return env.mod('sec_emission_model_ECLOUD').SEY_model_ECLOUD(300., 1.7, 0.7, **k)
    if kind == 'acc': return env.mod('sec_emission_model_accurate_low_ene').SEY_model_acc_low_ene(300., 1.7, 0.7, **k)
    if kind == 'cos': return env.mod('sec_emission_model_cos_low_ener').SEY_model_cos_le(300., 1.7, 0.7, **k)
    if kind == 'flat': return env.mod('sec_emission_model_flat_low_ener').SEY_model_flat_le(300., 1.7, 0.7, **k)
    if kind == 'absorb': return env.mod('sec_emission_model_perfect_absorber').SEY_model_perfect_absorber()
    if kind == 'file':
        one = lambda v: env.array([env.q(v)], 'f')
        d = dict(energy_eV=env.array([env.q(v) for v in (0, 200, 400)], 'f'), sey_true=env.array([env.q(0), env.q(1), env.q(2)], 'f'), sey_elast=env.array([env.q(1, 2), env.q(1, 4), env.q(0)], 'f'),
                 **{n: one(0) for n in ('extrapolate_grad_true', 'extrapolate_const_true', 'extrapolate_grad_elast', 'extrapolate_const_elast')})
        return env.mod('sec_emission_model_from_file').SEY_model_from_file(d, True, True, **k)
    if kind in ('nunif', 'charging'):
        c = Obj(chamb_type='polyg')
        arr = lambda *v: env.array([env.q(x) for x in v][:nseg], 'f')
        c.del_max_segments, c.R0_segments, c.Emax_segments, c.L_edg = arr(1.5, -1, 1.25), arr(-1, 0.5, 0.25), arr(300, -1, 200), arr(1, 1, 1)
        M = env.mod('sec_emission_model_ECLOUD_nunif')
        if kind == 'nunif': return M.SEY_model_ECLOUD_non_unif(c, 300., 1.7, 0.7, **k)
        c.flag_charging = env.array([1, 0, 1][:nseg], 'i')
        c.Q_max_segments, c.EQ_segments, c.tau_segments = arr(1, 1, 1), arr(20, 20, 20), arr(1, 1, 1)
        return M.SEY_model_ECLOUD_non_unif_charging(c, 300., 1.7, 0.7, **k)
    if kind[:2] == 'fp':
        p = dict(FP_NUM, exclude_rediffused='x' in kind[2:])
        return env.mod('sec_emission_model_furman_pivi').SEY_model_furman_pivi(p, **k)
    raise KeyError(kind)


class StubPIC:
    """a field solver by contract: deposits are linear in the charges, the solution is linear in the deposit, gathering reads the last solution"""
    instances = []

    def __init__(self, env, chamb=None, Dh=None, N=3, **kw):
        self.env, self.Dh, self.kw, self.chamb = env, Dh, kw, chamb
        self.xg = env.array([env.q(i - 1) for i in range(N)], 'f'); self.yg = env.array([env.q(2 * i - 2) for i in range(N)], 'f')
        self.Nxg = self.Nyg = N
        self.bias_x, self.bias_y = env.q(-1), env.q(-2)
        self.xn = env.array([self.xg[i] for i in range(N) for j in range(N)], 'f'); self.yn = env.array([self.yg[j] for i in range(N) for j in range(N)], 'f')
        self.rho = env.array([env.q(0)] * 4, 'f')
        self.phi, self.efx, self.efy = [env.array([env.q(0)] * 4, 'f') for _ in range(3)]
        self.log = []
        self.shape_efx = self.shape_efy = None
        StubPIC.instances.append(self)

    @staticmethod
    def weights(x, y): return (1, x, y, x * y)

    @staticmethod
    def field(rho): return [2 * rho[0] + rho[3], rho[1] - rho[0], 3 * rho[2], rho[0]], [rho[2], rho[0] + rho[1], rho[3], 5 * rho[1]]

    def scatter(self, x_mp, y_mp, nel_mp, charge=None, flag_add=False):
        from symx.harness import Obj
        self.log.append(('scatter', len(x_mp), flag_add))
        r = [self.rho[k] if flag_add else self.env.q(0) for k in range(4)]
        for i in range(len(x_mp)):
            w = self.weights(x_mp[i], y_mp[i])
            for k in range(4): r[k] = r[k] + charge * nel_mp[i] * w[k]
        if flag_add:            # in place, as PyPIC does
            for k in range(4): self.rho[k] = r[k]
        else: self.rho = self.env.array(r, 'f')

    def solve(self, rho=None, flag_verbose=False, pic_external=None):
        self.log.append(('solve', rho))
        if rho is None: rho = self.rho
        if len(rho) == 4:
            self.phi = self.env.array([rho[k] * 7 for k in range(4)], 'f')
            ex, ey = self.field(rho)
            self.efx, self.efy = self.env.array(ex, 'f'), self.env.array(ey, 'f')

    def gather(self, x_mp, y_mp):
        self.log.append(('gather', len(x_mp)))
        if len(x_mp) == 0: return 0., 0.
        f = lambda e, i: sum(e[k] * w for k, w in enumerate(self.weights(x_mp[i], y_mp[i])))
        return tuple(self.env.array([f(e, i) for i in range(len(x_mp))], 'f') for e in (self.efx, self.efy))

    def gather_phi(self, x_mp, y_mp):
        self.log.append(('gather_phi', len(x_mp)))
        if len(x_mp) == 0: return 0.
        return self.env.array([sum(self.phi[k] * w for k, w in enumerate(self.weights(x_mp[i], y_mp[i]))) for i in range(len(x_mp))], 'f')

    def solve_states(self, states):
        for s in states:
            self.log.append(('solve_state', s))
            s.phi = self.env.array([s.rho[k] * 7 for k in range(4)], 'f')
            ex, ey = self.field(s.rho)
            s.efx, s.efy = self.env.array(ex, 'f'), self.env.array(ey, 'f')

    def build_sparse_solver(self): self.log.append(('build',))

    def get_state_object(self):
        import copy
        self.log.append(('state',))
        return StubState(self)


class StubState:
    def __init__(self, p):
        self.env = p.env
        self.rho, self.phi, self.efx, self.efy = [v.copy() for v in (p.rho, p.phi, p.efx, p.efy)]
        self.log = []
    def get_state_object(self): return StubState(self)
    gather, gather_phi, scatter, weights = StubPIC.gather, StubPIC.gather_phi, StubPIC.scatter, staticmethod(StubPIC.weights)


def stub_pypic(env):
    """replaces PyPIC; the module names of all solvers"""
    import types
    StubPIC.instances = []
    def made(name):
        def f(**kw):
            p = StubPIC(env, **kw); p.kind = name
            return p
        return f
    names = dict(FiniteDifferences_ShortleyWeller_SquareGrid=1, FiniteDifferences_Staircase_SquareGrid=1, FFT_PEC_Boundary_SquareGrid=1, FFT_OpenBoundary=1)
    for n in names:
        m = types.ModuleType('PyPIC.' + n)
        setattr(m, n, made(n))
        env.stub('PyPIC.' + n, m)
    m = types.ModuleType('PyPIC.MultiGrid')
    def add(pic_main=None, **kw):
        p = StubPIC(env, pic_main.chamb, pic_main.Dh, **kw)
        p.main, p.kind = pic_main, 'MultiGrid'
        inner = [StubPIC(env, pic_main.chamb, pic_main.Dh / 2, 3) for _ in range(2)]
        p.pic_list = []
        from symx.harness import Obj
        for q in inner: p.pic_list.append(Obj(pic_internal=q))
        return p
    m.AddTelescopicGrids = add
    env.stub('PyPIC.MultiGrid', m)
