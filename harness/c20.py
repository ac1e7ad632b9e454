import inspect, os, types
from fractions import Fraction
from symx.harness import harness
from .common import *

FUNCTIONS = ['init.read_parameter_files, read_input_files_and_init_components', 'parse_beam_file.beam_descr_from_fil', 'parse_cloud_file.cloud_descr_from_file', 'input_parameters_format_specification.assert_module_has_parameters, update_module, update_config_dict, copy_to_config_dict', 'default_input_parameters.parameters_dict']
BOUNDS = ['up to 3 clouds and 3 beams, one chamber, one tracker and one emission model per cloud (every kind is a case)', 'any value of every numeric parameter; each parameter alone given / alone left out, and all given / all left out; each override alone', 'beam energies of three relativistic factors, any emittance, optics, dispersion and momentum spread']
ASSUMPTIONS = ['Loading an input file (executing it as Python) is replaced by the set of names and values it defines.', 'Components record what they are given instead of being built; the other properties check what they do with it.', 'Names of files and selectors of models are taken from a fixed set.']

MP_, ME_, C_ = Fraction('1.67262192369e-27'), Fraction('9.1093837015e-31'), 299792458
COMBINED = 'combined_simulations_secondaryEmission_machine_parameters'


def num(env, x):
    return env.val(x) if env.symbolic else float(x)


def module(name, d):
    m = types.ModuleType(name)
    m.__dict__.update(d)
    m.pi = 3.141592653589793
    m.os = os
    m._scratch = 1
    return m


def files(env, contents):
    """the input files of the run"""
    spec = env.mod('input_parameters_format_specification')
    def load(module_name, file_name):
        return module(module_name, contents[os.path.basename(str(file_name))])
    spec.import_module_from_file = load
    return spec


def same(env, a, b, label):
    """values that may be symbols, strings, None or containers"""
    if a is b: env.check(True, label); return
    if a is None or b is None or isinstance(a, (str, bytes, list, tuple, dict, Obj)) or isinstance(b, (str, bytes, list, tuple, dict, Obj)):
        env.check(type(a) is type(b) and a == b, label)
    else: env.eq(a, b, label)


# ---------------------------------------------------------------- documented interface
# (written from the reference manual, not taken from the code)
SIM_MANDATORY = '''machine_param_file secondary_emission_parameters_file beam_parameters_file logfile_path progress_path Dt t_end lam_th N_mp_max N_mp_regen N_mp_regen_low
t_ON_regen_low N_mp_after_regen fact_split fact_clean nel_mp_ref_0 Nx_regen Ny_regen Nvx_regen Nvy_regen Nvz_regen regen_hist_cut Dt_sc Dh_sc t_sc_ON Dx_hist r_center
Dt_En_hist Nbin_En_hist En_hist_max'''.split()
SEY_MANDATORY = 'E_th sigmafit mufit scrub_en_th'.split()
BEAM_MANDATORY = 'energy_eV beam_field_file b_spac fact_beam flag_bunched_beam t_offs filling_pattern_file'.split()
CLOUD_MANDATORY = 'cloud_mass cloud_charge gas_ion_flag photoem_flag init_unif_flag init_unif_edens_flag switch_model'.split()
SIM_DEFAULTS = dict(secondary_beams_file_list=(), additional_clouds_file_list=(), cloud_name=None, N_mp_soft_regen=None, N_mp_after_soft_regen=None, N_mp_async_regen=None,
    N_mp_after_async_regen=None, stopfile='stop', filen_main_outp='Pyecltest.mat', save_only=None, flag_movie=0, flag_sc_movie=0, flag_cos_angle_hist=True, cos_angle_width=Fraction(1, 20),
    save_mp_state_time_file=-1, flag_detailed_MP_info=0, flag_hist_impact_seg=1, flag_En_hist_seg=False, flag_verbose_file=False, flag_verbose_stdout=False, dec_fac_secbeam_prof=1,
    el_density_probes=(), save_simulation_state_time_file=-1, checkpoint_DT=None, checkpoint_folder=None, copy_main_outp_DT=None, copy_main_outp_folder=None, x_min_hist_det=None,
    y_min_hist_det=None, x_max_hist_det=None, y_max_hist_det=None, Dx_hist_det=None, flag_lifetime_hist=False, Nbin_lifetime_hist=None, lifetime_hist_max=None, Dt_lifetime_hist=None,
    Dh_electric_energy=None, sparse_solver='scipy_slu', PyPICmode='FiniteDifferences_ShortleyWeller', flag_reinterp_fields_at_substeps=False, f_telescope=None, target_grid=None,
    N_nodes_discard=None, N_min_Dh_main=None, dec_fact_out=1, save_mat_every=1, t_ion=-1, extract_sey=True, step_by_step_custom_observables=None, pass_by_pass_custom_observables=None,
    save_once_custom_observables=None, extract_ene_dist=False, ene_dist_test_E_impact_eV=None, Nbin_extract_ene=None, factor_ene_dist_max=None, flag_em_tracking=False, cross_ion_definitions=None)
MACHINE_DEFAULTS = dict(chamb_type='ellip', x_aper=None, y_aper=None, filename_chm=None, filename_chm_photoem=None, track_method='StrongBdip', B=0, bm_totlen=-1, B_map_file=None, fact_Bmap=1,
    B0x=None, B0y=None, B0z=None, B_zero_thrhld=None, N_sub_steps=1, B_multip=[], B_skew=None, betafx=None, betafy=None, Dx=0, Dy=0, gas_ion_flag=0, P_nTorr=-1, sigma_ion_MBarn=-1, Temp_K=-1,
    unif_frac=-1, E_init_ion=-1, photoem_flag=0, inv_CDF_refl_photoem_file=-1, inv_CDF_all_photoem_file=-1, k_pe_st=-1, refl_frac=-1, alimit=-1, e_pe_sigma=-1, e_pe_max=-1, x0_refl=-1, y0_refl=-1,
    out_radius=-1, phem_resc_fac=Fraction(9999, 10000), photoelectron_angle_distribution='undefined', energy_distribution='gaussian', flag_continuous_emission=False, init_unif_flag=0,
    Nel_init_unif=None, E_init_unif=0, x_max_init_unif=None, x_min_init_unif=None, y_max_init_unif=None, y_min_init_unif=None, filename_init_MP_state=None, init_unif_edens_flag=0,
    init_unif_edens=None, E_init_unif_edens=0, x_max_init_unif_edens=None, x_min_init_unif_edens=None, y_max_init_unif_edens=None, y_min_init_unif_edens=None, flag_assume_convex=True)
SEY_DEFAULTS = dict(Emax=None, del_max=None, R0=None, E0=None, s_param=None, switch_model=0, secondary_angle_distribution='undefined', switch_no_increase_energy=0, thresh_low_energy=-1,
    sey_file=None, flag_costheta_Emax_shift=True, flag_costheta_delta_scale=True, furman_pivi_surface=None)
BEAM_DEFAULTS = dict(Dp_p=0, nemittx=None, nemitty=None, x_beam_pos=0, y_beam_pos=0, sigmax=-1, sigmay=-1, save_beam_field_file_as=None, Dh_beam_field=None, Nx=None, Ny=None, nimag=None,
    f_telescope_beam=None, target_grid_beam=None, N_nodes_discard_beam=None, N_min_Dh_main_beam=None, sigmaz=-1, beam_long_prof_file=None, Dx=None, Dy=None, betafx=None, betafy=None, coast_dens=0)
# what an additional cloud may redefine; the rest is common to the simulation
PER_CLOUD = '''save_only N_mp_max N_mp_regen N_mp_regen_low t_ON_regen_low N_mp_after_regen fact_split fact_clean nel_mp_ref_0 Nx_regen Ny_regen Nvx_regen Nvy_regen Nvz_regen regen_hist_cut
N_mp_soft_regen N_mp_after_soft_regen N_mp_async_regen N_mp_after_async_regen N_sub_steps P_nTorr sigma_ion_MBarn Temp_K unif_frac E_init_ion t_ion inv_CDF_refl_photoem_file
inv_CDF_all_photoem_file k_pe_st refl_frac alimit e_pe_sigma e_pe_max x0_refl y0_refl out_radius phem_resc_fac photoelectron_angle_distribution energy_distribution flag_continuous_emission
filename_chm_photoem Nel_init_unif E_init_unif x_max_init_unif x_min_init_unif y_max_init_unif y_min_init_unif filename_init_MP_state init_unif_edens E_init_unif_edens x_max_init_unif_edens
x_min_init_unif_edens y_max_init_unif_edens y_min_init_unif_edens E_th sigmafit mufit Emax s_param del_max R0 E0 switch_no_increase_energy thresh_low_energy scrub_en_th
secondary_angle_distribution sey_file flag_costheta_Emax_shift flag_costheta_delta_scale furman_pivi_surface Dx_hist r_center Dt_En_hist Nbin_En_hist En_hist_max flag_lifetime_hist
Nbin_lifetime_hist lifetime_hist_max Dt_lifetime_hist flag_movie flag_sc_movie flag_cos_angle_hist cos_angle_width save_mp_state_time_file flag_detailed_MP_info flag_hist_impact_seg
flag_En_hist_seg flag_verbose_file flag_verbose_stdout dec_fac_secbeam_prof el_density_probes save_simulation_state_time_file x_min_hist_det y_min_hist_det x_max_hist_det y_max_hist_det
Dx_hist_det logfile_path progress_path'''.split()

SIM = SIM_MANDATORY + list(SIM_DEFAULTS) + ['cloud_mass', 'cloud_charge']
MACHINE, SEY = list(MACHINE_DEFAULTS), SEY_MANDATORY + list(SEY_DEFAULTS)
BEAM = BEAM_MANDATORY + list(BEAM_DEFAULTS) + ['q_part', 'm0_part']
DEFAULTS = dict(SIM_DEFAULTS, **MACHINE_DEFAULTS, **SEY_DEFAULTS)
DECK = dict(machine_param_file='m.input', secondary_emission_parameters_file='s.input', beam_parameters_file='b.beam')


def default(env, k, table):
    if k == 'cloud_mass': return num(env, ME_)
    if k == 'm0_part': return num(env, MP_)
    if k == 'cloud_charge': return num(env, -QE)
    if k == 'q_part': return num(env, QE)
    v = table[k]
    return num(env, v) if isinstance(v, Fraction) else v


def groups(names, n):
    return [names[i::n] for i in range(n)]


def sym(env, names, pre=''):
    return {k: env.real(pre + k) for k in names}


# ---------------------------------------------------------------- reading
@harness('C20', [dict(which=w) for w in ('none', 'all', 'only', 'but')])
def deck(env, which):
    """main input files: every parameter has the value given or its documented default"""
    I = env.mod('init')
    opt = [k for k in SIM + MACHINE + SEY if k not in SIM_MANDATORY + SEY_MANDATORY]
    k = env.choice('parameter', opt) if which in ('only', 'but') else None
    given = {'none': [], 'all': opt, 'only': [k], 'but': [o for o in opt if o != k]}[which]
    user = sym(env, SIM_MANDATORY + SEY_MANDATORY + given)
    user.update(DECK)
    pick = lambda names: {p: user[p] for p in names if p in user}
    files(env, {'simulation_parameters.input': pick(SIM), 'm.input': pick(MACHINE), 's.input': pick(SEY), 'b.beam': sym(env, BEAM_MANDATORY, 'b.')})
    cfg = I.read_parameter_files('in')
    env.check(set(cfg) == set(SIM + MACHINE + SEY), 'every parameter has a value, and nothing else has')
    for p in cfg: same(env, cfg[p], user[p] if p in user else default(env, p, DEFAULTS), 'value given or documented default')


def reject(env, exc, contents, beams=True):
    I = env.mod('init')
    spec = files(env, contents)
    env.check(env.raises(spec.PyECLOUD_ConfigException, I.read_parameter_files, 'in', skip_beam_files=not beams), exc)


@harness('C20', [dict(kind=k) for k in ('unknown', 'missing', 'duplicate', 'skip')])
def strict(env, kind):
    """unknown, missing and repeated parameters"""
    base = {'simulation_parameters.input': dict(sym(env, SIM_MANDATORY), **DECK), 'm.input': {}, 's.input': sym(env, SEY_MANDATORY), 'b.beam': sym(env, BEAM_MANDATORY, 'b.')}
    if kind == 'unknown':
        f = env.choice('file', sorted(base))
        base[f][env.choice('name', ['unknown_parameter', 'dt', 'Sigmaz'])] = env.real('v')
        reject(env, 'an unknown parameter is rejected', base)
    elif kind == 'missing':
        f, p = env.choice('parameter', [('simulation_parameters.input', k) for k in SIM_MANDATORY if k not in DECK] + [('s.input', k) for k in SEY_MANDATORY] + [('b.beam', k) for k in BEAM_MANDATORY])
        del base[f][p]
        reject(env, 'a missing mandatory parameter is rejected', base)
    elif kind == 'duplicate':
        a, b = env.choice('files', [('simulation_parameters.input', 'm.input'), ('simulation_parameters.input', 's.input'), ('m.input', 's.input')])
        p = env.choice('parameter', ['Dt', 'B', 'Emax', 'E_th'])
        base[a][p], base[b][p] = env.real('v1'), env.real('v2')
        reject(env, 'a parameter given twice is rejected', base)
    else:
        del base['b.beam']
        files(env, base)
        cfg = env.mod('init').read_parameter_files('in', skip_beam_files=True)
        same(env, cfg['Dt'], base['simulation_parameters.input']['Dt'], 'without a beam no beam file is read')


@harness('C20', [dict(which=w) for w in ('none', 'all', 'only', 'but')] + [dict(which='none', bad=b) for b in ('unknown', 'missing')])
def add_cloud(env, which, bad=None):
    """additional cloud: its own values, else those of the main cloud"""
    P = env.mod('parse_cloud_file')
    main = sym(env, [k for k in SIM + MACHINE + SEY], 'main.')
    main.update(filen_main_outp=env.choice('output', ['out/Pyecl.mat', 'Pyecl']))
    k = env.choice('parameter', PER_CLOUD) if which in ('only', 'but') else None
    given = {'none': [], 'all': PER_CLOUD, 'only': [k], 'but': [o for o in PER_CLOUD if o != k]}[which]
    own = sym(env, CLOUD_MANDATORY + given, 'own.')
    if bad == 'unknown': own[env.choice('name', ['Dt', 'chamb_type', 'whatever', 'B', 'cloud_name'])] = env.real('v')
    if bad == 'missing': del own[env.choice('name', CLOUD_MANDATORY)]
    spec = files(env, {'ions.cloud': own})
    before = dict(main)
    if bad:
        env.check(env.raises(spec.PyECLOUD_ConfigException, P.cloud_descr_from_file, 'in/ions.cloud', Obj(**main)), 'unknown and missing parameters of a cloud are rejected')
        return
    cfg = P.cloud_descr_from_file('in/ions.cloud', Obj(**main)).cc
    env.check(set(vars(cfg)) >= set(PER_CLOUD + CLOUD_MANDATORY), 'every parameter of the cloud has a value')
    for p in PER_CLOUD + CLOUD_MANDATORY: same(env, getattr(cfg, p), own[p] if p in own else main[p], 'own value, else that of the main cloud')
    env.check(cfg.cloud_name == 'ions', 'the file names the cloud')
    env.check(cfg.filen_main_outp == main['filen_main_outp'].replace('.mat', '') + '_ions.mat', 'output file of the cloud')
    env.check(all(main[p] is before[p] for p in main), 'the main parameters stay')


@harness('C20', [dict(name=n, out=o) for n in (None, 'el') for o in ('out/Pyecl.mat', 'Pyecl')])
def main_cloud(env, name, out):
    """the main cloud takes the main parameters"""
    P = env.mod('parse_cloud_file')
    main = sym(env, [k for k in SIM + MACHINE + SEY], 'main.')
    main.update(filen_main_outp=out, cloud_name=name)
    files(env, {})
    cfg = P.cloud_descr_from_file(None, Obj(**main)).cc
    for p in PER_CLOUD + CLOUD_MANDATORY: same(env, getattr(cfg, p), main[p], 'the main cloud has the main parameters')
    env.check(cfg.cloud_name == (name or 'default'), 'name of the main cloud')
    env.check(cfg.filen_main_outp == (out if name is None else out.replace('.mat', '') + '_el.mat'), 'output file of the main cloud')


GAMMA = [(Fraction(5, 4), Fraction(3, 5)), (Fraction(13, 5), Fraction(12, 13)), (Fraction(41, 9), Fraction(40, 41))]


@harness('C20', [dict(sx=a, sy=b, optics=o) for a in (False, True) for b in (False, True) for o in ('beam', 'machine', 'mixed')] + [dict(sx=False, sy=False, optics='beam', part='given')])
def beam(env, sx, sy, optics, part=None):
    """sizes and relativistic quantities of a beam"""
    P = env.mod('parse_beam_file')
    gamma, beta = env.choice('gamma', GAMMA)
    m0 = env.choice('mass', [MP_, ME_, 208 * MP_]) if part else MP_
    pos = lambda n: env.real(n, Fraction(1, 100), 100)
    own = sym(env, ['beam_field_file', 'b_spac', 'fact_beam', 'flag_bunched_beam', 't_offs', 'filling_pattern_file'])
    own['energy_eV'] = num(env, gamma * m0 * C_ * C_ / QE)
    own['Dp_p'] = env.real('Dp_p', 0, 1)
    if part: own['m0_part'], own['q_part'] = num(env, m0), env.real('q_part')
    for p, given in (('x', sx), ('y', sy)):
        if given: own['sigma' + p] = pos('sigma' + p)
        else: own['nemitt' + p] = pos('nemitt' + p)
    mach = dict(betafx=pos('m.betafx'), betafy=pos('m.betafy'), Dx=env.real('m.Dx'), Dy=env.real('m.Dy'))
    opt = dict(mach)
    for k in {'beam': ['betafx', 'betafy', 'Dx', 'Dy'], 'machine': [], 'mixed': ['betafx', 'Dy']}[optics]:
        own[k] = opt[k] = pos('b.' + k) if k[0] == 'b' else env.real('b.' + k)
    files(env, {'b.beam': own})
    b = P.beam_descr_from_fil('in/b.beam', mach['betafx'], mach['Dx'], mach['betafy'], mach['Dy'])
    env.near(b.gamma_rel, num(env, gamma), 'relativistic factor', 1e-9)
    env.near(b.beta_rel, num(env, beta), 'velocity', 1e-9)
    env.near(b.energy_J * 10**9, num(env, gamma * m0 * C_ * C_ * 10**9), 'energy', 1e-9)
    for p, given in (('x', sx), ('y', sy)):
        got = getattr(b, 'sigma' + p)
        if given: same(env, got, own['sigma' + p], 'the size given is kept')
        else:
            d2 = opt['D' + p]**2 * own['Dp_p']**2
            s2 = opt['betaf' + p] * own['nemitt' + p] / num(env, beta * gamma) + d2
            env.check(got >= 0, 'a size is positive')
            env.le(abs(got * got - s2), s2 / 10**8, 'size from emittance, optics and momentum spread')
    for k in BEAM:
        if k in ('sigmax', 'sigmay', 'Dx', 'Dy', 'betafx', 'betafy', 'energy_eV', 'm0_part'): continue
        same(env, getattr(b, k), own[k] if k in own else default(env, k, BEAM_DEFAULTS), 'beam parameter given or documented default')
    same(env, b.energy_eV, own['energy_eV'], 'energy of the beam')
    env.near(b.m0_part * 10**27, num(env, m0 * 10**27), 'mass of the particles', 1e-9)


@harness('C20', [dict(plane=p, no=n) for p in 'xy' for n in ('betaf', 'nemitt')] + [dict(plane=p, no=n) for p in 'xy' for n in ('unknown', 'missing')])
def beam_bad(env, plane, no):
    """a beam without a defined size is rejected"""
    P = env.mod('parse_beam_file')
    own = sym(env, BEAM_MANDATORY)
    own['energy_eV'] = num(env, Fraction(5, 4) * MP_ * C_ * C_ / QE)
    own.update(sigmax=env.real('sigmax', 1, 2), sigmay=env.real('sigmay', 1, 2))
    mach = dict(x=env.real('bx', 1, 2), y=env.real('by', 1, 2))
    if no in ('unknown', 'missing'):
        if no == 'unknown': own['Dt' if plane == 'x' else 'sigma'] = env.real('v')
        else: del own[env.choice('name', [k for k in BEAM_MANDATORY])]
        spec = files(env, {'b.beam': own})
        env.check(env.raises(spec.PyECLOUD_ConfigException, P.beam_descr_from_fil, 'b.beam', mach['x'], 0, mach['y'], 0), 'unknown and missing parameters of a beam are rejected')
        return
    del own['sigma' + plane]
    if no == 'betaf': own['nemitt' + plane] = env.real('nemitt', 1, 2); mach[plane] = None
    files(env, {'b.beam': own})
    env.check(env.raises(ValueError, P.beam_descr_from_fil, 'b.beam', mach['x'], env.q(0), mach['y'], env.q(0)), 'a beam without a defined size is rejected')


# ---------------------------------------------------------------- wiring
COMPONENTS = dict(
    ellip=('geom_impact_ellip', 'ellip_cham_geom_object'), polyg=('geom_impact_poly_fast_impact', 'polyg_cham_geom_object'), photo_chamb=('geom_impact_poly_fast_impact', 'polyg_cham_photoemission'),
    rect=('geom_impact_rect_fast_impact', 'rect_cham_geom_object'), beam=('beam_and_timing', 'beam_and_timing'), sc=('space_charge_class', 'space_charge'),
    sc_em=('space_charge_class_electromagnetic', 'space_charge_electromagnetic'), mp=('MP_system', 'MP_system'), imp=('impact_management_class', 'impact_management'),
    gas=('gas_ionization_class', 'residual_gas_ionization'), photo1=('gen_photoemission_class', 'photoemission'), photo2=('gen_photoemission_class', 'photoemission_from_file'),
    photo3=('gen_photoemission_class', 'photoemission_per_segment'), Boris=('dynamics_Boris_f2py', 'pusher_Boris'), StrongBdip=('dynamics_dipole', 'pusher_dipole_magnet'),
    StrongBgen=('dynamics_strong_B_generalized', 'pusher_strong_B_generalized'), BorisMultipole=('dynamics_Boris_multipole', 'pusher_Boris_multipole'), saver=('pyecloud_saver', 'pyecloud_saver'),
    cross=('cross_ionization', 'Cross_Ionization'),
    ECLOUD=('sec_emission_model_ECLOUD', 'SEY_model_ECLOUD'), ACC_LOW=('sec_emission_model_accurate_low_ene', 'SEY_model_acc_low_ene'), ECLOUD_nunif=('sec_emission_model_ECLOUD_nunif', 'SEY_model_ECLOUD_non_unif'),
    ECLOUD_nunif_charging=('sec_emission_model_ECLOUD_nunif', 'SEY_model_ECLOUD_non_unif_charging'), cos_low_ene=('sec_emission_model_cos_low_ener', 'SEY_model_cos_le'),
    flat_low_ene=('sec_emission_model_flat_low_ener', 'SEY_model_flat_le'), from_file=('sec_emission_model_from_file', 'SEY_model_from_file'),
    furman_pivi=('sec_emission_model_furman_pivi', 'SEY_model_furman_pivi'), perfect_absorber=('sec_emission_model_perfect_absorber', 'SEY_model_perfect_absorber'))


def record(env, extra):
    """replaces every component by a recorder of its arguments; returns the list of what was built"""
    I = env.mod('init')
    built = []
    def recorder(kind, cls, sig):
        def make(*a, **k):
            b = sig.bind(None, *a, **k) if sig else None
            if b: b.apply_defaults()
            o = Obj(kind=kind, arg=dict(list(b.arguments.items())[1:]) if b else {}, calls=[])
            o.arg.update(o.arg.pop('kwargs', {}))
            for name, v in extra.get(kind, {}).items(): setattr(o, name, v)
            for name in ('add_uniform_MP_distrib', 'add_uniform_ele_density', 'add_from_file', 'start_observing'):
                f = getattr(cls, name, None)
                if f is None: continue
                def call(*x, _n=name, _s=inspect.signature(f), **y):
                    c = _s.bind(None, *x, **y)
                    o.calls.append((_n, dict(list(c.arguments.items())[1:])))
                setattr(o, name, call)
            if kind == 'photo_chamb': o.vertexes_are_subset = lambda ch: o.arg.update(compared=ch) or extra.get('subset', True)
            built.append(o)
            return o
        return make
    mods = {m: env.mod(m) for m, _ in COMPONENTS.values()}
    for kind, (m, c) in COMPONENTS.items():
        cls = getattr(mods[m], c)
        if inspect.isclass(cls):
            init = getattr(cls, '__init__')
            sig = None if init is object.__init__ else inspect.signature(init)
        else:
            f = inspect.signature(cls)
            sig = f.replace(parameters=[inspect.Parameter('self', inspect.Parameter.POSITIONAL_ONLY)] + list(f.parameters.values()))
        r = recorder(kind, cls, sig)
        for name, v in list(vars(I).items()):
            if v is cls: setattr(I, name, r)
        setattr(mods[m], c, r)
    return I, built


STRINGS = dict(logfile_path='log', progress_path='prog', stopfile='stopper', sparse_solver='klu_other', PyPICmode='mode', filename_chm='chm', filename_chm_photoem='pch', sey_file='seyf',
               photoelectron_angle_distribution='pad', energy_distribution='ged', secondary_angle_distribution='sad', furman_pivi_surface='fps', checkpoint_folder='chk', copy_main_outp_folder='cpy',
               step_by_step_custom_observables='a', pass_by_pass_custom_observables='b', save_once_custom_observables='d', cross_ion_definitions=None, filename_init_MP_state='init_state', save_only=('x',))


def values(env, names, pre, over):
    d = {}
    for k in names:
        if k in over: d[k] = over[k]
        elif k in STRINGS and STRINGS[k] is not None and not isinstance(STRINGS[k], tuple): d[k] = pre + STRINGS[k]
        elif k in STRINGS: d[k] = STRINGS[k]
        else: d[k] = env.real(pre + k)
    return d


def args(env, obj, want, label):
    for k, v in want.items():
        env.check(k in obj.arg, label + ': ' + k)
        same(env, obj.arg.get(k), v, label + ': ' + k)


def called(env, call, want, label):
    for k, v in want.items():
        env.check(k in call[1], label + ': ' + k)
        same(env, call[1].get(k), v, label + ': ' + k)


SIZES = dict(N_mp_max='N_mp_max', nel_mp_ref_0='nel_mp_ref_0', fact_split='fact_split', fact_clean='fact_clean', N_mp_regen_low='N_mp_regen_low', N_mp_regen='N_mp_regen',
    N_mp_after_regen='N_mp_after_regen', Dx_hist_reg='Dx_hist', Nx_reg='Nx_regen', Ny_reg='Ny_regen', Nvx_reg='Nvx_regen', Nvy_reg='Nvy_regen', Nvz_reg='Nvz_regen', regen_hist_cut='regen_hist_cut',
    N_mp_soft_regen='N_mp_soft_regen', N_mp_after_soft_regen='N_mp_after_soft_regen', N_mp_async_regen='N_mp_async_regen', N_mp_after_async_regen='N_mp_after_async_regen', charge='cloud_charge',
    mass='cloud_mass', flag_lifetime_hist='flag_lifetime_hist', name='cloud_name')
COMMON_SEY = ['E_th', 'sigmafit', 'mufit', 'switch_no_increase_energy', 'thresh_low_energy', 'secondary_angle_distribution']
SAVER_CLOUD = '''r_center Dt_En_hist logfile_path progress_path flag_detailed_MP_info flag_movie flag_sc_movie save_mp_state_time_file dec_fac_secbeam_prof el_density_probes save_simulation_state_time_file
x_min_hist_det x_max_hist_det y_min_hist_det y_max_hist_det Dx_hist_det filen_main_outp flag_cos_angle_hist cos_angle_width cloud_name flag_lifetime_hist Dt_lifetime_hist save_only'''.split()
SAVER_MAIN = '''dec_fact_out stopfile save_mat_every checkpoint_DT checkpoint_folder copy_main_outp_folder copy_main_outp_DT extract_sey step_by_step_custom_observables pass_by_pass_custom_observables
save_once_custom_observables extract_ene_dist ene_dist_test_E_impact_eV Nbin_extract_ene factor_ene_dist_max'''.split()
BEAM_ARGS = '''flag_bunched_beam fact_beam coast_dens beam_field_file b_spac sigmaz t_offs filling_pattern_file Dh_beam_field f_telescope_beam target_grid_beam N_nodes_discard_beam N_min_Dh_main_beam
sigmax sigmay x_beam_pos y_beam_pos save_beam_field_file_as Nx Ny nimag'''.split()


def check_cloud(env, c, par, main, built, chamb, beamtim, secs, kind, last, several, cham_kind):
    L = 'parameters of its own cloud'
    mp = c.MP_e
    args(env, mp, {a: par[p] for a, p in SIZES.items()}, L + ' (macroparticles)')
    env.check(mp.arg['chamb'] is chamb, 'same chamber for every component')
    sey = c.impact_man.arg['sey_mod']
    env.check(sey.kind == kind, 'emission model of the cloud')
    if kind != 'perfect_absorber':
        args(env, sey, {k: par[k] for k in COMMON_SEY}, L + ' (emission)')
        if kind not in ('from_file', 'furman_pivi'): args(env, sey, {k: par[k] for k in ('Emax', 'del_max', 'R0')}, L + ' (emission)')
        if kind in ('ECLOUD', 'from_file', 'furman_pivi'): args(env, sey, {k: par[k] for k in ('flag_costheta_delta_scale', 'flag_costheta_Emax_shift')}, L + ' (emission)')
        if par['E0'] is not None: args(env, sey, dict(E0=par['E0']), L + ' (emission)')
        if par['s_param'] is not None: args(env, sey, dict(s=par['s_param']), L + ' (emission)')
        if kind == 'furman_pivi': args(env, sey, dict(furman_pivi_surface=par['furman_pivi_surface']), L + ' (emission)')
        if kind == 'from_file': env.check(os.path.basename(sey.arg['sey_file']) == par['sey_file'] + par.get('_sey_ext', ''), L + ' (emission): table')
        if kind.startswith('ECLOUD_nunif'): env.check(sey.arg['chamb'] is chamb, 'same chamber for every component')
    args(env, c.impact_man, {k: par[k] for k in ('Dx_hist', 'scrub_en_th', 'Nbin_En_hist', 'En_hist_max', 'Nbin_lifetime_hist', 'lifetime_hist_max', 'flag_lifetime_hist', 'flag_En_hist_seg', 'cos_angle_width')}, L + ' (impacts)')
    env.check(c.impact_man.arg['chamb'] is chamb, 'same chamber for every component')
    env.check(bool(c.impact_man.arg['flag_seg']) == (cham_kind != 'ellip' and bool(par['flag_hist_impact_seg'] == 1)), 'histogram per segment of the wall')
    if bool(par['gas_ion_flag'] == 1):
        args(env, c.resgasion, {k: par[k] for k in ('unif_frac', 'P_nTorr', 'sigma_ion_MBarn', 'Temp_K', 'E_init_ion', 'flag_lifetime_hist')}, L + ' (gas)')
        env.check(c.resgasion.arg['chamb'] is chamb, 'same chamber for every component')
    else: env.check(c.resgasion is None, 'no gas ionization unless asked for')
    f = par['photoem_flag']
    if f in (0,): env.check(c.phemiss is None, 'no photoemission unless asked for')
    else:
        k3 = {1: 1, 2: 2, 'from_file': 2, 3: 3, 'per_segment': 3}[f]
        ph = c.phemiss
        env.check(ph.kind == 'photo%d' % k3, 'photoemission model of the cloud')
        names = ['k_pe_st', 'e_pe_sigma', 'e_pe_max', 'energy_distribution', 'photoelectron_angle_distribution', 'flag_continuous_emission']
        if k3 == 1: names += ['inv_CDF_refl_photoem_file', 'refl_frac', 'alimit', 'x0_refl', 'y0_refl', 'out_radius']
        if k3 == 2: names += ['inv_CDF_all_photoem_file', 'out_radius']
        args(env, ph, {k: par[k] for k in names}, L + ' (photoemission)')
        if k3 < 3: args(env, ph, dict(resc_fac=par['phem_resc_fac']), L + ' (photoemission)'); env.check(ph.arg['chamb'] is chamb, 'same chamber for every component')
        else:
            env.check(ph.arg['chamb'].kind == 'photo_chamb' and os.path.basename(ph.arg['chamb'].arg['filename_chm']) == par['filename_chm_photoem'] + par.get('_pch_ext', ''), L + ' (photoemission): chamber')
            env.check(ph.arg['chamb'].arg.get('compared') is chamb, 'photoemission chamber is compared with the chamber')
        env.check(ph.arg['beamtim'] is beamtim, 'photoemission follows the main beam')
    n = dict((x, y) for x, y in mp.calls)
    env.check(len(n) == len(mp.calls), 'each initial distribution is added once')
    want = [a for a, b in (('add_uniform_MP_distrib', bool(par['init_unif_flag'] == 1)), ('add_uniform_ele_density', bool(par['init_unif_edens_flag'] == 1)), ('add_from_file', par['filename_init_MP_state'] is not None)) if b]
    env.check(sorted(n) == sorted(want), 'initial distributions asked for')
    table = dict(add_uniform_MP_distrib=dict(DNel='Nel_init_unif', E_init='E_init_unif', x_max='x_max_init_unif', x_min='x_min_init_unif', y_max='y_max_init_unif', y_min='y_min_init_unif'),
                 add_uniform_ele_density=dict(n_ele='init_unif_edens', E_init='E_init_unif_edens', x_max='x_max_init_unif_edens', x_min='x_min_init_unif_edens', y_max='y_max_init_unif_edens', y_min='y_min_init_unif_edens'),
                 add_from_file=dict(filename_MPs='filename_init_MP_state'))
    for a in n:
        if a in want: called(env, (a, n[a]), {x: par[p] for x, p in table[a].items()}, L + ' (initial distribution)')
    s = c.pyeclsaver
    env.check(len(s.calls) == 1, 'each cloud has its own saver')
    called(env, s.calls[0], {k: par[k] for k in SAVER_CLOUD}, L + ' (saver)')
    called(env, s.calls[0], {k: main[k] for k in SAVER_MAIN}, 'common parameters (saver)')
    same(env, s.calls[0][1].get('Dt_ref'), main['Dt'], 'time step of the saver')
    k = s.calls[0][1]
    env.check(k.get('MP_e') is mp and k.get('impact_man') is c.impact_man and k.get('beamtim') is beamtim, 'the saver observes the components of its cloud')
    env.check(bool(k.get('flag_presence_sec_beams', False)) == bool(secs) and list(k.get('sec_beams_list', [])) == list(secs), 'the saver knows the secondary beams')
    env.check(bool(k.get('flag_last_cloud', True)) == last and bool(k.get('flag_multiple_clouds', False)) == several, 'the saver knows its place among the clouds')
    env.check(bool(k.get('flag_electric_energy', False)) == (main['Dh_electric_energy'] is not None) and bool(k.get('flag_cross_ion', False)) == (main['cross_ion_definitions'] is not None), 'the saver knows what is recorded')
    args(env, s, dict(logfile_path=par['logfile_path']), L + ' (saver)')
    same(env, c.name, par['cloud_name'], 'name of the cloud')
    for a in ('gas_ion_flag', 't_ion', 'photoem_flag'): same(env, getattr(c, a), par[a], L)


def check_dynamics(env, d, track, par, main, b_par):
    env.check(d.kind == track, 'tracker of the simulation')
    if track == 'BorisMultipole':
        args(env, d, dict(Dt=main['Dt'], N_sub_steps=par['N_sub_steps'], B_multip=main['B_multip'], B_skew=main['B_skew'], B0x=main['B0x'], B0y=main['B0y'], B0z=main['B0z']), 'parameters of the tracker')
    elif track == 'Boris':
        z = lambda k: env.q(0) if main[k] is None else main[k]
        args(env, d, dict(Dt=main['Dt'], N_sub_steps=par['N_sub_steps'], B_map_file=main['B_map_file'], fact_Bmap=main['fact_Bmap'], B0x=z('B0x'), B0y=z('B0y'), B0z=z('B0z')), 'parameters of the tracker')
    elif track == 'StrongBgen':
        args(env, d, {k: main[k] for k in ('Dt', 'B0x', 'B0y', 'B_map_file', 'fact_Bmap', 'B_zero_thrhld')}, 'parameters of the tracker')
    else:
        same(env, d.arg['Dt'], main['Dt'], 'parameters of the tracker')
        if b_par is None: same(env, d.arg['B'], main['B'], 'parameters of the tracker')
        else: env.le(abs(d.arg['B'] * main['bm_totlen'] - b_par), abs(b_par) / 10**8, 'bending field from momentum and bending length')


Q = [
    dict(models=['ECLOUD', 'perfect_absorber'], photo=[0, 1], cham='rect', track='BorisMultipole', secs=1, optics=True),
    dict(models=['ECLOUD_nunif', 'furman_pivi', 'ACC_LOW'], photo=['from_file', 0, 'per_segment'], cham='polyg', track='Boris'),
    dict(models=['cos_low_ene', 'from_file'], photo=[3, 2], cham='ellip', track='Boris', none=True, secs=2),
    dict(models=['ECLOUD_nunif_charging'], photo=[1], cham='polyg_cython', track='StrongBgen'),
    dict(models=['flat_low_ene'], photo=[0], cham='rect', track='StrongBdip'),
    dict(models=[0], photo=[0], cham='rect', track='StrongBdip', dipole=True),
    dict(models=[1, 'ECLOUD'], photo=[2, 3], cham='ellip', track='BorisMultipole', em=True),
]
ALLM = ['ECLOUD', 0, 1, 'ACC_LOW', 'ECLOUD_nunif', 'ECLOUD_nunif_charging', 'cos_low_ene', 'flat_low_ene', 'from_file', 'furman_pivi', 'perfect_absorber']


@harness('C20', Q, Q + [dict(models=[a, b], photo=[i % 4, (i + 1) % 4], cham=['rect', 'polyg', 'ellip'][(i + j) % 3], track=['Boris', 'BorisMultipole'][j % 2], secs=i % 3) for i, a in enumerate(ALLM) for j, b in enumerate(ALLM)])
def wiring(env, models, photo, cham, track, none=False, secs=0, dipole=False, em=False, optics=False):
    """every component is built from the parameters of its own cloud or beam"""
    nunif = any(isinstance(m, str) and m.startswith('ECLOUD_nunif') for m in models)
    over = dict(DECK, chamb_type=cham, track_method=track, filen_main_outp='out.mat', cloud_name='main', secondary_beams_file_list=['sb%d.beam' % i for i in range(secs)],
                additional_clouds_file_list=['c%d.cloud' % i for i in range(1, len(models))], B_multip=[env.real('B1'), env.real('B2')], B_skew=None, el_density_probes=(), save_mat_every=env.q(2), flag_em_tracking=em,
                cross_ion_definitions=dict(a=1) if len(models) > 1 else None)
    if optics: over.update({k: env.real('m_' + k, 1, 9) for k in ('betafx', 'betafy', 'Dx', 'Dy')})
    if none: over.update(B0x=None, B0z=None, Dh_electric_energy=None)
    def cloud_over(i):
        m = models[i]
        d = dict(switch_model=m, photoem_flag=photo[i], gas_ion_flag=env.choice('gas%d' % i, [0, 1]), init_unif_flag=i % 2, init_unif_edens_flag=1 - i % 2, flag_hist_impact_seg=1 - i % 2 if not none else 1,
                 flag_lifetime_hist=bool((i + len(models)) % 2), flag_cos_angle_hist=bool(i % 2))
        if m not in ('ECLOUD', 0): d['s_param'] = None
        if m not in ('ECLOUD', 0, 1, 'ACC_LOW', 'ECLOUD_nunif', 'cos_low_ene'): d['E0'] = None
        if none: d.update(E0=None, s_param=None, filename_init_MP_state=None)
        return d
    pars = []
    base = values(env, SIM + MACHINE + SEY, 'm_', dict(over, **cloud_over(0)))
    if track.startswith('Strong'): base.update(cloud_charge=num(env, -QE), cloud_mass=num(env, ME_))
    if track == 'StrongBdip': base.update(B=env.real('B', 0, 9))
    if dipole: base.update(B=-1, bm_totlen=env.real('bm', 1, 9))
    contents = {'simulation_parameters.input': {k: base[k] for k in SIM}, 'm.input': {k: base[k] for k in MACHINE}, 's.input': {k: base[k] for k in SEY}}
    pars.append(dict(base, filen_main_outp='out_main.mat'))
    for i in range(1, len(models)):
        d = values(env, CLOUD_MANDATORY + PER_CLOUD, 'c%d_' % i, cloud_over(i))
        if i == 2:
            for k in ('Dx_hist', 'E_th', 'progress_path', 'fact_split'): del d[k]
        contents['c%d.cloud' % i] = d
        pars.append(dict(base, **d))
        pars[-1].update(cloud_name='c%d' % i, filen_main_outp='out_c%d.mat' % i)
    gam = GAMMA[1]
    bpars = []
    for i in range(secs + 1):
        b = sym(env, BEAM, 'b%d_' % i)
        b.update(energy_eV=num(env, gam[0] * MP_ * C_ * C_ / QE), m0_part=num(env, MP_), beam_long_prof_file='prof%d' % i if i != 1 else -1, sigmax=env.real('sx%d' % i, 1, 2), sigmay=env.real('sy%d' % i, 1, 2))
        if optics:
            b.update(sigmax=-1, sigmay=-1, betafx=None, betafy=None, Dx=None, Dy=None, Dp_p=env.q(i + 1, 4), nemittx=env.real('nx%d' % i, 1, 9), nemitty=env.real('ny%d' % i, 1, 9))
        if i == 2: b['beam_long_prof_file'] = 'prof2'
        bpars.append(b)
        contents['b.beam' if i == 0 else 'sb%d.beam' % (i - 1)] = b
    if secs and not none: base['progress_path'] = pars[0]['progress_path'] = contents['simulation_parameters.input']['progress_path'] = None
    folder = env.path('in')
    places = env.choice('places', ['name', 'mat', 'elsewhere']) if len(models) > 1 or secs else 'name'
    ext = dict(name='', mat='.mat', elsewhere='')[places]
    if places != 'elsewhere':
        for f in [p['sey_file'] for p in pars] + [p['filename_chm_photoem'] for p in pars] + [base['filename_chm']] + ['prof0', 'prof2'][:2 if secs > 1 else 1]: env.put_file('in/' + f + ext, dict(a=env.array([env.q(1)])))
    at = lambda f: f if places == 'elsewhere' else folder + '/' + f + ext
    for p in pars: p['_sey_ext'] = p['_pch_ext'] = ext
    extra = dict(beam=dict(N_pass_tot=4, t=env.array([env.q(0), env.q(1)])), sc=dict(rho=env.array([env.real('rho')])), sc_em=dict(rho=env.array([env.real('rho')])), saver=dict(filen_main_outp='x'))
    for c in ('rect', 'polyg', 'ellip'): extra[c] = dict(area=env.real('area'), N_vert=4)
    files(env, contents)
    I, built = record(env, extra)
    res = I.read_input_files_and_init_components(folder)
    beamtim, spc, t_sc_ON, flag_sec, sec_list, config, flag_mult, clouds, chk, cross, reinterp = res
    of = lambda k: [b for b in built if b.kind == k]
    ck = 'polyg' if cham.startswith('polyg') else cham
    env.check([b.kind for b in built if b.kind in ('rect', 'polyg', 'ellip')] == [ck], 'one chamber')
    chamb = of(ck)[0]
    if ck == 'polyg':
        env.check(chamb.arg['filename_chm'] == at(base['filename_chm']), 'chamber file')
        args(env, chamb, dict(flag_assume_convex=base['flag_assume_convex']), 'chamber')
        env.check(bool(chamb.arg['flag_non_unif_sey']) == nunif, 'wall properties are read for the models that need them')
    else:
        args(env, chamb, dict(x_aper=base['x_aper'], y_aper=base['y_aper']), 'chamber')
    # beams
    beams = of('beam')
    env.check(len(beams) == secs + 1 and beams[0] is beamtim and list(sec_list) == beams[1:] and bool(flag_sec) == (secs > 0), 'one object per beam')
    for i, (b, p) in enumerate(zip(beams, bpars)):
        args(env, b, {k: p[k] for k in BEAM_ARGS if not (optics and k in ('sigmax', 'sigmay'))}, 'parameters of its own beam')
        for a in 'xy' if optics else '':
            s2 = base['betaf' + a] * p['nemitt' + a] / num(env, gam[0] * gam[1]) + base['D' + a]**2 * p['Dp_p']**2
            env.le(abs(b.arg['sigma' + a]**2 - s2), s2 / 10**8, 'size from the optics of the machine')
        args(env, b, dict(beam_charge=p['q_part'], lam_th_beam_field=base['lam_th'], Dt=base['Dt'], t_end=base['t_end']), 'parameters of the beam')
        f = p['beam_long_prof_file']
        got = b.arg['beam_long_prof_file']
        same(env, got, f if f == -1 else at(f), 'profile of its own beam')
        env.check(b.arg['chamb'] is chamb, 'same chamber for every component')
        env.check(bool(b.arg['flag_secodary_beam']) == (i > 0), 'secondary beams follow the main one')
        if i: env.check(b.arg['t_primary_beam'] is beamtim.t, 'secondary beams use the times of the main beam')
    names = [b.arg['progress_mapgen_file'] for b in beams]
    if base['progress_path'] is None: env.check(all(n is None for n in names), 'no progress file unless asked for')
    else: env.check(len(set(names)) == len(names) and all(n.startswith(base['progress_path']) for n in names), 'progress file of each beam')
    # space charge
    env.check([b.kind for b in built if b.kind in ('sc', 'sc_em')] == ['sc_em' if em else 'sc'] and of('sc_em' if em else 'sc')[0] is spc, 'one space-charge object')
    args(env, spc, dict(Dh=base['Dh_sc'], Dt_sc=base['Dt_sc'], sparse_solver=base['sparse_solver'], PyPICmode=base['PyPICmode'], f_telescope=base['f_telescope'], target_grid=base['target_grid'],
         N_nodes_discard=base['N_nodes_discard'], N_min_Dh_main=base['N_min_Dh_main'], Dh_U_eV=base['Dh_electric_energy']), 'space charge')
    env.check(spc.arg['chamb'] is chamb, 'same chamber for every component')
    if em: env.near(spc.arg['gamma'], num(env, gam[0]), 'relativistic factor of the beam', 1e-9)
    # clouds
    env.check(len(clouds) == len(models) and bool(flag_mult) == (len(models) > 1), 'one object per cloud')
    env.check(len(of('mp')) == len(models) and len(of('imp')) == len(models) and len(of('saver')) == len(models), 'components of each cloud')
    for i, (c, p) in enumerate(zip(clouds, pars)):
        m = {0: 'ECLOUD', 1: 'ACC_LOW'}.get(models[i], models[i])
        check_cloud(env, c, p, base, built, chamb, beamtim, beams[1:], m, i == len(models) - 1, len(models) > 1, ck)
        mom = num(env, gam[1] * gam[0] * MP_ * C_ / QE) * num(env, Fraction('6.283185307179586')) if dipole else None
        check_dynamics(env, c.dynamics, track, p, base, mom)
        env.eq(c.rho[0], 0, 'each cloud starts without charge')
    env.check(len({id(c.MP_e) for c in clouds}) == len(clouds) and len({id(c.dynamics) for c in clouds}) == len(clouds) and len({id(c.pyeclsaver) for c in clouds}) == len(clouds), 'clouds share no component')
    same(env, t_sc_ON, base['t_sc_ON'], 'start of space charge')
    same(env, chk, base['checkpoint_folder'], 'checkpoint folder')
    same(env, reinterp, base['flag_reinterp_fields_at_substeps'], 'interpolation at substeps')
    if base['cross_ion_definitions'] is None: env.check(cross is None, 'no cross ionization unless asked for')
    else:
        env.check(cross.arg['cross_ion_definitions'] == dict(a=1) and list(cross.arg['cloud_list']) == list(clouds), 'cross ionization between all clouds')
        same(env, cross.arg['chamber_area'], chamb.area, 'cross ionization in the chamber')
    for k in SIM + MACHINE + SEY: same(env, config[k], base[k], 'the configuration is reported as given')


def small(env, **over):
    """one electron cloud with every parameter given"""
    base = values(env, SIM + MACHINE + SEY, 'm_', dict(DECK, chamb_type='rect', track_method='Boris', filen_main_outp='o.mat', cloud_name=None, secondary_beams_file_list=(), additional_clouds_file_list=(), switch_model=0,
                  photoem_flag=0, gas_ion_flag=0, init_unif_flag=0, init_unif_edens_flag=0, flag_hist_impact_seg=0, flag_lifetime_hist=False, save_mat_every=2, flag_em_tracking=False, filename_init_MP_state=None))
    base.update(over)
    b = sym(env, BEAM)
    b.update(energy_eV=num(env, GAMMA[1][0] * MP_ * C_ * C_ / QE), m0_part=num(env, MP_), sigmax=env.real('sx', 1, 2), sigmay=env.real('sy', 1, 2), beam_long_prof_file=-1)
    spec = files(env, {'simulation_parameters.input': {k: base[k] for k in SIM}, 'm.input': {k: base[k] for k in MACHINE}, 's.input': {k: base[k] for k in SEY}, 'b.beam': b})
    extra = dict(beam=dict(N_pass_tot=4, t=env.array([env.q(0)])), saver=dict(filen_main_outp='x'), rect=dict(area=env.q(1)))
    I, built = record(env, extra)
    return I, built, base, spec


KW = ['nel_mp_ref_0', 'B0y', 'Dt', 'Dx_hist', 'fact_clean', 'Dt_sc', 'E_th', 'x_aper', 'lam_th', 't_sc_ON', 'filen_main_outp', 'save_only']


@harness('C20', [dict(skip=s) for s in (False, True)])
def override(env, skip):
    """arguments override the files; unknown ones are rejected"""
    I, built, base, spec = small(env)
    k = env.choice('name', KW)
    v = STRINGS.get(k) or ('other.mat' if k == 'filen_main_outp' else env.real('override'))
    kw = {k: v, 'ignored': 3}
    flags = dict(skip_beam=True, skip_pyeclsaver=True, skip_spacech_ele=True) if skip else {}
    res = I.read_input_files_and_init_components(env.path('in'), ignore_kwargs=('ignored',), **kw, **flags)
    cfg = res[5]
    for p in SIM + MACHINE + SEY: same(env, cfg[p], v if p == k else base[p], 'the argument overrides the file, the rest stays')
    par = dict(base, **{k: v})
    par['cloud_name'] = 'default'
    c = res[7][0]
    args(env, c.MP_e, {a: par[p] for a, p in SIZES.items()}, 'overridden value reaches the component')
    args(env, c.impact_man, dict(Dx_hist=par['Dx_hist'], scrub_en_th=par['scrub_en_th']), 'overridden value reaches the component')
    args(env, c.impact_man.arg['sey_mod'], dict(E_th=par['E_th']), 'overridden value reaches the component')
    check_dynamics(env, c.dynamics, 'Boris', par, par, None)
    if skip:
        env.check(res[0] is None and res[1] is None and c.pyeclsaver is None and list(res[4]) == [] and not any(b.kind in ('beam', 'sc', 'saver') for b in built), 'parts left out are not built')
        env.check(c.rho is None, 'no charge without space charge')
    else:
        args(env, res[0], dict(Dt=par['Dt'], lam_th_beam_field=par['lam_th']), 'overridden value reaches the component')
        args(env, res[1], dict(Dt_sc=par['Dt_sc']), 'overridden value reaches the component')
    same(env, res[2], par['t_sc_ON'], 'overridden value reaches the component')


@harness('C20', [dict(bad=b) for b in ('argument', 'chamber', 'tracker', 'model', 's_param', 'lifetime', 'save_every', 'strongB', 'em', 'photo')])
def refused(env, bad):
    """inconsistent configurations are refused, not changed silently"""
    over, kw, exc = {}, {}, (Exception,)
    if bad == 'argument': kw = {env.choice('name', ['dt', 'nothing', 'sigmax']): env.real('v')}
    if bad == 'chamber': over = dict(chamb_type=env.choice('name', ['circle', 'Rect', 0]))
    if bad == 'tracker': over = dict(track_method=env.choice('name', ['boris', 'None', 0]))
    if bad == 'model': over = dict(switch_model=env.choice('name', ['ecloud', 2, 'Furman']), s_param=None)
    if bad == 's_param': over = dict(switch_model=env.choice('name', [1, 'ACC_LOW', 'cos_low_ene', 'furman_pivi', 'from_file']))
    if bad == 'lifetime': over = dict(flag_lifetime_hist=True, **{env.choice('name', ['Nbin_lifetime_hist', 'lifetime_hist_max', 'Dt_lifetime_hist']): None})
    if bad == 'save_every': over = dict(save_mat_every=env.choice('name', [3, 5, 8]))
    if bad == 'strongB':
        over = dict(track_method=env.choice('name', ['StrongBdip', 'StrongBgen']), cloud_charge=num(env, -QE), cloud_mass=num(env, ME_))
        q = env.real('ratio', -9, 9)
        env.assume(abs(q - 1) >= env.q(1, 100))
        p = env.choice('parameter', ['cloud_charge', 'cloud_mass'])
        over[p] = over[p] * q
    if bad == 'em': over = dict(flag_em_tracking=True, track_method=env.choice('name', ['Boris', 'StrongBdip', 'StrongBgen']), cloud_charge=num(env, -QE), cloud_mass=num(env, ME_))
    I, built, base, spec = small(env, **over)
    if bad == 'photo':
        env.mod('gen_photoemission_class')
        base.update(photoem_flag=env.choice('name', [3, 'per_segment']))
        spec.import_module_from_file = (lambda old: lambda n, f: _with(old(n, f), 'photoem_flag', base['photoem_flag']))(spec.import_module_from_file)
        g = env.mod('geom_impact_poly_fast_impact')
        rec = g.polyg_cham_photoemission
        def wrong(*a, **k):
            o = rec(*a, **k)
            o.vertexes_are_subset = lambda ch: False
            return o
        g.polyg_cham_photoemission = wrong
    env.check(env.raises(exc, I.read_input_files_and_init_components, env.path('in'), **kw), 'an inconsistent configuration is refused')


def _with(m, k, v):
    if hasattr(m, k): setattr(m, k, v)
    return m
