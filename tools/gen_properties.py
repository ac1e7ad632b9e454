#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit the table here, not the jsonl)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Cleaning, adding and exporting macroparticles never mixes or loses particle data",
  "Removing small macroparticles removes exactly those whose charge is below the cleaning threshold; every survivor keeps its own position, velocity, charge and last-impact time together and in the original order, and no charge is left behind in unused storage. Appending macroparticles (directly, from a saved state, or as uniform distributions) leaves existing ones untouched and stores each new one with exactly the given data, and exporting the state and re-initialising from it reproduces the same set of macroparticles with no trace of what was stored before. When no macroparticle survives cleaning, the reference size and the split and clean thresholds return to their initial values.",
  ["inputs", "histories"], "All stored particle sets, capacities, thresholds and fill levels, including stale data left in unused storage by earlier operations.",
  "The tests only run a few fixed simulations to completion and assert nothing about individual particles; masks with particular survivor patterns and stale storage are never compared.",
  ["MP_system.py"], [("cleaning", "MP_system.clean_small_MPs"), ("append", "MP_system.add_new_MPs / add_from_file"), ("export/import", "MP_system.extract_dict / init_from_dict"), ("uniform distributions", "MP_system.add_uniform_MP_distrib / add_uniform_ele_density")])

prop("C02", "Soft and asynchronous regeneration conserve the total charge",
  "When the number of macroparticles exceeds the configured limit, soft regeneration keeps a subset of the macroparticles with unchanged positions, velocities and last-impact times, multiplies all surviving charges by one common factor so that the total charge is unchanged, and sets the reference size to the larger of the initial one and total charge over target number, with split and clean thresholds scaled along. It does nothing when the limit is not exceeded; the asynchronous variant first cleans small macroparticles and then does the same only if the limit is still exceeded.",
  ["inputs", "histories"], "All particle sets, limits, targets and outcomes of the random survivor selection that keep at least one macroparticle.",
  "Random selection: a test sees one seed and one survivor pattern, and none of the 19 tests compares charge before and after.",
  ["MP_system.py"], [("soft regeneration", "MP_system.perform_soft_regeneration / check_for_soft_regeneration"), ("async regeneration", "MP_system.check_for_async_regeneration")])

prop("C03", "Full regeneration rebuilds the cloud cell by cell inside the chamber",
  "Full regeneration runs exactly when the macroparticle count exceeds the upper limit, or is below the lower limit while the reference size is above its initial value. Afterwards every macroparticle has the new reference size (total charge over target number, never below the initial one), lies inside the chamber, and belongs to a phase-space cell that held charge before, within half a cell in every coordinate; each cell receives the integer part of its charge over the reference size, plus at most one more taken with the fractional part as probability. The stored count equals the number generated, no charge is left in unused storage, and last-impact times are reset.",
  ["inputs", "histories"], "All particle sets, grid sizes and random numbers (rejection of points outside the chamber included), within the bounds stated for the check.",
  "Only long simulations reach regeneration and no test asserts on its outcome; grid parity and rejected positions are input dependent.",
  ["MP_system.py", "compute_hist.f"], [("full regeneration", "MP_system.check_for_regeneration")])

prop("C04", "The inside/outside test agrees exactly with the chamber geometry",
  "For elliptical, rectangular and polygonal chambers (convex or not, both with the compiled and the pure Python implementation) a point is reported outside exactly when it lies outside or on the wall defined by the chamber description (only the test for polygons of any shape may report points exactly on the wall either way). Convexity is detected exactly, polygon vertices with the wrong orientation or ending in the closing vertex are rejected or normalised, and the chamber apertures bound every inside point.",
  ["inputs", "configurations"], "All points and all simple polygons within the stated number of vertices, all ellipse and rectangle sizes.",
  "A test samples a few shapes with a few points; edge/vertex alignments of ray casting need specific coordinates.",
  ["geom_impact_ellip.py", "geom_impact_poly.py", "geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx", "geom_impact_rect_fast_impact.py"],
  [("ellipse", "ellip_cham_geom_object.is_outside"), ("polygon", "polyg_cham_geom_object.is_outside, is_outside_convex/_nonconvex"), ("rectangle", "rect_cham_geom_object.is_outside"), ("compiled ray casting", "geom_impact_poly_cython.is_outside")])

prop("C05", "Wall impacts are placed on the particle's path, inside, with the right normal",
  "For a macroparticle that moved from inside to outside the chamber, the computed impact point lies on the straight segment travelled, is not outside the chamber, and is where the segment first meets the wall (up to the documented safety factor); the returned normal is the unit inward normal at that point and the returned wall segment is the one that was hit (none for an ellipse).",
  ["inputs", "configurations"], "All start points inside, end points outside and chamber shapes within the stated vertex bounds, including paths that end exactly on the wall or pass through vertices.",
  "Only trajectories of the sampled simulations are reached; results are never compared to geometry.",
  ["geom_impact_ellip.py", "geom_impact_poly.py", "geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx", "geom_impact_rect_fast_impact.py"],
  [("ellipse backtracking", "ellip_cham_geom_object.impact_point_and_normal"), ("polygon backtracking", "geom_impact_poly_cython.impact_point_and_normal and its Python counterparts"), ("rectangle", "rect_cham_geom_object.impact_point_and_normal")])

prop("C06", "Charge emitted at the wall equals yield times impinging charge",
  "When macroparticles hit the wall, the total charge left in the cloud equals the charge that did not hit plus, for each impact, the impinging charge multiplied by the secondary yield that was used, however it is divided between the rescaled impacting macroparticle and newly created ones (for the multi-component model: times the number of emitted electrons; for an absorber: zero). A reflected electron stays one macroparticle; true secondaries are divided so that every macroparticle is within the splitting limit implied by the reference size (in the multi-component model none is bigger than the impinging one). Emitted macroparticles start on or inside the wall at the impact point, and macroparticles that did not hit are untouched.",
  ["inputs", "histories"], "All impact charges, energies, angles, yields, split thresholds and random draws within the stated particle and split counts, for every emission model.",
  "Splitting depends on charge ratios the test simulations reach only by accident, and no test compares charge in and out.",
  ["impact_management_class.py", "sec_emission_model_ECLOUD.py", "sec_emission_model_furman_pivi.py", "sec_emission_model_from_file.py", "sec_emission_model_cos_low_ener.py", "sec_emission_model_flat_low_ener.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_ECLOUD_nunif.py", "sec_emission_model_perfect_absorber.py"],
  [("wall interaction", "impact_management.backtrack_and_second_emiss"), ("emission models", "SEY_model_*.impacts_on_surface")])

prop("C07", "Secondary yield curves are non-negative and follow their defining law",
  "For every impact energy and angle each yield model returns a non-negative finite total yield and a fraction of elastic reflections between zero and one, equal to the documented law (energy and maximum scaled with angle, reflectivity R0 at zero energy, tabulated models interpolating their table and extrapolating as documented). Segment-dependent models use the parameters of the segment that was hit, accumulate charge on that segment only, let it decay with the configured time constant, and limit the yield of charged segments as documented.",
  ["inputs", "configurations"], "All energies, angles of incidence, surface parameters, tables and segment assignments within the stated bounds.",
  "Tests run one or two surfaces and never evaluate the curve; segments with different parameters are not covered.",
  ["sec_emission_model_ECLOUD.py", "sec_emission_model_from_file.py", "sec_emission_model_cos_low_ener.py", "sec_emission_model_flat_low_ener.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_ECLOUD_nunif.py"],
  [("yield functions", "yield_fun2 / yield_fun_furman_pivi / SEY_process"), ("charging surfaces", "SEY_model_ECLOUD_non_unif_charging")])

prop("C08", "Emitted electrons leave the wall inwards with the drawn energy",
  "Every electron emitted from the wall or reflected has velocity pointing into the chamber (non-negative component along the inward normal) and kinetic energy equal to the one drawn for it; elastically reflected electrons keep exactly their impact energy and mirror-like kinematics where specified, and true secondaries never exceed the configured energy threshold nor, when no energy increase is requested, the impact energy.",
  ["inputs"], "All impact velocities, wall normals (unit), energies, masses and random draws of the implemented angle and energy distributions.",
  "Random directions and normals: a run samples a handful and nothing checks the result.",
  ["electron_emission.py", "sec_emission_model_ECLOUD.py"],
  [("angular laws", "electron_emission velocities_angle_*"), ("specular reflection", "electron_emission.specular_velocity"), ("energy distribution", "electron_emission.sec_energy_hilleret_model2 and get_energy_distribution_func")])

prop("C09", "The Boris trackers do no magnetic work and agree with each other",
  "In every implementation of the Boris tracker a magnetic field alone never changes a particle's kinetic energy, an electric field alone gives exactly the constant-acceleration momentum change, and a step that is split into sub-steps advances the particle for the same total time. The compiled trackers (uniform or interpolated field and multipole field) give the same result for the same field, and the multipole tracker's field is the one implied by its normal and skew coefficients at the particle's position.",
  ["inputs", "configurations"], "All positions, velocities, charges, masses, fields, multipole coefficients up to the stated order and sub-step counts up to the stated bound.",
  "Native loops run in tests only on a few trajectories with fixed fields; no energy or agreement check is made.",
  ["boris_step.f", "boris_c_function.c", "boris_cython.pyx", "dynamics_Boris_f2py.py", "dynamics_Boris_multipole.py"],
  [("Fortran pusher", "boris_step.f"), ("C multipole pusher", "boris_c_function.c boris_c"), ("wrappers", "pusher_Boris.step/stepcustomDt, pusher_Boris_multipole"), ("B maps", "B_none/B_quad/B_file in dynamics_Boris_f2py.py")])

prop("C10", "Strong-field trackers follow the analytic motion in a uniform dipole",
  "The dipole trackers move every particle exactly as the analytic solution of the motion in uniform magnetic field plus constant electric field over the step, conserve kinetic energy when the electric field vanishes, move freely along the field lines, and reduce to field-free motion where the magnetic field is below the configured threshold.",
  ["inputs", "configurations"], "All positions, velocities, electric fields and dipole strengths.",
  "No test in the suite uses these trackers against an analytic oracle.",
  ["dynamics_dipole.py", "dynamics_strong_B_generalized.py", "sincc_cosincc_cubsincc.py"],
  [("dipole", "pusher_dipole_magnet.step"), ("generalized", "pusher_strong_B_generalized.step")])

prop("C11", "Scatter, interpolation and histogram kernels conserve charge and are exact",
  "Depositing macroparticle charge on the grid distributes exactly each particle's charge over the corners of its cell with non-negative weights and touches nothing else; interpolating grid fields reproduces node values and linear fields exactly inside the grid, and returns zero outside; histogramming puts each weight entirely into adjacent bins of its coordinate and the total equals the total weight. All kernels stay inside their arrays for any coordinates inside the documented range.",
  ["inputs"], "All particle positions and charges, grid origins, spacings and field values within the stated array sizes.",
  "Index arithmetic at cell borders and grid edges depends on exact coordinates; the tests do not assert on kernels.",
  ["compute_rho.f", "interp_field_for.f", "compute_hist.f", "update_seg_impact.f", "vectsum.f"],
  [("deposition", "compute_sc_rho"), ("interpolation", "int_field"), ("histograms", "compute_hist, update_seg_impact")])

prop("C12", "Impact histograms and per-step totals agree with the impacts that happened",
  "Each step's recorded impacting and emitted charge and energy equal the sums over the impacts of that step, and the position, energy, angle, lifetime and per-segment histograms grow by exactly those impacts (each with its charge, in the bin of its coordinate, out-of-range values in the last bin where documented; the scrubbing histogram only counts impacts above its energy threshold). A step without impacts changes none of them. Yield curves and energy distributions extracted for output are those of the emission model, per kind of event.",
  ["inputs", "histories"], "All sets of impacts (positions, energies, angles, segments, lifetimes) within the stated sizes and all histogram configurations.",
  "Only aggregate outputs of three reference runs are looked at, with tolerances and without assertion.",
  ["impact_management_class.py", "compute_hist.f", "update_seg_impact.f"],
  [("bookkeeping", "impact_management.backtrack_and_second_emiss"), ("resets", "impact_management.reset_*/get_*")])

prop("C13", "Time advances once per profile sample and every bunch passage is detected once",
  "Advancing the simulation visits every interval between consecutive samples of the beam profile exactly once and in order, with the step length equal to the spacing of the samples and the line density of the first; each bunch passage is announced exactly once, passage numbers increase by one, and the simulation ends with the interval that the last sample closes. Generated profiles place each bunch of the filling pattern at its slot with its intensity, secondary beams follow the same time base, and the beam field is the stored map scaled by the current line density and is zero when the density is below threshold.",
  ["inputs", "configurations", "histories"], "All time bases, spacings, filling patterns, profiles, thresholds and densities within the stated lengths.",
  "Off-by-one steps change a long simulation negligibly; tests use three fixed patterns.",
  ["beam_and_timing.py", "buildup_simulation.py"],
  [("clock", "beam_and_timing.next_time_step / end_simulation"), ("profiles", "beam_and_timing.__init__"), ("beam field", "beam_and_timing.get_beam_eletric_field")])

prop("C14", "Space charge is the sum of all clouds, recomputed on schedule",
  "At each scheduled recomputation the charge density used for the field is the sum of the deposits of all clouds, each macroparticle counted once with its own charge and sign, the field is solved once after the last cloud, and the densities attributed to the individual clouds add up to the total. Recomputations happen only after the configured start time and at most once per configured interval, and between them the field is unchanged; fields seen by particles come from that solution, and in electromagnetic mode the magnetic components follow from the potentials by the documented relations.",
  ["inputs", "histories", "configurations"], "All numbers of clouds up to the bound, charges, times, intervals and recomputation flags.",
  "Multi-cloud and decimated space charge interact over histories that the fixed test runs do not vary.",
  ["space_charge_class.py", "space_charge_class_electromagnetic.py", "buildup_simulation.py"],
  [("deposit/solve", "space_charge.recompute_spchg_efield"), ("schedule", "space_charge.check_for_recomputation"), ("accumulation", "BuildupSimulation._recompute_cloud_spacecharge")])

prop("C15", "Every time step moves every cloud for exactly the step length",
  "In one simulation step each cloud is pushed for a total time equal to the step length, for every combination of sub-stepping options, with the sum of the space-charge field and all beam fields applied for exactly that time (as one kick before the motion in kick mode, and never twice). Positions used for wall crossing are those at the start of the step, and stages run in the documented order for every cloud.",
  ["configurations", "inputs", "histories"], "All combinations of sub-stepping modes, step lengths, numbers of sub-steps, beams and clouds up to the stated bounds.",
  "The tests use a few fixed option combinations and check no momentum.",
  ["buildup_simulation.py"], [("motion", "BuildupSimulation._cloud_motion"), ("step", "BuildupSimulation.sim_time_step")])

prop("C16", "Saved histories contain every step's value once, aligned and complete",
  "Step-by-step output records one sample per saved step in order, each equal to the accumulated quantity over the steps since the previous sample (or its current value), with all recorded arrays aligned in length with the time axis; pass-by-pass output has one entry per bunch passage. Decimation, growing storage and intermediate file writes lose or duplicate nothing.",
  ["histories", "configurations"], "All sequences of steps and passages, recorded values, decimation factors and storage growth points within the stated lengths.",
  "Storage growth and decimation phases depend on the run length; tests never inspect alignment.",
  ["pyecloud_saver.py"], [("step history", "pyecloud_saver._stepbystep_*"), ("pass history", "pyecloud_saver._pass_by_pass_*"), ("energy/lifetime histograms", "pyecloud_saver energy and lifetime sections")])

prop("C17", "Saving a checkpoint changes nothing and a restart continues the same history",
  "Writing a simulation state or a checkpoint leaves the running simulation exactly as it was, whatever is being recorded. Restarting from a checkpoint restores particle, beam, space-charge and accumulated-output state so that the continued histories equal those of the uninterrupted run; a crash at any point during checkpointing leaves a state from which the simulation can be restarted.",
  ["crash_points", "histories", "configurations"], "All crash points between file operations of the checkpoint sequence and all checkpoint times within the stated histories.",
  "No test crashes or restarts a run.",
  ["pyecloud_saver.py", "buildup_simulation.py"], [("checkpoint", "pyecloud_saver._checkpoint_save / _sim_state_single_save"), ("restart", "BuildupSimulation.load_state / load_checkpoint, pyecloud_saver.load_from_output")])

prop("C18", "Primary electrons are created in the right number, place and energy",
  "Residual-gas ionization and photoemission create in each step the expected number of macroparticles rounded down, or up with probability equal to the fractional part, each of the reference size, inside the chamber (photoelectrons at the wall where the photon lands, moving inwards with the drawn energy), ionization electrons with velocities drawn within the configured energy, all marked as never having hit the wall; existing macroparticles are untouched and nothing is created when the line density or pressure gives a zero rate.",
  ["inputs", "configurations"], "All line densities, rates, chamber shapes within bounds, beam offsets and random draws.",
  "Random positions and counts: one seed in a few runs; nothing asserts on positions or counts.",
  ["gas_ionization_class.py", "gen_photoemission_class.py", "MP_system.py"],
  [("ionization", "residual_gas_ionization.generate"), ("photoemission", "photoemission*.generate")])

prop("C19", "Cross-ionization conserves accounting between projectile, target and products",
  "For every configured process the number of product macroparticles generated equals the ionization probability implied by density, cross-section, speed and step (rounded down or up at random) at the position of the projectile that caused it, in each product cloud; recorded production equals what was generated, is reset every period, and cross-sections are interpolated from the table and vanish outside it.",
  ["inputs", "configurations"], "All projectile sets, cross-section tables, densities and random draws within the stated sizes.",
  "One process and one seed in the test data; no assertion on counts.",
  ["cross_ionization.py"], [("process", "Ionization_Process.generate"), ("dispatch", "Cross_Ionization.generate / save_cross_ion_data")])

prop("C20", "Configuration is resolved completely, strictly and without silent changes",
  "Every accepted input parameter takes the value the user gave (argument overrides file, additional cloud overrides main file) or else its documented default, and unknown, duplicated or missing mandatory parameters are rejected. Every component is built from the parameters of its own cloud or beam, and derived beam quantities (sizes from emittance and optics, relativistic factors, momentum and energy) are mutually consistent.",
  ["configurations"], "All assignments of parameters to files and overrides within the stated set, all numeric values of derived quantities.",
  "Tests use a handful of input decks; which parameter reaches which component is never asserted.",
  ["init.py", "parse_beam_file.py", "parse_cloud_file.py", "input_parameters_format_specification.py", "default_input_parameters.py"],
  [("validation and defaults", "input_parameters_format_specification"), ("additional clouds", "cloud_descr_from_file"), ("beams", "beam_descr_from_fil"), ("wiring", "init.read_input_files_and_init_components")])

prop("C21", "Beam-tracking coupling applies symmetric kicks and leaves the cloud reusable",
  "When a bunch is tracked through the cloud each slice receives the kick given by the cloud field at its particles times the interaction length and the cloud sees each slice once for its duration, in time order; disabling a plane leaves that plane's momenta untouched. After the passage the cloud is restored to its initial distribution so that a second identical passage sees the same cloud, and tracking with a frozen or stored field gives the kick of that field.",
  ["inputs", "histories", "configurations"], "All slice sequences, particle coordinates, offsets and enable flags within the stated sizes.",
  "The coupling tests only run to completion; restored state and kick size are not asserted.",
  ["PyEC4PyHT.py", "Transverse_Efield_map_for_frozen_cloud.py"],
  [("tracking", "Ecloud.track / _track_single_slice"), ("re-initialisation", "Ecloud._reinitialize"), ("frozen map", "Transverse_Efield_map.track")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
