"""Generates properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=["src/pystrata/" + f for f in files],
             mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Computed waves solve the layered-medium equations",
 "For every profile and every frequency away from zero, the computed up- and down-going waves satisfy the one-dimensional wave equations of the profile: equal unit amplitudes at the free surface, wave number equal to angular frequency over the layer's complex velocity, and displacement and shear stress continuous across every layer interface. At zero frequency the motion is uniform (unit waves in every layer). Both the compiled and the pure-Python implementation give this same solution.",
 ["inputs"], "all layer counts, thicknesses, complex moduli/velocities (scalar or frequency dependent) and frequency vectors, both back ends",
 "Tests compare a handful of profiles against stored reference output; the recurrence must be right for every layer count, every impedance contrast and every frequency, including the mix of zero and non-zero frequencies.",
 ["propagation.py"], [("interface recurrence, pure Python", "_calc_waves_python"), ("interface recurrence, compiled", "_calc_waves_numba"), ("property broadcast", "LinearElasticCalculator._calc_waves")],
 observe=["LinearElasticCalculator results after a run"])
prop("C02", "Transfer functions are exact ratios of the computed wave field",
 "For every pair of locations, the acceleration transfer function is the ratio of the wave fields at the two locations (twice the up-going wave for outcrop, sum of up- and down-going for within, up-going alone for incoming), so it is one from a location to itself and chains through intermediate locations. The strain transfer function is gravity times the depth derivative of the within displacement at the output over minus angular frequency squared times the input wave field, and zero at zero frequency; stress is strain times the output layer's complex (damped) or real modulus. Compiled and pure-Python implementations agree.",
 ["inputs"], "all wave fields, layers, depths within layers, input/output location pairs and frequencies, wave fields of all three kinds",
 "Tests check few layer/location combinations against stored numbers; the identities must hold for each combination of wave-field kind, depth and layer.",
 ["propagation.py"], [("wave at location", "_wave_at_location_python/_wave_at_location_numba"), ("strain TF", "_calc_strain_tf_python/_calc_strain_tf_numba"), ("accel/stress TF", "LinearElasticCalculator.calc_accel_tf/calc_stress_tf/calc_strain_tf")])
prop("C03", "Layer stiffness and damping always follow the current strain",
 "After a strain is assigned to a layer, its shear modulus equals its initial modulus (density times initial velocity squared) times the soil's modulus reduction at that strain, and its damping equals the soil's damping at that strain shifted so that the small-strain value is the layer's own minimum damping; a soil without curves keeps its initial modulus and minimum damping. Changing velocity or minimum damping, or resetting, restores the initial modulus and minimum damping. The reported error of a layer is the largest relative change, in magnitude and in percent, of its modulus and damping in the last update.",
 ["inputs", "histories"], "all soil types (curve or constant), strains (scalar or vector), and sequences of strain assignments, resets and property edits",
 "Tests exercise one or two soil types through whole-profile runs with loose tolerances and never assert the error measure when properties increase or decrease.",
 ["site.py"], [("strain setter", "Layer.strain"), ("damping shift", "Layer._compute_damping"), ("reset", "Layer.reset"), ("relative change", "IterativeValue.relative_error")])
prop("C04", "Equivalent-linear iteration ends consistent, converged and state-free",
 "An equivalent-linear run ends either with every layer's modulus and damping changing by less than the tolerance or after exactly the maximum number of iterations, and every soil layer then carries the effective strain (strain ratio times peak mid-layer strain for the last computed waves, capped at the strain limit) and the peak strain. It fails only when strains hit the limit in two successive iterations without convergence. Runs that reset the layers give results independent of the profile's earlier runs, and no run changes geometry, initial velocity, density or minimum damping.",
 ["inputs", "histories", "configurations"], "all profiles, motions, ratios, tolerances, iteration limits, strain limits and preceding runs, for the equivalent-linear and frequency-dependent calculators",
 "Tests run a few profiles to convergence; they never reach the limited-strain path in general, never check which waves the final strains come from and never vary what was run before.",
 ["propagation.py"], [("iteration", "EquivalentLinearCalculator.__call__"), ("strain measure", "EquivalentLinearCalculator._calc_strain"), ("initial strains", "_estimate_strains"), ("frequency-dependent strain shape", "FrequencyDependentEqlCalculator._calc_strain")])
prop("C05", "Complex modulus encodes stiffness, damping and density consistently",
 "For every layer the complex shear modulus has imaginary part equal to twice the modulus times the damping with damping held within [0, 0.49]; in the default formulation its magnitude equals the shear modulus and in the two alternative formulations its real part is the published one. The complex velocity squared times density equals the complex modulus and lies on the branch with non-negative real part; the layer's strain-compatible velocity squared times density equals its shear modulus.",
 ["inputs", "configurations"], "all moduli, dampings (including out-of-range ones), densities and the three modulus formulations",
 "Tests evaluate at most one damping value per formulation; clipping and the magnitude identity must hold for every value.",
 ["site.py"], [("complex modulus", "Layer.comp_shear_mod"), ("complex velocity", "Layer.comp_shear_vel"), ("velocity", "Layer.shear_vel")])
prop("C06", "Nonlinear curves interpolate their data log-linearly within limits",
 "A modulus-reduction or damping curve returns its tabulated value at each tabulated strain (held within the curve's limits), varies linearly in log strain between adjacent points, and stays at the end values outside the table and for strains at or below zero. Returned values always lie within the curve's limits, and replacing the strains or values immediately changes what is returned. A table of values per frequency is interpolated column by column.",
 ["inputs", "histories"], "all strain tables (increasing, positive), value tables (one- or two-dimensional), limits, query strains and edit sequences",
 "Tests check a few queries of one curve; the law must hold on every segment of every table and after every edit.",
 ["site.py"], [("evaluation", "NonlinearCurve.__call__"), ("interpolator rebuild", "NonlinearCurve._update")])
prop("C07", "Darendeli, Menq and Rollins curves follow the published equations",
 "For all admissible inputs the generated modulus reduction is 1/(1+(strain/reference strain)^curvature) and the damping is minimum damping plus scaling times Masing damping times modulus reduction^0.1, made non-decreasing with strain, with the reference strain, curvature, scaling and minimum damping of the published model. Modulus reduction lies in (0,1], never increases with strain, and damping never falls below its minimum.",
 ["inputs"], "all plasticity, overconsolidation, stress, frequency, cycle, gradation values and strain vectors of the three models",
 "Tests compare a few parameter sets with tabulated values; every coefficient matters for every input.",
 ["site.py"], [("common equations", "ModifiedHyperbolicSoilType.__init__"), ("model parameters", "DarendeliSoilType/MenqSoilType/RollinsEtAlSoilType properties")])
prop("C08", "Wang & Stokoe and Alemu curve models follow the published equations",
 "For every soil group and for every set of supplied index properties, the small-strain modulus, modulus reduction, minimum damping and damping follow the published regression of the highest level for which all required properties are given, with percent inputs converted once to decimals. The two-parameter and the Alemu models follow their published equations, including supplied coefficients. Modulus reduction lies in (0,1] and never increases with strain.",
 ["inputs", "configurations"], "3 soil groups x all parameter subsets (levels) x all parameter values and strain vectors, the two-parameter and the Alemu models",
 "There are about sixty level/quantity equations; tests sample a few points of some of them.",
 ["site.py"], [("level selection", "WangSoilType.get_level/params"), ("regressions", "WangSoilType.calc_*"), ("percent conversion", "to_decimal"), ("two-parameter", "TwoParamModifiedHyperbolicSoilType"), ("Alemu", "AlemuEtAlSoilType")])
prop("C09", "Kishida organic-soil curves follow the published regressions",
 "For all organic contents, consolidation ratios and vertical stresses the organic-soil model evaluates the published regressions for reference strain, unit weight, shear modulus and damping. The modulus reduction is the shear modulus normalised by its value at the smallest strain, so it starts at exactly one.",
 ["inputs"], "all admissible stresses, organic contents, consolidation ratios, optional unit weight and strain vectors",
 "Tests compare one or two parameter sets with loose tolerance.",
 ["site.py"], [("regressions", "KishidaSoilType._calc_*")])
prop("C10", "Layer depths and stresses stay consistent after every profile edit",
 "After a profile is built and after any sequence of appending, inserting (at any index a list accepts) or changing the thickness of layers, every layer's depth equals the sum of the thicknesses above it and its vertical stress equals the sum of unit weight times thickness above it, also when layers have equal properties. Within a layer total stress grows by unit weight times depth, effective stress is total minus pore pressure (gravity times depth below the water table, never negative), and mean stress is (1+2 K0)/3 times vertical. A layer's position in its profile is its own, also when another layer has equal values.",
 ["inputs", "histories"], "all layer sequences (including equal-valued layers), all edit histories, depths, water tables and K0",
 "Tests use profiles with distinct layers and a few edits; consistency must survive any edit sequence and repeated layers.",
 ["site.py"], [("recomputation", "Profile.update_layers"), ("edits", "Profile.append/insert, Layer.thickness setter"), ("stress", "Layer.stress_vert/stress_mean, Profile.pore_pressure")],
 state=[("depth", "depth to top of layer", "Layer._depth"), ("stress", "total vertical stress at top", "Layer._stress_vert")])
prop("C11", "Depth lookup returns the layer that contains the depth",
 "For every depth at or below the surface the returned layer contains it (top inclusive, base exclusive; everything at or below the half-space top is in the half-space) and the returned offset is the depth minus that layer's top. A location requested by depth or by index (positive or negative) refers to that very layer and index, with the requested wave field and with zero offset for an index.",
 ["inputs"], "all profiles (including equal-valued layers), all depths, all indices, all wave fields",
 "Tests probe a few depths; boundaries between layers and repeated layers are the cases that break.",
 ["site.py"], [("lookup", "Profile.lookup_depth"), ("location", "Profile.location"), ("identity", "Profile.index")])
prop("C12", "Average velocities and site attenuation are exact travel-time integrals",
 "The time-averaged velocity to any depth, and its 30 m special case on the initial velocities, equals that depth divided by the vertical shear-wave travel time to that depth, with the half-space extended below the profile. Site attenuation equals the sum over layers of twice minimum damping times thickness over initial velocity. Slowness and travel time of layers are the reciprocal velocity and thickness over velocity.",
 ["inputs"], "all profiles and depths inside, at the edges of and below the profile",
 "Tests check one profile; interpolation inside layers and extension below the profile depend on the depth.",
 ["site.py"], [("average", "Profile.time_average_vel"), ("30 m", "Profile.vs30"), ("attenuation", "Profile.site_attenuation, Layer.incr_site_atten")])
prop("C13", "Automatic discretisation refines without changing the profile",
 "Splitting a profile for a maximum frequency keeps total thickness, travel time, soil types, initial velocities, minimum damping, water table and half-space; it subdivides each selected layer into the smallest number of equal sublayers no thicker than velocity times wave fraction over frequency. Layers not selected (linear ones when only nonlinear layers are requested) are kept whole. The original profile is left untouched.",
 ["inputs"], "all profiles, maximum frequencies, wave fractions, both selection modes, profiles before and after a nonlinear run",
 "Tests check one profile; counts, sums and independence from the original must hold for all.",
 ["site.py"], [("discretisation", "Profile.auto_discretize")])
prop("C14", "Varying or copying a profile never disturbs the original",
 "Copying a profile or drawing a varied one (velocity, thickness, half-space depth, soil curves, or all of them through the sampling iterator) leaves the original profile, its layers and its soil types exactly as they were, so that later draws are unaffected. Properties that a variation does not vary (soil types, unit weight, minimum damping, water table, initial velocity or thickness, and the half-space when bedrock is not varied) carry over unchanged. A copy has the initial velocities of the original even after a nonlinear run.",
 ["inputs", "histories"], "all profiles (also after a nonlinear run), all variation classes and options, all random draws",
 "Tests check means over draws of one profile; aliasing between original and varied objects shows only in particular histories.",
 ["variation.py", "site.py"], [("velocity", "VelocityVariation.__call__"), ("thickness", "ToroThicknessVariation.__call__"), ("half-space", "HalfSpaceDepthVariation.__call__"), ("curves", "SoilTypeVariation.vary_profile/__call__"), ("copies", "Layer.copy, Profile.copy, SoilType.copy"), ("sampling", "iter_varied_profiles")])
prop("C15", "Velocity variation has the specified covariance and bounds",
 "The logarithmic velocity draw uses the log of the initial velocities as mean and a tridiagonal covariance built from the per-layer log standard deviations (scaled for truncation) and the adjacent-layer correlation; the correlation follows the published depth- and thickness-dependent equation. The realised velocity always stays within the truncation limit times the standard deviation of its mean in log space, and the bedrock changes only when asked. Depth-dependent standard deviations are interpolated at layer mid-depths and replaced for named soil types.",
 ["inputs"], "all profiles, model parameters, site classes, depth tables, soil-name maps and random draws",
 "Tests check statistics of one model; the bound and matrix entries must hold for every profile and draw.",
 ["variation.py"], [("draw and clip", "VelocityVariation.__call__"), ("covariance", "VelocityVariation._calc_covar_matrix"), ("correlation", "ToroVelocityVariation._calc_corr"), ("depth dependent", "DepthDependToroVelVariation._calc_ln_std")])
prop("C16", "Thickness and half-space depth variations partition depth exactly",
 "A thickness variation produces layers of positive thickness that exactly fill the depth to the half-space, each taking soil type, initial velocity and minimum damping from the original layer that contains its mid-depth; interface depths follow the published depth-dependent rate transformation of unit exponential increments. A half-space depth variation places the half-space top at exactly the drawn depth, keeps the layers above it, and extends the lowest layer when the draw is deeper than the profile.",
 ["inputs"], "all profiles with a soil column, all model parameters and all random draws (shallow, inside, at interfaces, deeper)",
 "Random tests check averages; exact filling must hold for every draw.",
 ["variation.py"], [("rate transformation", "ToroThicknessVariation.iter_thickness"), ("layer assignment", "ToroThicknessVariation.__call__"), ("half-space", "HalfSpaceDepthVariation.__call__")])
prop("C17", "Curve variation follows its model and respects its limits",
 "A varied modulus-reduction or damping curve equals the mean curve perturbed by the chosen model with one standard normal variate per curve applied to all strains, clipped to the declared limits. Random variates lie within the truncation limit; in percentile mode they are the quantile of the truncated normal and its correlated counterpart, clipped to the limit, cycling through the percentiles in order. Standard deviations follow the published equations.",
 ["inputs", "configurations"], "all soil types (curve or constant), correlations, limits, both sampling modes, all percentiles and draws",
 "Tests check a few percentiles and statistics; clipping and the formula must hold for each value of each draw.",
 ["variation.py"], [("clip", "SoilTypeVariation.__call__"), ("models", "DarendeliVariation, SpidVariation"), ("variates", "TruncatedNorm.correlated/correlated_at_percentile"), ("cycling", "iter_varied_profiles")])
prop("C18", "Logic tree enumerates exactly the valid combinations, once each",
 "Iterating a logic tree yields every combination of one positive-weight alternative per node whose requirement and exclusion rules all hold, exactly once and nothing else, with the alternatives' own values, weights and parameters; a branch's weight is the product of its alternatives' weights. Requirements must all match; exclusions reject only when all of them match; lists match any member and floats match within tolerance.",
 ["inputs", "configurations"], "all trees: any nodes, alternatives (values distinct within a node), weights, requirement and exclusion rules",
 "Tests enumerate two small trees.",
 ["logic_tree.py"], [("enumeration", "LogicTree.__iter__"), ("rules", "Alternative.is_valid/Realization.is_valid"), ("weights", "Branch.weight, Node.__iter__"), ("discretisation tables", "Node.from_miller_rice")])
prop("C19", "Outputs accumulate every run unchanged and aligned",
 "After any sequence of runs, each output holds one column per run in order, named accordingly, whose leading entries are exactly that run's results and whose remaining entries are not-a-number padding; earlier columns are never altered by later runs of different length. Iterating the results pairs each run's name with its own references and values, and a reset empties the output (keeping only user-supplied references). Statistics are the per-row log mean and log standard deviation ignoring padding.",
 ["histories", "inputs"], "all sequences of run lengths (growing, shrinking, equal), names given or not, resets in between",
 "Tests append two or three runs of chosen lengths.",
 ["output.py"], [("padding", "append_arrays"), ("accumulation", "Output._add_refs/_add_values"), ("iteration", "Output.iter_results"), ("statistics", "Output.calc_stats")])
prop("C20", "Each output reports the declared quantity at the declared location",
 "Time series, spectra and ratios are computed from the transfer function from the run's input location to the output's own location and wave field: acceleration, strain (percent when asked), stress (damped or not, normalised by effective vertical stress when asked), Arias intensity, response and Fourier spectra, and ratios of the second location to the first. Profile outputs report, against depth, the strain, damping, modulus reduction, initial and compatible velocity, 0.65 times maximum shear stress over effective vertical stress at mid-layer, and peak acceleration at layer tops.",
 ["inputs", "configurations"], "all calculators, profiles, motions, output kinds, locations and options; profile outputs: runs that leave one value per layer (not one per frequency)",
 "Tests compare few configurations with stored values or only check that the call runs.",
 ["output.py"], [("time series", "TimeSeriesOutput and subclasses"), ("spectra", "FourierAmplitudeSpectrumOutput, ResponseSpectrumOutput"), ("ratios", "AccelTransferFunctionOutput, ResponseSpectrumRatioOutput"), ("profiles", "ProfileBasedOutput subclasses")])
prop("C21", "Time-series motions: spectrum, time history and measures agree",
 "For every record and transform length, transforming back the Fourier spectrum returns the record followed by zeros, frequencies are integer multiples of 1/(length times time step), and Fourier amplitudes are the time step times the discrete transform. The oscillator transfer function is that of a damped single-degree-of-freedom system (unit response at zero frequency), and peak, spectral acceleration, Arias intensity and cumulative absolute velocity are the published integrals or maxima of the (filtered) time history.",
 ["inputs"], "all records (odd, even, single-sample), time steps, transform lengths (odd or even), transfer functions, oscillator frequencies and dampings",
 "Tests use a few records with power-of-two transforms.",
 ["motion.py"], [("spectrum", "TimeSeriesMotion._calc_fourier_spectrum"), ("inverse", "calc_time_series"), ("oscillator", "_calc_sdof_tf, calc_osc_accels"), ("measures", "calc_peak/calc_arias_intensity/calc_cav")])
prop("C22", "Quarter-wavelength amplification uses exact depth averages",
 "The average of a layer property to any depth equals the integral of the piecewise-constant property over that depth divided by the depth, with the last layer extending below the profile. The quarter-wavelength solution depth is consistent with its averaged slowness within the iteration tolerance, the amplification is the square root (or the declared correction exponent) of reference impedance over averaged impedance, and the site term multiplies it by the exponential attenuation of the declared parameter.",
 ["inputs", "configurations"], "all profiles, depths and frequencies, both methods, with and without attenuation",
 "Tests check one profile; partial layers, boundaries and depths below the profile vary with frequency.",
 ["propagation.py"], [("depth average", "my_trapz (both back ends)"), ("fixed point", "QuarterWaveLenCalculator._calc_amp"), ("correction", "QuarterWaveLenCalculator.correction_ba23")])
prop("C23", "Damping adjustment reaches the target site attenuation",
 "Adjusting layer damping for a target site attenuation makes the attenuation of the adjusted profile plus the scattering attenuation equal the target, with damping of the adjusted layers inversely proportional to velocity and the excluded layers' damping unchanged. It fails instead when the target cannot be reached, and it changes the given profile only when asked to work in place.",
 ["inputs", "configurations"], "all profiles, targets and exclusion rules (pattern, list, function), in place or not",
 "Tests check one exclusion layout; interleaved exclusions and half-space exclusion depend on the profile.",
 ["tools.py"], [("adjustment", "adjust_damping_values"), ("scattering", "calc_atten_scatter")])
prop("C24", "Depth-model helpers conserve stress, travel time and weight",
 "Mean effective stress at each layer's mid-depth equals (1+2 K0)/3 times overburden minus non-negative hydrostatic pressure. Simplifying a depth model merges only consecutive layers whose velocity is within the tolerance of the first of the group, starts each group at its first depth, and preserves the group's vertical travel time and its weight.",
 ["inputs"], "all depth, unit-weight and velocity vectors, water-table depths, K0 and tolerances",
 "Tests check small hand-made tables.",
 ["tools.py", "generic.py"], [("stress", "calc_mean_eff_stress"), ("simplification", "_simplify_profile")])
prop("C25", "Generic velocity profiles follow the published equation",
 "For every depth, site velocity and supported region (however capitalised), the generic velocity profile returns the published median velocity and logarithmic standard deviation. Unsupported regions are rejected, and values outside the recommended range are warned about but still computed.",
 ["inputs", "configurations"], "all depths, velocities, and region names",
 "Tests check a few points.",
 ["generic.py"], [("equation", "kea16_profile")])
prop("C26", "Every motion type provides the intensity measures calculators need",
 "Every kind of motion (recorded, random-vibration, spectrum compatible, source theory) provides frequencies, peak ground acceleration and peak ground velocity consistent with its own peak calculator: velocity is the peak of the acceleration integrated in the frequency domain, expressed in cm/s, with zero frequency excluded. Optional filters multiply the spectrum before the measure is taken, and measures are computed once and then stay fixed.",
 ["inputs", "configurations"], "all motion types, spectra, durations and filters",
 "Tests run each calculator with time series only or with stored references.",
 ["motion.py"], [("measures", "Motion.pga/pgv/arias_intensity/cav"), ("integration", "calc_pgv")])
prop("C27", "Published curve tables are well formed and returned unaltered",
 "Every published curve in the library has strictly increasing positive strains, matching numbers of strains and values, modulus reduction in (0,1] that never increases and damping in [0,0.49]; asking for a named curve returns exactly those numbers as the requested kind. The built-in discretisation of a standard normal for logic trees has, for every supported size, weights summing to one and points and weights symmetric about the median.",
 ["configurations"], "every named table and every supported discretisation size (a finite, fully enumerated set)",
 "Tests load one or two names.",
 ["site.py", "data/published_curves.toml", "logic_tree.py"], [("lookup", "NonlinearCurve.from_published, SoilType.from_published"), ("tables", "Node.from_miller_rice")])
prop("C28", "Random variates and layer counts follow their stated distributions",
 "Random velocities, thicknesses and curve variates follow the documented probability distributions (means, standard deviations, correlations and layer-rate).",
 ["inputs"], "the distribution over all random states",
 "Tests check sample moments of a few thousand draws with loose tolerances.",
 ["variation.py"], [("generators", "numpy and scipy random generators")])
prop("C29", "Legacy input files load into equivalent profiles and motions",
 "Loading a legacy column-formatted site-response input file gives the profile, curves, motion and run control the file describes, in metric units.",
 ["inputs"], "all well-formed input files",
 "No test covers the loader.",
 ["tools.py"], [("parser", "load_shake_inp")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
import re
for p in P:
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    if n > 3: print("sentences", p["id"], n)
