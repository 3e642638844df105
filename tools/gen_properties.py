"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=None)))


K = "diffmah/diffmah_kernels.py"
FH = "diffmah/fitting_helpers/diffmah_fitter_helpers.py"
FU = "diffmah/fitting_helpers/fit_utils.py"
BF = "diffmah/fitting_helpers/bfgs_wrapper.py"
POP = "diffmah/diffmahpop_kernels/"
DL = "diffmah/data_loaders/"
SC = "scripts/fitting_scripts/"

prop("C01", "Halo mass histories obey the rolling power-law growth law",
     "For every in-bounds halo parameter set, every array of positive cosmic times (any length, any order) and every present-day age, the returned log-mass equals the rolling power law - its index sliding from early to late as a fixed-steepness sigmoid in log time, normalised so that the unclipped curve passes through the mass parameter at the present-day age - at all times before the peak time, and the peak-time value at and after it. The returned accretion rate is the time derivative of that mass in Msun per year at every time up to and including the peak time, and exactly zero later. Whenever the early index is at least the late index, log-mass is non-decreasing and the rate non-negative up to the present-day age.",
     ["inputs", "configurations"],
     "all in-bounds parameter tuples x all time arrays x all present-day ages x both float precisions; explored as complete lattices incl. bound edges, times equal to the peak time, peak before/after every time, unsorted and one-element arrays",
     "tests evaluate a handful of parameter points and sorted grids with loose shape/finite assertions; the law is universally quantified over five parameters, the time array and the age",
     [K], [("closed-form kernel plus clipping at the peak time, rate by automatic differentiation", K + ":_log_mah_kern,_dmhdt_kern")],
     observe=["mah_singlehalo", "mah_halopop", "logmh_at_t_obs"])

prop("C02", "Population evaluation equals evaluating each halo alone",
     "For every number of halos and number of times (including one, and equal numbers of both), row i of a population evaluation has exactly the mass and rate histories obtained by evaluating halo i alone, and outputs always have shape (halos, times). Evaluating the mass at a single time gives the matching point of the halo's history for every combination of scalar or per-halo parameters and times. Reordering, duplicating, dropping or adding halos or times permutes the results accordingly and changes nothing else.",
     ["inputs", "configurations"],
     "all population sizes and time counts up to the bound, all permutations/subsets/duplications of halos and times, all scalar/array mixes",
     "tests use one population size and one grid; a batching or broadcasting slip shows only for particular shape coincidences or halo orders",
     [K], [("vectorised map over halos, elementwise broadcasting", K + ":mah_halopop,logmh_at_t_obs")],
     observe=["mah_halopop", "logmh_at_t_obs"])

prop("C03", "Halo parameters and their unbounded counterparts are a faithful bijection",
     "Every vector of finite unbounded halo parameters maps to parameters inside the documented bounds with the early index never below the late index, and each bounded parameter increases with its own unbounded counterpart and depends on no other one, except that the early index also depends on the late one, which is its floor. Mapping bounded to unbounded and back, for scalars and for arrays of halos, returns the original values for every in-bounds parameter set with early above late. Histories evaluated from unbounded parameters equal those evaluated from the bounded parameters they map to.",
     ["inputs"],
     "all unbounded vectors and all in-bounds parameter sets, scalar and array; explored as full-factorial lattices with edges",
     "tests check the default point and a few random draws; the bijection is universally quantified and its couplings show only off the default point",
     [K, "diffmah/utils.py"], [("sigmoid bounding and its inverse with late index as floor of early index", K + ":get_bounded_mah_params,get_unbounded_mah_params")],
     observe=["get_bounded_mah_params", "get_unbounded_mah_params"])

prop("C04", "Population-model parameter transforms preserve every named parameter",
     "For every parameter family of the population model and for the full model, mapping in-bounds parameters to the unbounded space and back returns every named parameter to its own value, and every unbounded vector maps inside the documented bounds, each parameter increasing with its own unbounded counterpart and unaffected by all others. The full-model transforms agree name by name with the transforms of the individual families whatever the order of fields supplied. Supplying only a subset of parameters leaves every parameter not supplied at its default value.",
     ["inputs", "configurations"],
     "all families, all named parameters, all values within bounds (lattice per parameter, all pairs of parameters), all field orders tried, all single/pair/leave-one-out subsets",
     "tests round-trip only the default values, where two families share identical defaults, so swapped or overwritten parameters go unnoticed",
     [POP + "bimod_censat_params.py", POP + "late_index_bimod.py", POP + "early_index_bimod.py", POP + "logtc_bimod.py", POP + "covariance_kernels.py", POP + "frac_early_cens.py", POP + "ftpt0_cens.py", POP + "bimod_logm0_kernels/", POP + "bimod_logm0_sats/", POP + "t_peak_kernels/"],
     [("per-family sigmoid bounding, name-based assembly of the full parameter set", POP + "bimod_censat_params.py:get_diffmahpop_params_from_u_params")],
     observe=["get_bounded_*_params", "get_unbounded_*_params", "get_diffmahpop_params_from_u_params", "get_diffmahpop_u_params_from_params"])

prop("C05", "Gradients of histories and fit losses are finite and correct",
     "For every in-bounds halo, every time (before, at and after the peak time) the derivatives of log-mass and of accretion rate with respect to each parameter that affects it are finite and equal the slope of the evaluated function wherever it is smooth. The gradient that drives the individual-halo fit is finite and equals the slope of the fit loss with respect to each varied unbounded parameter for every target and starting point. The same holds for the gradient of the population losses with respect to the unbounded population parameters.",
     ["inputs"],
     "lattice of halos x times x parameters, fit targets x starting points x varied parameters, population parameters x bins",
     "tests only check that default-point gradients are finite and nonzero",
     [K, FH, POP + "bimod_cens_fithelp.py", POP + "bimod_sats_fithelp.py", POP + "bimod_censat_fithelp.py"],
     [("automatic differentiation through clipping and bounding", K), ("value-and-gradient losses", FH + ":loss_and_grads_kern")],
     observe=["grad of mah_singlehalo/logmh_at_t_obs", "loss_and_grads_kern", "loss_and_grads_mah_moments_multibin*"])

prop("C06", "The fitter uses exactly the intended snapshots of a mass history",
     "For every simulated mass history and every choice of minimum mass, mass-range cut and minimum time, the points handed to the fit are exactly the snapshots at or after the minimum time whose log-mass is strictly above both the minimum mass and the final log-mass minus the cut, in time order, each paired with its own time, with log-mass replaced by its running maximum over those points. A history with fewer than three such points below the last of them is never fit; otherwise the peak time is that of the earliest snapshot whose mass equals the final mass (to single precision), unless the caller fixes it, and the present-day age is the last input time. The caller's arrays are never modified.",
     ["inputs", "histories", "configurations"],
     "all mass histories of bounded length over a small mass alphabet (monotone, dipping, zero-mass, flat) x all settings of the three cuts, the fixed peak time, and the minimum number of points",
     "tests try a few realistic histories; selection boundaries (equalities, dips, plateaus, empty selections) are never exercised together",
     [FH], [("masking by mass and time, running maximum, minimum-point rule", FH + ":get_loss_data")],
     observe=["get_loss_data", "diffmah_fitter(...).loss_data"])

prop("C07", "Every fit returns a coherent, verifiable result",
     "For every history with positive final mass and every option set, a fit that is skipped (because forced or for lack of data) says so, carries -99 in every parameter and the loss, algorithm code -1, and is not reported as terminated. Every other fit returns finite parameters inside their bounds with early index not below late index and the measured or caller-fixed peak time, a loss equal to the mean squared log-mass error of the returned parameters over the fit points and no worse than that of the starting guess, and algorithm code 0 or 1. A history generated by the model itself is reproduced closely, and repeating a fit reproduces the same result bit for bit.",
     ["inputs", "configurations"],
     "lattice of model-generated, perturbed, plateaued and degenerate histories x option sets (cuts, fixed peak time, forced skip, step counts)",
     "tests fit a few histories and check the loss is small; coherence of flags, loss and parameters over all branches is not checked",
     [FH, BF, FU], [("result assembly and skip branch", FH + ":diffmah_fitter"), ("quasi-Newton with first-order fallback", BF)],
     observe=["diffmah_fitter"])

prop("C08", "The optimiser survives numerical faults and reports them honestly",
     "For every pattern of non-finite losses or gradients met while optimising, the result of the quasi-Newton stage is returned (code 0) exactly when it converged with a finite positive loss, and otherwise the gradient-descent stage is run (code 1). Gradient descent stops at the first non-finite loss or gradient and returns the lowest-loss finite parameters it evaluated with their own loss; if the very first evaluation is non-finite it returns its starting parameters with the failure loss 999.99; its loss history holds only finite values. Its termination flag is 0 exactly when a non-finite value cut the final run short, and 1 when the run completed its steps or reached the requested tolerance, including during warm-up.",
     ["fault_sequences", "configurations"],
     "all placements of up to two faults (NaN/inf in loss, one gradient entry or all) over every evaluation of every stage, x converged / not converged / zero / non-finite quasi-Newton outcomes x warm-up counts x step counts x tolerances",
     "tests contain one NaN scenario; the fault position and stage are universally quantified",
     [BF, FU], [("acceptance test and fallback", BF + ":bfgs_adam_fallback"), ("non-finite detection and best-so-far selection", FU)],
     observe=["bfgs_adam_fallback", "jax_adam_wrapper"])

prop("C09", "Fit records survive the text-to-table round trip",
     "For every fit result, the text line written for it has one field per column of the matching header in the same order, and parsing it returns each parameter and the loss to the written precision and the number of points and algorithm code exactly. Collating any number of such lines (including one, and none) with or without leading halo identifiers gives a table file whose every column holds, row by row and in order, the values of the column of that name, with identifiers exact. Halo identifiers up to 64-bit integers, sentinel and extreme values, and repeated collation over an existing file are all preserved.",
     ["inputs", "histories", "configurations"],
     "all result alphabets (fitted, skipped, extreme, negative, tiny) x row counts and orders up to the bound x with/without identifier x overwrite histories",
     "tests write one small table; column mix-ups among similar values, single-row and overwrite cases are not covered",
     [FH], [("formatting, parsing and collating", FH + ":get_outline,_parse_outline,write_collated_data,HEADER,HEADER_HALO_ID")],
     observe=["get_outline", "_parse_outline", "write_collated_data", "the HDF5 file"])

prop("C10", "Partial reads of table files return exactly the requested rows and columns",
     "For every flat table file, row range, column list and enclosing group (nested at any depth), loading returns exactly the requested columns under the names they have in that group, each holding exactly rows start to end of that column with unchanged values, type and trailing shape; omitting the columns loads all of them. Reading consecutive row ranges and concatenating them reproduces the whole column. A named parameter set written to a file and loaded back has the same names, order, values and shapes, whatever was in the file before.",
     ["inputs", "histories", "configurations"],
     "all (start, end) pairs incl. beyond the end, all subsets and orders of columns, groups of depth 0-3, dtypes and shapes, all partitions of the rows, all write histories of bounded length",
     "tests read one flat file with one range",
     [DL + "io_utils.py", DL + "__init__.py"], [("slicing and key mapping", DL + "io_utils.py:load_flat_hdf5"), ("field list stored as attribute", DL + "io_utils.py:write_namedtuple_to_hdf5")],
     observe=["load_flat_hdf5", "write_namedtuple_to_hdf5", "load_namedtuple_from_hdf5"])

prop("C11", "Parallel fitting runs fit every halo exactly once, in order, on any schedule",
     "Each parallel fitting program (Bolshoi-Planck, TNG, Galacticus, and the two HACC simulations), run on any number of processes over any number of halos - including fewer halos than processes, one halo, and runs of several files and chunks - finishes on every scheduling of its processes without deadlock and writes output files in which every input halo appears exactly once, in input order, with the fit of its own history. When it finishes, no per-process temporary file remains. It touches no other file in the output directory, whatever the directory is called.",
     ["schedules", "configurations", "inputs"],
     "all process counts and halo counts up to the bound x all interleavings of the processes at communication and file operations up to a preemption bound",
     "no test runs these programs at all; the result depends on process count, halo count and scheduling",
     [SC, DL + "load_hacc_mahs.py", FH], [("array splitting / scatter", DL + "load_hacc_mahs.py:_scatter_nd,load_mahs_per_rank"), ("per-process text files, barriers and collation on the root", SC)],
     observe=["output HDF5 files", "directory listing", "calls to the fitter"])

prop("C12", "No crash of a fitting or collation run can lose completed fits",
     "If a parallel fitting program or the chunk-merging program stops at any point - any file operation, any deletion, any communication - then every fit that had been completely recorded on disk by then can still be read, unchanged, either from the per-process or per-chunk file it was recorded in or from a complete output file. Temporary or chunk files are deleted only after the output that contains them is complete and closed. A chunk-merging run that finishes leaves, for every subvolume in the requested range, one file whose columns are the concatenation of its chunks in chunk order, and deletes exactly those chunks; one that was stopped before deleting anything completes when it is run again.",
     ["crash_points", "histories"],
     "every file operation, deletion and communication of every program run (with several processes / subvolumes) as a crash point, followed by inspection of the disk; for merging also every re-run after a crash that precedes deletion",
     "no test runs these programs, and tests cannot stop them part way",
     [SC, FH], [("write output, then delete inputs", SC + "unchunk_last_journey_script.py"), ("collate then clean up", SC)],
     observe=["files on disk after the crash"])

prop("C13", "Simulation loaders deliver each halo's peak mass history in stated units",
     "For every input catalogue, each loader returns one row per halo in input order, with its own identifier where there is one, at every snapshot, with mass replaced by its running maximum in time, zero-mass snapshots handled without corrupting others, and masses in the stated units (divided by the Hubble parameter where the input is per h, log or linear as documented); the Galacticus reader returns the stored tables of the requested halos unchanged. Cosmic times are the ages of that simulation's snapshots, in snapshot order. Distributing halos over any number of processes gives each process its contiguous share, all of them together every halo exactly once in order, and the same times to all.",
     ["inputs", "configurations", "schedules"],
     "all small mass matrices over an alphabet with zeros and dips x all loaders x row ranges x numbers of processes x schedules of the distribution step",
     "the loaders have no value tests at all (some are never run)",
     [DL], [("running maximum, unit conversion", DL), ("row slicing", DL + "load_galacticus_eps_mahs.py"), ("scatter", DL + "load_hacc_mahs.py")],
     observe=["load_tng_data", "load_bolshoi_data", "load_mdpl2_data", "load_bpl_mah_data", "load_mahs", "load_mahs_per_rank", "extract_galacticus_mah_tables"])

prop("C14", "Monte Carlo halo populations are coherent, in bounds and reproducible",
     "For every set of observed masses and of observation times from 0.5 Gyr on, every random key, and population parameters in bounds, central and satellite populations have one halo per input in input order, and each halo's parameters are, in all five entries at once, those of its early-forming draw or of its late-forming draw, as its selection flag says, with the early fraction between 0 and 1. All parameters lie inside the halo bounds with early index not below late, peak times are positive and no later than the present-day age for centrals and the observation time for satellites, or exactly the caller's per-halo values when given. Returned histories are those of the returned parameters, and the same key always reproduces the same population.",
     ["inputs", "configurations"],
     "lattice of masses x times x population-parameter corners x keys x population sizes x {peak time drawn, given} x {central, satellite}",
     "tests draw one population at default parameters and check finiteness",
     [POP + "mc_bimod_cens.py", POP + "mc_bimod_sats.py", POP + "param_utils.py"], [("selection by comparing a uniform draw to the early fraction", POP + "mc_bimod_cens.py:mc_diffmah_cenpop,mc_cenpop")],
     observe=["mc_diffmah_cenpop", "mc_diffmah_satpop", "mc_cenpop", "mc_satpop", "mc_select_diffmah_params"])

prop("C15", "Random draws in Monte Carlo populations are mutually independent",
     "Within a Monte Carlo population, the draws that decide each halo's peak time, its early/late assignment and its parameter scatter are independent of one another, as are the draws of different halos. Halos with identical inputs get distinct random parameters. A halo's scatter about the mean relation follows the modelled covariance for its mass, and the fraction assigned early follows the modelled early fraction.",
     ["inputs", "configurations"],
     "every key of a bounded key set, exhaustively enumerated, x central/satellite x early/late x peak time drawn/given; every random primitive call observed for reuse of a key",
     "tests never look at dependence between draws; key reuse leaves every marginal distribution intact",
     [POP + "mc_bimod_cens.py", POP + "mc_bimod_sats.py", POP + "t_peak_kernels/"], [("splitting of random keys", POP + "mc_bimod_cens.py:mc_diffmah_params_singlecen")],
     observe=["mc_diffmah_cenpop", "mc_diffmah_satpop", "random primitives called"])

prop("C16", "Population predictions and losses are the stated averages of the sample",
     "For every bin, the predicted mean and scatter of log-mass at each time are the mean and standard deviation over the underlying Monte Carlo sample in which each halo's early and late draws are weighted by its early fraction and its complement. The loss of a bin is the mean squared error of the predicted mean plus that of the predicted scatter; the loss of many bins is the average of the per-bin losses, so it is zero exactly at its own predictions, never negative, and a change in one bin's targets changes the total only through that bin. The combined loss is the central loss plus the satellite loss, each computed from its own inputs, and losses in unbounded parameters equal those at the bounded parameters they map to.",
     ["inputs", "configurations"],
     "lattice of bins, targets (all single-entry perturbations), numbers of bins, permutations of bins, keys, central/satellite/combined losses",
     "tests only check the loss is finite and its gradients nonzero",
     [POP + "mc_bimod_cens.py", POP + "mc_bimod_sats.py", POP + "bimod_cens_fithelp.py", POP + "bimod_sats_fithelp.py", POP + "bimod_censat_fithelp.py"],
     [("weighted moments", POP + "mc_bimod_cens.py:predict_mah_moments_singlebin"), ("mean squared errors", POP + "bimod_cens_fithelp.py")],
     observe=["predict_mah_moments_singlebin", "loss_mah_moments_multibin", "loss_mah_moments_multibin_censat"])

prop("C17", "The scatter covariance is valid and laid out as named at every mass",
     "For every in-bounds set of scatter parameters and every halo mass, the covariance matrix is symmetric and positive definite, its diagonal holds the squared scatters in the order mass, transition time, early index, late index, each moving between its own low-mass and high-mass value, and each correlation coefficient sits at the pair of quantities it is named after. Building a lower-triangular matrix from a parameter vector puts the first entries on the diagonal and the rest row by row below it for every dimension. Converting a covariance to a correlation and back returns the original for every valid matrix.",
     ["inputs"],
     "all corners and midpoints of the scatter-parameter bounds (every correlation sign pattern), masses across the transition, every matrix dimension up to the bound",
     "tests check positive-definiteness at defaults and random draws, never which entry is which",
     [POP + "covariance_kernels.py", "diffmah/utils.py"], [("correlation layout through the triangular builder", POP + "covariance_kernels.py:_get_diffmahpop_cov"), ("bounded correlations", POP + "covariance_kernels.py:RHO_BOUNDS")],
     observe=["_get_diffmahpop_cov", "get_cholesky_from_params", "covariance_from_correlation", "correlation_from_covariance"])

prop("C18", "Each population parameter acts only on the quantity it is named for",
     "For every named parameter of the population model, changing it alone changes only the predictions it belongs to: parameters for centrals leave satellites unchanged and conversely, parameters of the early population leave the late population unchanged and conversely, and mass-normalisation, transition-time, early-index, late-index, early-fraction, peak-time and scatter parameters each leave the mean relations of the other quantities unchanged. Every parameter does act on its own quantity somewhere in its domain. The mean mass normalisation, transition time and indices always lie inside the halo parameter bounds, and the early fraction inside (0,1).",
     ["inputs", "configurations"],
     "every named parameter x every displacement of a lattice x every mass, observation time and peak time of a lattice x both populations",
     "tests evaluate the components only at default parameters with one family at a time",
     [POP], [("name-based selection of component parameters", POP + "bimod_censat_params.py:get_component_model_params"), ("component kernels", POP)],
     observe=["mc_diffmah_cenpop", "mc_diffmah_satpop", "component mean relations"])

prop("C19", "Peak-time models are proper probability distributions, sampled faithfully",
     "For every in-bounds parameter set, mass and time, each peak-time model's cumulative distribution is non-decreasing within [0, 1]; those of the truncated models go from 0 to 1 over their range and equal the integral of their density, which is non-negative and normalised in the variable it is stated in. Every sampled peak time lies within the model's range - never after the present-day age for centrals or the observation time for satellites - and equals the inverse of the cumulative distribution at its random draw, limited to the model's range, monotonically in that draw. Population sampling gives each halo its own parameters' distribution.",
     ["inputs", "configurations"],
     "lattice of parameters, masses, times and age x table of evaluation points x enumerated keys",
     "tests draw a few samples and check bounds",
     [POP + "t_peak_kernels/", POP + "ftpt0_cens.py"], [("truncated normal and sigmoid tables, inverse-CDF interpolation", POP + "t_peak_kernels/")],
     observe=["mc_tpeak_*", "_tp_cdf_kern/_tp_pdf_kern", "_t_peak_cen_*"])

prop("C20", "Statistics helpers agree with their definitions on every small input",
     "For every array of values, trimmed means and variances are the mean and unbiased variance of the values left after dropping the requested fraction, rounded down to whole values, of the smallest and of the largest values, also when values repeat or nothing is trimmed; time-interval widths are the midpoint-to-midpoint widths and add up to the full span; argument broadcasting returns equal-length arrays repeating scalars and rejects mismatched lengths. The outlier mask keeps exactly the halos within the requested number of trimmed standard deviations at every checked time. Rescaled sample targets give the average and variance of histories normalised to the common final mass, interpolated to the requested times.",
     ["inputs"],
     "all small arrays over a small value alphabet (with ties), all trim fractions of a lattice, all time grids over an alphabet, all argument shape mixes",
     "tests compare one large continuous random sample, where ties and edges cannot occur",
     ["diffmah/utils.py", "diffmah/fitting_helpers/measure_mahs.py"], [("percentile masks", "diffmah/utils.py:trimmed_mean"), ("interval widths", "diffmah/utils.py:get_dt_array"), ("target measurement", "diffmah/fitting_helpers/measure_mahs.py")],
     observe=["trimmed_mean", "trimmed_mean_and_variance", "get_dt_array", "get_1d_arrays", "get_clean_sample_mask", "measure_target_data"])

prop("C21", "Results never depend on earlier calls, other threads or the caller's objects",
     "For every sequence of calls into the library (evaluation, transforms, fitting, Monte Carlo, writing and reading), each call returns bit for bit what it returns when made alone in a fresh process, and leaves its arguments and the library's published default parameters unchanged. The same holds when two calls run in different threads under any interleaving. Global random state and files other than those named in the call are left untouched.",
     ["histories", "schedules"],
     "all call sequences up to the depth bound over the operation alphabet; all two-thread interleavings up to a preemption bound at source-line granularity",
     "tests call each function in isolation or in one fixed order on one thread",
     ["diffmah/"], [("pure functions, no module-level mutable state", "diffmah/")],
     observe=["every public function"])

prop("C22", "Population target tables describe exactly the halos in the sample files",
     "For every directory of tabulated samples, loading population targets from that directory keeps exactly the mass-time bins above the requested minimum time, below the requested maximum mass and with at least the requested sample size, records each bin's own number of samples, and attaches to each bin the requested number of distinct halos drawn from that bin's own sample file, with all five parameters of a halo kept together. The attached histories are those of the attached parameters on the bin's own time table, and their rescaled versions end exactly at the bin's mass with the shape unchanged. Centrals and satellites never mix, and no other directory is read.",
     ["inputs", "configurations"],
     "all small target directories (bin grids x sample counts) x all cut settings",
     "this loader is never run by any test",
     [POP + "load_diffmahpop_fitdata.py"], [("cuts and per-bin sampling", POP + "load_diffmahpop_fitdata.py:_attach_samples")],
     observe=["load_diffmahpop_targets", "rescale_target_log_mahs"])

prop("C23", "Tabulated samples hold exactly the halos put in, and their moments",
     "For every set of halo fits and every range of subvolumes, tabulation stores for each observation time and mass bin the halos with an accepted fit whose model mass at that time lies within 0.15 dex of the bin, split into centrals and satellites by their status at the catalogue snapshot nearest that time: all of them, or a fixed number of distinct ones per subvolume when there are more, each with its own five parameters to the written precision, in one file per non-empty bin and no other file. No halo of another range, earlier run or other bin appears, no other file is touched whatever the directory is called, and a halo once recorded stays readable at every stop. The mean, scatter and peaked fraction (halos whose peak lies before that time) tabulated from a directory are those of the histories of each sample file with more than the required number of halos.",
     ["inputs", "configurations", "crash_points"],
     "all small catalogues over an alphabet of halo kinds x subvolume ranges x bin grids x directories and leftovers; every executed line as a stop",
     "no test imports these programs",
     ["scripts/diffmahpop_tabulation/"], [("selection of a bin's halos", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:get_target_mah_params"), ("collation and clean-up", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:collate_subvolume_samples"), ("moments", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:tabulate_target_means_vars")],
     observe=["sample files", "tabulate_target_means_vars", "write_mean_variance_to_disk"])

prop("C24", "Component calibrations minimise their stated misfit and report it truly",
     "For every parameter point and target, the calibration loss of each component of the population model is the misfit it is named for: the sum over data sets of each one's mean squared deviation for the mass-normalisation components, the mean squared deviation for the early-index and transition-time components and the peak-time densities, in whatever form the optimiser's coordinates are passed and for the parameters they stand for, and the mean absolute deviation over all masses for the peaked fraction. It is zero at the component's own predictions and its gradient is finite and the slope of that loss. Every component fitter terminates on targets made by its own relation, improves on any start that has a slope, keeps bounded parameters inside their bounds, and returns as loss that of the parameters it returns.",
     ["inputs", "configurations"],
     "all lattices of parameter corners x data sets x target patterns, and of truths x starts x data shapes for the fitters",
     "tests call two of the losses at one point and none of the eight global fitters",
     ["diffmah/diffmahpop_kernels/"], [("sum over data sets", "diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py:global_loss_kern"), ("component fit", "diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py:fit_global_c1_model"), ("early-index loss", "diffmah/diffmahpop_kernels/early_index_alpha.py:_loss_kern"), ("peak-time fit", "diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py:t_peak_cens_fitter")],
     observe=["global_loss_and_grads_kern", "fit_global_c0_model", "loss_and_grads_kern", "t_peak_fitter"])

prop("C25", "Diagnostic figures show the bins they name",
     "For every table of tabulated targets, in any order and whatever other epochs it also holds, each single-panel diagnostic figure shows for each of its named masses the tabulated mean and mean plus and minus scatter of the nearest-mass bin among those of its epoch, and the model's predicted mean and mean plus and minus scatter for that same bin at that bin's own times; each residual panel shows, for each of its masses in order, predicted minus tabulated mean of the bin nearest in time and mass. Each figure is saved once, under its own name, in the requested directory, which is created if absent, and the table given is left as it was.",
     ["inputs", "configurations"],
     "all tables of one bin, pairs and triples of bins in both orders and out-of-epoch bins in between, for six figures",
     "no test imports these functions",
     ["diffmah/diffmahpop_kernels/diagnostics/"], [("single-panel figures", "diffmah/diffmahpop_kernels/diagnostics/plot_bestfit_cen_mahs.py:plot_singlepanel_mahs_centrals_z0"), ("residual panels", "diffmah/diffmahpop_kernels/diagnostics/plot_bestfit_sat_mahs.py:plot_sat_mah_4panel_residuals")],
     observe=["curves and bands of the figure", "file written"])
prop("C26", "Mean relations take the values their parameters name",
     "For every parameter vector inside the bounds and every mass, observation time and peak time, each mean relation of the population model is the one its parameters define. Early and late index, early-former fraction and peak-time location and width run logistically, with fixed steepness, from their low-side (ylo, or early) value to their high-side (yhi, or late) value, half way at the named x0; the low-mass early index follows the peak time and the high-mass one the observation time. The transition time is linear in log mass about 12 with a peak-time slope that runs from ylo to yhi. The present-day mass is the observed one plus a growth linear in log mass about 12, whose two coefficients have a slope in observation time that runs from ylo to zero and floors that depend on peak time. Results are held just inside the diffmah bounds; scalars give what arrays give, and the populations of centrals and satellites return these values at their own peak times when the scatter vanishes.",
     ["inputs"],
     "full products of parameter levels x mass x observation time x peak time for 29 component relations; both populations with each parameter moved alone and 40 spreads",
     "tests check shape and bounds at random parameters, and never the value",
     ["diffmah/diffmahpop_kernels/"], [("high- and low-mass early index", "diffmah/diffmahpop_kernels/early_index_alpha.py:_pred_early_index_kern"), ("floors of the mass growth", "diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py:_pred_c1_kern"), ("assembly", "diffmah/diffmahpop_kernels/mc_bimod_sats.py:_mean_diffmah_params_late_t_peak")],
     observe=["mean parameters", "early fraction"])

prop("C27", "Options of the fitting programs select exactly what they name",
     "For every combination of the options of each parallel fitting program (Bolshoi-Planck, TNG, Galacticus, and the two HACC simulations) and any number of processes: exactly the halos of the requested input file or directory, simulation and subvolumes are fitted (first and last subvolume inclusive for Bolshoi-Planck; for the HACC programs the files from the start position up to but excluding the end position, in numerical order, all of them by default), each subvolume divided in order into the requested number of chunks with one output file per chunk, and the results are written under the requested output directory and, where one file is written, the requested file name. Every fit uses the number of gradient-descent steps requested (200 by default) and otherwise the fitter's documented defaults, except that Bolshoi-Planck fits use the minimum mass and minimum time published by its loader. Halos whose history spans less time than the requested minimum lifetime are recorded as skipped and all others are fitted. A short test run fits only the first five halos per process (Bolshoi-Planck), the first 50 of each process (Galacticus) or the first three chunks of the first file (HACC), and never all of a sample larger than that (TNG), also when there are fewer halos than that; giving the test option as False is the same as leaving it out. No option changes anything it does not name.",
     ["configurations", "inputs"],
     "products of option values including defaults, boundaries and unusual names, x 1-3 processes, on catalogues with several files, run on the real program text",
     "no test runs these programs at all, let alone with options",
     [SC], [("argument parsing and the loops over subvolumes, chunks and halos", SC)],
     observe=["output files", "arguments and halos the fitter is called with"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
