"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DK = "diffmah/diffmah_kernels.py"
FH = "diffmah/fitting_helpers/diffmah_fitter_helpers.py"
FU = "diffmah/fitting_helpers/fit_utils.py"
BW = "diffmah/fitting_helpers/bfgs_wrapper.py"
PK = "diffmah/diffmahpop_kernels/"
TK = PK + "t_peak_kernels/"
IO = "diffmah/data_loaders/io_utils.py"
SC = "scripts/fitting_scripts/"
FSCRIPTS = [SC + "bolshoi_planck_fitting_script.py", SC + "galacticus_diffmah_fitter_script.py",
            SC + "hacc_discovery_sims_diffmah_fitter_script.py",
            SC + "hacc_lastjourney_diffmah_fitter_script.py", SC + "tng_diffmah_fitter_script.py"]

# ------------------------------------------------------------------ individual halos
prop("C01", "Halo mass histories follow the documented rolling power law",
     "For every in-bounds set of halo parameters, every time in (0, 20] Gyr and every age of the universe at z=0, the returned log10 halo mass equals logm0 + a(t)*log10(t/t0) to single-precision accuracy, where a(t) is a logistic function of log10(t) with steepness 3.5 that runs from the early index to the late index and is centred on logtc. At and after t_peak the returned log10 mass is the value of that law at t_peak.",
     ["inputs"], "all in-bounds parameter vectors incl. the edges of the bounds and early=late, the example populations of the documentation (late index down to 0.01), all times from 0.01 to 20 Gyr incl. times equal to or next to t_peak and t0, all lgt0 for ages 5-20 Gyr, scalars, arrays and populations",
     "Tests compare a handful of random parameter draws with internal kernels or check finiteness; nothing compares the law against an independent implementation, nor at saturated or extreme parameters.",
     [DK, "diffmah/defaults.py"],
     [("rolling power law", DK + ":_rolling_plaw_vs_logt"), ("clipping of growth at t_peak", DK + ":_log_mah_kern")])
prop("C02", "Halo mass never decreases, freezes at t_peak and equals logm0 at z=0",
     "For every in-bounds halo whose early index is at least its late index, log10 mass is non-decreasing in time up to z=0, and is constant at all times from t_peak on. When t_peak is not before z=0, log10 mass at z=0 equals logm0; when t_peak is earlier, the z=0 mass equals the mass at t_peak and does not exceed logm0.",
     ["inputs"], "all in-bounds parameter vectors with early>=late, arbitrary sorted or unsorted time grids up to 20 Gyr",
     "Monotonicity and freezing are shape properties over a continuum of parameters and times; tests assert them nowhere for random parameters.",
     [DK], [("mask t < t_peak", DK + ":_log_mah_kern")])
prop("C03", "The accretion rate is the time derivative of the mass history",
     "For every in-bounds halo and time t before t_peak the returned accretion rate in Msun/yr equals d(10**log_mass)/dt divided by 1e9, and for every time after t_peak it is exactly zero. The rate is non-negative before z=0 when the early index is at least the late index, and integrating it over time reproduces the growth in mass.",
     ["inputs"], "all in-bounds parameter vectors and times (times equal to t_peak to the last bit excluded)",
     "Tests check one finite-difference comparison at a few parameter points; the derivative and the mask must agree for every halo and time.",
     [DK], [("autodiff of the unquenched mass", DK + ":_dmhdt_noq_grad_kern_scalar"), ("zero after t_peak", DK + ":_dmhdt_kern")])
prop("C04", "Single-halo, population and lightcone calls agree for every halo",
     "A population call returns for every halo what the single-halo call returns for that halo alone (to rounding), with rows in input order, so permuting, subsetting or concatenating populations or times permutes, subsets or concatenates the results. The mass-at-t_obs call returns, per halo, the population result evaluated at that halo's own time, and the calls that take unbounded parameters return what the bounded calls return for the corresponding bounded parameters.",
     ["inputs", "schedules"], "all population sizes (incl. 0 and 1), time-grid sizes, orderings and batchings, scalar or per-halo t_obs, repeated calls and concurrent calls from several threads",
     "Tests compare the entry points for one default population; row independence quantifies over all batches, orders and concurrent callers.",
     [DK], [("vmap over halos", DK + ":_diffmah_kern_vmap"), ("u_param wrappers", DK + ":_diffmah_kern_u_params"), ("logmh_at_t_obs", DK + ":logmh_at_t_obs")])
prop("C05", "Unbounded halo parameters always map into bounds and round-trip",
     "Every finite vector of unbounded parameters maps to halo parameters inside the published bounds whose late index does not exceed the early index, monotonically in each unbounded parameter, and independent of the other parameters except for the dependence of early index on late index. Mapping in-bounds parameters to unbounded space and back returns the original parameters to single-precision accuracy, and mapping unbounded parameters to bounded space and back is the identity wherever the logistic is not saturated.",
     ["inputs"], "all finite unbounded vectors incl. +-1e6, all in-bounds vectors incl. values near each bound, scalars and arrays",
     "Tests round-trip a few random draws in the middle of the range; bounds and inverse must hold in the whole space an optimizer may wander through.",
     [DK], [("sigmoid bounding", DK + ":get_bounded_mah_params"), ("inverse", DK + ":get_unbounded_mah_params"), ("late<=early nesting", DK + ":_get_early_late")])
prop("C06", "Gradients of the individual-halo model are finite and correct",
     "Derivatives of log10 mass and of the fitting loss with respect to every unbounded parameter, computed by automatic differentiation, are finite for all moderate unbounded parameters and agree with finite differences of an independent double-precision evaluation of the model. The gradient handed to the optimizer by the fitter's loss is the gradient of the value it returns.",
     ["inputs"], "unbounded parameter vectors within +-60 of the defaults, arbitrary time grids and targets",
     "Differentiability is the library's purpose but tests only check that gradients are finite at a few points.",
     [DK, FH], [("value_and_grad of the loss", FH + ":loss_and_grads_kern"), ("where-masked kernels", DK + ":_log_mah_kern")])
# ------------------------------------------------------------------ fitter
prop("C07", "The fitter's reported loss and parameters are honest and in bounds",
     "Whenever the fitter runs, the best-fit parameters are finite and inside the published bounds with late index not above early index, and the reported loss equals the mean squared difference in log10 mass between the model at those parameters and the returned target data. That loss is never larger than the loss at the default starting point, and both the reported target and loss are consistent with the mass history that was passed in.",
     ["inputs"], "mass histories that are smooth, noisy, bursty, flat at late times, truncated, non-monotone, of any length and time sampling, in 32- or 64-bit precision, with every combination of fitter options",
     "Tests check the loss against the truth for ten noisy histories; honesty of the returned record must hold for every input and whichever optimizer produced it.",
     [FH, BW, FU], [("result assembly", FH + ":diffmah_fitter"), ("loss", FH + ":log_mah_loss_uparams"), ("optimizer", BW + ":bfgs_adam_fallback")])
prop("C08", "Halos without enough data are skipped with fill values, others are not",
     "The fit is skipped exactly when the selected target data contain fewer than 3 points whose mass is strictly below the final target mass, or when skipping is forced. A skipped fit reports -99 for every parameter and for the loss, code -1, skip true and terminated false; a fit that was not skipped never reports any of those.",
     ["inputs"], "all mass histories incl. empty selections, all-zero histories, flat histories, histories with exactly 0, 1, 2, 3 or 4 non-trivial points; all option values",
     "One test covers one history with an impossible mass cut; the boundary at three points and the empty selections are never driven.",
     [FH], [("skip rule", FH + ":get_loss_data"), ("fill", FH + ":diffmah_fitter")])
prop("C09", "Only eligible data enter a fit; excluded data never influence it",
     "The fitting target consists of exactly the snapshots at or after the minimum time whose log10 mass is above both the mass floor and the final mass minus the allowed drop, with the running maximum of log10 mass over those snapshots, in time order. Changing the masses of excluded snapshots to other excluded values (including zeros) leaves the target and the best fit unchanged.",
     ["inputs"], "all mass histories with final mass above 1e4, mass floors incl. -inf, mass drops up to 10 dex, minimum times and time grids; excluded values incl. exact zeros and values equal to the mass floor",
     "Tests check the size of the selection on one linear history; the exclusion guarantee quantifies over all histories and thresholds.",
     [FH], [("selection mask", FH + ":_get_target_data"), ("floor and zero handling", FH + ":_get_clipped_log_mah")])
prop("C10", "The fitter recovers histories that the model can represent",
     "When the input history is itself generated by the model with parameters typical of simulated halos, the fitted history reproduces the input over the fitted range to within a few hundredths of a dex in the large majority of cases and never misses grossly, with t_peak recovered to the time resolution of the input. Adding small noise to the input degrades the fit by no more than about the noise level.",
     ["inputs"], "model halos with typical parameters (unbounded parameters within +-10 of the defaults, logm0 10-15), snapshot grids of 25 to 300 times, noise up to 0.05 dex",
     "Tests use ten seeds on one grid with a tolerance of 0.02 in loss; recovery is a statement about the whole population of halos.",
     [FH, BW, DK], [("BFGS with Adam fallback", BW + ":bfgs_adam_fallback"), ("initial guess", FH + ":get_loss_data")])
prop("C11", "Optimizer failures are contained and reported truthfully",
     "If the quasi-Newton step fails, returns a non-finite or non-positive loss or gives up, the gradient-descent fallback runs and the result is marked as coming from it; otherwise the quasi-Newton result is returned unchanged. The fallback returns the parameters with the smallest loss among the steps it visited before the first non-finite value, never returns non-finite parameters when the start was finite, and reports failure exactly when it stopped early because of a non-finite value.",
     ["fault_sequences", "inputs"], "loss functions that become NaN or inf (in value, gradient or both) at any step, at the first step, never; quasi-Newton failures and exceptions-free non-convergence; any number of steps and warm-up rounds",
     "Tests run both optimizers on well-behaved losses only; nothing injects NaNs at a chosen step or makes the first optimizer fail.",
     [BW, FU], [("fallback decision", BW + ":bfgs_adam_fallback"), ("NaN handling", FU + ":_jax_adam_wrapper"), ("status", FU + ":jax_adam_wrapper")])
prop("C12", "A fit depends only on its inputs: no history, thread or aliasing effects",
     "Fitting the same history with the same options gives identical results regardless of which halos were fitted before, in what order, in which process, from which thread and how many fits run concurrently. No call modifies the arrays or parameters passed in, the module defaults, global random state, or global warning and floating-point configuration.",
     ["histories", "schedules"], "all sequences and interleavings of fits, population calls and other library calls in one or several threads and processes",
     "Each test calls the fitter in isolation; independence of call history and of concurrent callers cannot be sampled by single-call tests.",
     [FH, BW, FU, DK], [("pure jitted kernels", FH + ":loss_and_grads_kern"), ("copies of initial parameters", FU + ":jax_adam_wrapper")])
prop("C13", "The fitted t_peak is the first time the peak mass is reached, or as fixed",
     "Unless a value is fixed by the caller, the t_peak of the fit is the first snapshot time at which the mass history equals its final value (so the time of peak for cumulative-peak histories); if the caller fixes t_peak the fit uses that value. In both cases t_peak is not varied by the optimizer, and the age of the universe at z=0 used by the fit is the last snapshot time.",
     ["inputs"], "cumulative-peak histories with plateaus of any length, plateaus starting at any snapshot, ties at single precision, fixed values anywhere in the t_peak bounds",
     "Tests check t_peak recovery on one default halo; first-versus-last index and ties depend on the plateau structure.",
     [FH], [("argmax of first equality", FH + ":compute_indx_t_peak_singlehalo"), ("tpeak_fixed", FH + ":get_loss_data")])
# ------------------------------------------------------------------ IO and pipelines
prop("C14", "Fit results survive the text and HDF5 tables unchanged, row by row",
     "For every fit result, writing its text line and reading it back returns the parameters and loss to the printed precision of six significant digits and the point count and optimizer code exactly; collating lines into an HDF5 table stores every row once, in order, under the right column name. Halo identifiers of up to 63 bits survive exactly.",
     ["inputs"], "all fit results incl. skipped halos, negative and tiny values, losses of 0 or 1e-30, identifiers up to 2**63-1, tables of 1 to thousands of rows with or without identifiers",
     "One test parses one outline; precision loss in large identifiers, column swaps and single-row tables are not driven.",
     [FH], [("text format", FH + ":get_outline"), ("parser", FH + ":_parse_outline"), ("table writer", FH + ":write_collated_data")])
prop("C15", "Flat HDF5 loading returns exactly the requested rows and columns",
     "Loading a flat HDF5 file returns for each requested column (all columns when none are requested) exactly the stored rows from the first to before the last requested row, with values and types preserved and nothing else. Columns inside a named group are returned under their own names, distinct stored columns are never merged, and the file is not modified.",
     ["inputs"], "all files with numeric, integer, boolean or string columns of any shape, all row ranges incl. empty, open-ended and beyond the end, all subsets and orders of keys, with or without a group",
     "Tests read one small file with two columns; row ranges, groups with equal suffixes and dtypes are not covered.",
     [IO], [("slicing and key naming", IO + ":load_flat_hdf5")])
prop("C16", "Named parameter sets round-trip through HDF5",
     "Writing any named tuple of parameters to HDF5 and reading it back returns a tuple with the same field names in the same order and bitwise equal values and shapes. Overwriting an existing file leaves only the new fields.",
     ["inputs"], "all named tuples with 1 to hundreds of fields whose names sort in any order, scalar or array values of any numeric type incl. NaN and inf",
     "One test writes one default tuple; field order versus alphabetical storage order and array values are not exercised in general.",
     [IO], [("field-order attribute", IO + ":write_namedtuple_to_hdf5"), ("reader", IO + ":load_namedtuple_from_hdf5")])
prop("C17", "Parallel fitting scripts fit every halo exactly once, in catalog order",
     "For any number of MPI ranks, any interleaving of the ranks and any number of halos (including fewer halos than ranks), each fitting script writes output tables in which row i is the fit of halo i of the corresponding input chunk, with no halo missing or repeated. The content of the tables does not depend on the number of ranks or their relative speed.",
     ["schedules", "configurations"], "1 to 8 ranks, random per-rank delays and collective orderings, 1 to ~40 halos per chunk, several subvolumes and chunks, all five fitting scripts",
     "There are no tests of the scripts at all; the property quantifies over rank counts and schedules.",
     FSCRIPTS + ["diffmah/data_loaders/load_hacc_mahs.py"],
     [("array_split per rank", SC + "tng_diffmah_fitter_script.py"), ("barrier before collation", SC + "hacc_lastjourney_diffmah_fitter_script.py"), ("scatter", "diffmah/data_loaders/load_hacc_mahs.py:_scatter_nd")])
prop("C18", "Temporary and chunk files are deleted only once their data are safe",
     "The fitting scripts delete per-rank temporary files only after the table that contains their rows has been completely written, delete nothing other than their own temporary files, and leave none of them behind on success. The unchunking script deletes chunk files only after every output containing their rows is complete, so that a failure or crash at any point leaves every row in at least one readable file.",
     ["crash_points", "fault_sequences"], "a failure injected at every file open, write, close and delete of a run, output directories with unrelated files and shell metacharacters in their names, 1 to several subvolumes",
     "There are no tests of the scripts; data loss appears only at particular failure points.",
     FSCRIPTS + [SC + "unchunk_last_journey_script.py"],
     [("collate then clean up", SC + "hacc_lastjourney_diffmah_fitter_script.py"), ("delete list after all writes", SC + "unchunk_last_journey_script.py")])
prop("C19", "Simulation loaders return cumulative peak masses in Msun and cosmic time",
     "Every mass-history loader for the fitter returns, for each halo of the requested subset in stored order, the running maximum of the stored masses converted to the documented units (Msun where the simulation stores Msun/h), with times in Gyr that match the simulation's cosmology and its stored snapshots. (The Galacticus reader returns the stored tables of the requested rows unchanged; its fitting script takes the running maximum.) Missing progenitors (zero masses) never produce NaN, negative or infinite masses, and stored identifiers are returned exactly and unpermuted.",
     ["inputs"], "catalogs with random masses incl. zeros and dips, 1 to hundreds of halos, subvolume subsets in any order, different cosmologies, row subsets",
     "The loaders have no tests apart from one import test because the simulations are not available to them.",
     ["diffmah/data_loaders/load_hacc_mahs.py", "diffmah/data_loaders/load_bpl_um_data.py", "diffmah/data_loaders/load_tng_mahs.py", "diffmah/data_loaders/load_diffmah_pub_data.py", "diffmah/data_loaders/load_galacticus_eps_mahs.py", "scripts/fitting_scripts/load_mah_data.py"],
     [("running maximum and unit conversion", "diffmah/data_loaders/load_hacc_mahs.py:load_mahs"), ("ages from flat_wcdm", "diffmah/data_loaders/load_bpl_um_data.py"), ("TNG log to linear", "diffmah/data_loaders/load_tng_mahs.py")])
prop("C20", "Scattering halos to ranks partitions the catalog without loss",
     "For any number of ranks, message timing and array shape, concatenating the arrays received by ranks 0..n-1 along the scattered axis gives the root's array exactly, and the per-rank sizes differ by at most one. Every rank receives the same time array, and only the root reads the catalog.",
     ["schedules", "inputs"], "1 to 12 ranks (more ranks than rows included), arrays of 1 to 3 dimensions with any axis, any root rank, any dtype, random delivery delays",
     "No test exercises the scatter because mpi4py is not installed; it quantifies over rank counts and schedules.",
     ["diffmah/data_loaders/load_hacc_mahs.py"], [("scatter", "diffmah/data_loaders/load_hacc_mahs.py:_scatter_nd"), ("broadcast of times", "diffmah/data_loaders/load_hacc_mahs.py:load_mahs_per_rank")])
prop("C21", "Unchunking concatenates all chunks of a subvolume in order",
     "After the unchunking script has run, each requested subvolume has one output file whose every column is the concatenation, in chunk order, of that column over all the chunk files of that subvolume, with no row lost, repeated or moved to another subvolume. Exactly the chunk files that were merged are gone, and files of other subvolumes are untouched.",
     ["inputs", "histories"], "random subvolume ranges, chunk sizes incl. empty chunks, column sets and integer or float columns, repeated runs over successive ranges",
     "There are no tests of the script.",
     [SC + "unchunk_last_journey_script.py"], [("chunk loop", SC + "unchunk_last_journey_script.py")])
# ------------------------------------------------------------------ population model
prop("C22", "Population parameters round-trip and never cross-talk",
     "Every finite unbounded population parameter vector maps to parameters inside their documented bounds, and bounded to unbounded to bounded is the identity to single-precision accuracy for every component model separately and for the combined model. Each bounded parameter depends only on its own unbounded counterpart and increases with it, splitting the combined set into component sets and merging them back preserves every value under its own name, and selecting varied parameters by exclusion keeps exactly the non-excluded ones.",
     ["inputs"], "all finite unbounded vectors, all in-bounds vectors incl. near the bounds, all subsets of excluded names",
     "Tests check the defaults and small perturbations in many components; a swapped bound or name in one of ~90 parameters shows only when that parameter is moved.",
     [PK + "bimod_censat_params.py", PK + "covariance_kernels.py", PK + "late_index_bimod.py", PK + "early_index_bimod.py", PK + "logtc_bimod.py", PK + "frac_early_cens.py", PK + "ftpt0_cens.py", PK + "bimod_logm0_kernels/logm0_pop_bimod.py", PK + "bimod_logm0_sats/logm0_pop_bimod_sats.py", TK + "tp_pdf_cens_flex.py", TK + "tp_pdf_sats.py", TK + "tp_pdf_cens.py", TK + "utp_pdf_kernels.py"],
     [("component-wise bounding", PK + "bimod_censat_params.py:get_diffmahpop_params_from_u_params"), ("split by name", PK + "bimod_censat_params.py:get_component_model_params")])
prop("C23", "Mean population relations follow their formulas and stay in bounds",
     "For all in-bounds population parameters, observed masses, times and peak times, the predicted mean logm0, logtc, early and late index, early-forming fraction, and t_peak=t_0 fraction of early- and late-forming centrals and satellites equal the documented sigmoid, sigmoid-slope and clipping formulas evaluated with that branch's and type's own parameters. Predictions lie strictly inside the individual-halo bounds (fractions inside [0,1]) and early index exceeds late index.",
     ["inputs"], "all in-bounds parameter vectors, lgm_obs 10-16, t_obs 1-20, t_peak 0.2-20, scalars and arrays",
     "Tests check finiteness and bounds for a few random draws; none compares a prediction against an independent evaluation, so a parameter of the wrong branch goes unnoticed.",
     [PK + "bimod_logm0_kernels/logm0_c0_early.py", PK + "bimod_logm0_kernels/logm0_c1_late.py", PK + "bimod_logm0_sats/logm0_pop_early.py", PK + "logtc_early.py", PK + "logtc_late.py", PK + "early_index_alpha.py", PK + "early_index_beta.py", PK + "late_index_alpha.py", PK + "late_index_beta.py", PK + "frac_early_cens.py", PK + "ftpt0_cens.py"],
     [("clip to MAH_PBOUNDS", PK + "logtc_early.py:_pred_logtc_kern"), ("sigmoid-slope c0/c1", PK + "bimod_logm0_kernels/logm0_c0_early.py:_pred_c0_kern")])
prop("C24", "Every Monte Carlo halo is valid and self-consistent",
     "Every generated central or satellite has finite parameters inside the individual-halo bounds with late index not above early index, its mass history and accretion rate are those of the individual-halo model at its parameters, and its parameters are entirely those of the early-forming or entirely those of the late-forming realization according to the returned selection. Peak times are shared by the two branches and lie between 0.05 and 1 times the z=0 age for centrals and not after t_obs for satellites, or are exactly the values supplied by the caller; the same random key always gives the same population.",
     ["inputs"], "all in-bounds population parameters, lgm_obs 10-16, t_obs from 0.56 to 14 Gyr, any random key, population sizes 1 to thousands, with and without supplied t_peak",
     "Tests check finiteness and a few ranges for one or two keys at default parameters.",
     [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "param_utils.py"],
     [("selection by early fraction", PK + "mc_bimod_cens.py:mc_diffmah_cenpop"), ("bounding of scattered parameters", PK + "mc_bimod_cens.py:mc_diffmah_params_singlecen")])
prop("C25", "Monte Carlo populations have the statistics the model specifies",
     "Over many halos of equal observed mass and time and with t_peak held fixed, the unbounded parameters of each branch scatter about the predicted mean with the specified covariance, independently from halo to halo and between branches, and the fraction of early-forming halos equals the predicted fraction independently of the parameters. With t_peak drawn, its distribution is the model's t_peak distribution and it is independent of the scatter of the other parameters about their mean and of the early/late choice.",
     ["inputs"], "all in-bounds population parameters, mass and time bins and random keys; statistical tests at false-alarm rates below 1e-7 per run",
     "Tests compare no moments of the generated samples with the model; a reused random key or an un-transposed covariance produces valid-looking halos.",
     [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "covariance_kernels.py", TK + "tp_pdf_cens_flex.py", TK + "tp_pdf_sats.py"],
     [("key splitting", PK + "mc_bimod_cens.py:mc_diffmah_params_singlecen"), ("multivariate normal", PK + "mc_bimod_cens.py:mc_diffmah_params_singlecen"), ("per-halo keys", PK + "mc_bimod_sats.py:mc_diffmah_satpop")])
prop("C26", "The scatter covariance is valid and has the specified structure",
     "For all in-bounds population parameters and masses the scatter covariance of the four unbounded halo parameters is symmetric positive definite, its diagonal holds the squares of the specified mass-dependent standard deviations, and each off-diagonal correlation equals the parameter named after that pair. Evaluating many masses at once agrees with evaluating them one at a time.",
     ["inputs"], "all in-bounds covariance parameters incl. all correlations at their bounds, lgm 9-17",
     "Tests check positive definiteness at some random draws, not which correlation ends up in which entry.",
     [PK + "covariance_kernels.py", "diffmah/utils.py"],
     [("correlation from parameters", PK + "covariance_kernels.py:_get_diffmahpop_cov"), ("lower-triangle filling", "diffmah/utils.py:get_cholesky_from_params")])
prop("C27", "Predicted mean and scatter of histories are those of the mixture",
     "The predicted mean and standard deviation of log10 mass versus time for a bin of observed mass and time equal the moments of the two-branch mixture, weighting early- and late-forming realizations by their predicted fractions, of the very sample the generator draws for the same key. They agree, within sampling error, with a direct Monte Carlo population at the same mass and time; the standard deviation is non-negative and finite.",
     ["inputs"], "all in-bounds population parameters, bins, time grids and keys, centrals and satellites",
     "Tests check finiteness and shapes; swapped weights give plausible numbers.",
     [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py"],
     [("mixture moments", PK + "mc_bimod_cens.py:predict_mah_moments_singlebin")])
prop("C28", "Population losses equal their definition and have correct gradients",
     "The population fitting loss equals the average over bins of the mean squared difference between predicted and target mean plus that between predicted and target scatter, is zero when the targets are the model's own predictions for the same keys, and for the combined fit is the sum of the central and satellite losses. Losses that take unbounded or varied parameters equal the loss at the corresponding full bounded parameters, and returned gradients are finite and match finite differences of the returned loss.",
     ["inputs"], "all in-bounds population parameters, numbers of bins, time grids, targets and keys; any subset of varied parameters",
     "Tests check that losses are positive and finite at the defaults.",
     [PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py", PK + "bimod_censat_fithelp.py"],
     [("per-bin loss", PK + "bimod_cens_fithelp.py:_loss_mah_moments_singlebin"), ("censat sum", PK + "bimod_censat_fithelp.py:loss_mah_moments_multibin_censat")])
prop("C29", "t_peak densities are normalized and sampling follows them",
     "For all in-bounds parameters, masses and times the t_peak densities are non-negative and integrate to one over their support, the cumulative distributions rise monotonically from 0 to 1 over it and are the integrals of the densities, and the mass- and time-dependence of their parameters follows the documented formulas. Random draws stay inside the support and follow the cumulative distribution (with the documented floor for centrals).",
     ["inputs"], "all in-bounds parameters, lgm 10-16, t_obs 1-14, t_0 10-15, all keys",
     "Tests check finiteness and a histogram comparison for one or two parameter sets.",
     [TK + "utp_pdf_kernels.py", TK + "tp_pdf_cens.py", TK + "tp_pdf_cens_flex.py", TK + "tp_pdf_sats.py"],
     [("truncated normal", TK + "utp_pdf_kernels.py:_tp_pdf_kern"), ("inverse-CDF sampling", TK + "utp_pdf_kernels.py:mc_tp_pdf_singlesat"), ("sigmoid CDF", TK + "tp_pdf_cens_flex.py:mc_utp_singlecen")])
prop("C30", "Tabulated population targets contain each qualifying halo in its bin",
     "Tabulating the halo samples puts every well-fit halo, with its own parameters, into the central or satellite file of each (mass, time) bin whose mass window contains its mass at that time according to its host status at that time, up to the documented per-subvolume cap, and nowhere else; poorly fit halos appear nowhere. Its temporary files, and nothing else in the output directory, are removed. The tabulated means, scatters and peaked fractions are those of the stored samples, and the target loader attaches to each bin samples and histories that belong to that bin, subject to its documented cuts.",
     ["inputs", "histories"], "random catalogs, subvolume ranges, bin counts, host-status histories, failed fits; single-halo bins",
     "There are no tests of the tabulation script or of the target loader.",
     ["scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py", PK + "load_diffmahpop_fitdata.py"],
     [("binning", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:get_target_mah_params"), ("collation", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:collate_subvolume_samples"), ("sample attachment", PK + "load_diffmahpop_fitdata.py:_attach_samples")])
prop("C31", "Summary statistics of mass histories equal their definitions",
     "The summary-statistics function returns the mean mass, mean log10 mass, variance of log10 mass, mean accretion rate and its variance of the histories after each is rescaled to the requested final mass, interpolated to the target times, invariant under reordering halos and rescaling any halo's mass units. The outlier mask keeps exactly the halos whose rescaled log10 mass stays within the given number of trimmed standard deviations of the trimmed mean at every checked time.",
     ["inputs"], "random halo populations of 2 to hundreds of halos, time grids, target times, trimming limits and thresholds",
     "These functions have no tests.",
     ["diffmah/fitting_helpers/measure_mahs.py"], [("rescaling and interpolation", "diffmah/fitting_helpers/measure_mahs.py:measure_target_data"), ("outlier mask", "diffmah/fitting_helpers/measure_mahs.py:get_clean_sample_mask")])
prop("C32", "Array utilities satisfy their algebraic definitions",
     "For all valid inputs: time-interval widths are positive and tile the time axis with edges midway between samples; the triangular-matrix builder places every parameter exactly once with the first n on the diagonal and the rest in row order below it; covariance and correlation conversions invert each other; the sigmoid and its inverse invert each other and respect their limits; broadcasting of scalars and arrays keeps values and dtypes. Trimmed mean and variance equal those of the points inside the trimming percentiles.",
     ["inputs"], "sorted time arrays of 2 to hundreds of points, matrices of dimension 1-10, arbitrary sample arrays and trimming fractions incl. 0, constant samples",
     "Tests cover one or two fixed inputs per utility.",
     ["diffmah/utils.py"], [("get_dt_array", "diffmah/utils.py:get_dt_array"), ("get_cholesky_from_params", "diffmah/utils.py:get_cholesky_from_params"), ("trimmed statistics", "diffmah/utils.py:trimmed_mean_and_variance")])
prop("C33", "Results do not depend on how the code is executed",
     "Mass histories, parameter mappings, population predictions and fits are the same, to floating-point tolerance, whether compilation is enabled or disabled, in single or double precision, called directly or inside jit, vmap or grad of the caller, and regardless of input container (Python float, NumPy or JAX array). Monte Carlo draws for a given key are the same at a given precision (at another precision the generator draws another, statistically equal population). With 64-bit enabled, deterministic results are good to double precision. No call leaks traced values or raises under NaN checking for valid inputs.",
     ["configurations"], "JAX configuration flags (jit disabled, 64-bit enabled, NaN debugging, tracer-leak checking), caller transformations and input container types",
     "Tests run in one configuration only.",
     [DK, FH, PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "bimod_censat_params.py", "diffmah/utils.py"],
     [("jit-decorated pure functions", DK), ("key-based randomness", PK + "mc_bimod_cens.py")])
prop("C34", "Fitters of the population's component relations recover their truth",
     "Every component fitter runs on noiseless data generated by that same component and returns finite parameters whose reported loss is the component's loss at them, no larger than at the start of the fit; started at the truth it stays there, the t_peak distribution fitter recovers the distribution from its own default start, and fits made in unbounded space stay inside the parameter bounds. The component losses are zero exactly at perfect agreement and equal the mean squared (or mean absolute) difference they document.",
     ["inputs"], "random in-bounds truths for each component with its own data grid",
     "Tests run each component fitter on one or two default truths.",
     [TK + "utp_pdf_kernels.py", TK + "tp_pdf_cens.py", PK + "bimod_logm0_kernels/logm0_c0_early.py", PK + "bimod_logm0_kernels/logm0_c1_early.py", PK + "bimod_logm0_sats/logm0_c0_early.py", PK + "logtc_early.py", PK + "early_index_alpha.py"],
     [("t_peak_fitter", TK + "utp_pdf_kernels.py:t_peak_fitter"), ("fit_global_c0_model", PK + "bimod_logm0_kernels/logm0_c0_early.py:fit_global_c0_model"), ("component losses", PK + "logtc_early.py:_loss_kern")])
prop("C35", "Diagnostic figures show the right targets and predictions",
     "Each single-panel diagnostic figure of centrals or satellites draws, for each of its three masses, the target mean and one-sigma band of the table row at the figure's redshift whose mass is nearest, and the mean and mean plus and minus scatter that the model of that halo type predicts for that row's own mass, time and time grid (z=0 age 13.79 Gyr, random key 0). The four-panel residual figures draw predicted minus target mean of the row nearest in time and mass, coloured from blue (low mass) to red. The table is not modified and exactly the figure's own file is written.",
     ["inputs"], "target tables of any length and row order, with bins missing, and any in-bounds population parameters",
     "These functions have no tests.",
     [PK + "diagnostics/plot_bestfit_cen_mahs.py", PK + "diagnostics/plot_bestfit_sat_mahs.py"],
     [("single-panel figures", PK + "diagnostics/plot_bestfit_cen_mahs.py:plot_singlepanel_mahs_centrals_z0"), ("residual panels", PK + "diagnostics/plot_bestfit_sat_mahs.py:plot_sat_mah_4panel_residuals")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
