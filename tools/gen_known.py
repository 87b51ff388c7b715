"""Regenerates known_findings.jsonl (hand-maintained list below)."""
import json, os
FIXED = [
 ("C22", "fb03999", "late_index_bimod: get_bounded/unbounded round trip returned the beta parameters in the alpha fields"),
 ("C29", "5fcdb86", "tp_pdf_cens: the t_peak CDF was divided by t_0, so it ended at 1/t_0 instead of 1"),
 ("C30", "79e89f4", "load_diffmahpop_targets ignored drn and passed four-parameter tuples to the five-parameter model"),
 ("C30", "0913d9f", "smdpl tabulation called mah_halopop with an obsolete signature and let NOFIT rows (loss -1/-99) through its loss cut"),
 ("C15", "6b6273e", "load_flat_hdf5 merged equally named datasets of different nested groups"),
 ("C25", "8f829d2", "t_peak and the scatter of the diffmah parameters were drawn from the same key, so they were perfectly correlated"),
 ("C17", "f3565fc", "fitting scripts crashed collating ranks that had zero or one halo"),
 ("C17", "7c1c634", "LastJourney script: the default -iend dropped the last subvolume"),
 ("C17", "8dc327f", "discovery script imported HEADER/get_outline from a module that does not define them"),
 ("C18", "409c0d1", "fitting scripts removed temporary files with an unquoted shell rm (blanks or metacharacters in outdir/outbase)"),
 ("C11", "7ea665a", "jax_adam_wrapper reported failure for a fit that converged to tol"),
 ("C09", "0d01a79", "halo masses at or below lgm_min entered the target when the drop cut was the larger one"),
 ("C32", "9223f37", "trimmed_mean dropped the points lying on the trimming boundary"),
 ("C23", "a46753a", "the mean logm0 of the population model could leave the individual-halo bounds"),
 ("C17", "5cb2071", "fitting scripts failed for output directories whose name contains braces"),
 ("C32", "91408c8", "trimmed_mean and trimmed_mean_and_variance lost tied points to rounding of the interpolated percentile; a constant sample gave NaN"),
 ("C30", "d8bc41b", "smdpl tabulation: an unquoted shell rm of subvol_N* failed for (or deleted other files of) output directories with blanks, and deleted files of the same prefix that are not its own; directories with brackets lost all samples"),
 ("C34", "8291cd9", "fit_global_c0_model and fit_global_c1_model of the early, late, central and satellite logm0 relations always raised AttributeError"),
 ("C09", "c3c7b2d", "zero masses (missing progenitors) entered the target as 1e-7 Msun when dlogm_cut reached that far below the final mass and no mass floor was given"),
]
KNOWN = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for p, c, w in FIXED:
        f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, line=f"fixed: property={p} {c} {w}")) + "\n")
    for p, k, w in KNOWN:
        f.write(json.dumps(dict(status="known", property=p, key=k, what=w)) + "\n")
