"""Writes MANIFEST.json from the table below; run from /verif."""
import json

TECH = {
 "C01": ("runtime monitor on live and stored trees: row-to-leaf membership against an independent rule walk", "every leaf of every tree seen after each structural step, evaluated on training, unseen, on-threshold and extreme rows; randomised data and histories, no exhaustiveness"),
 "C02": ("structural invariant monitor after every mutation plus a mirrored (shadow) tree", "randomised mutation histories through the sampler, forced acceptance and direct mutation"),
 "C03": ("cache-consistency monitor: randomly timed statistics queries against recomputation", "random query order and timing over mutation histories"),
 "C04": ("legality monitor on every proposal plus chi-square conformance to the exact proposal distribution", "two-stage statistical confirmation, finite resolution"),
 "C05": ("wrapper samplers check the target of each tree at every update, with injected errors and extra steps", "fault injection at random steps, long runs, up to 200 trees"),
 "C06": ("operation-sequence fuzzing with an in-sample prediction monitor", "random interleavings of value changes, mutations, target updates and predictions"),
 "C07": ("differential monitor of every computed log ratio against a definition-level oracle", "dense Gaussian marginals, rule-only counts, random hyperparameters"),
 "C08": ("before/after tree diff around every step plus acceptance-frequency and independence tests", "two-stage statistical confirmation"),
 "C09": ("exact draws with a prescribed deviate plus standardised real draws tested for normality and independence", "crosses cache refreshes"),
 "C10": ("probability-integral-transform monitor of every sigma draw", "two-stage statistical confirmation"),
 "C11": ("joint-distribution (Geweke) monitor and exact enumerated-kernel frequencies", "finite resolution; tiny data for enumeration"),
 "C12": ("trace monitor of the order of sampling events in each sweep", "random models, both tree samplers, custom schedules"),
 "C13": ("event-log checker: recorded draws against the log of sweeps", "random burn, samples, thin, storage flags and chains"),
 "C14": ("digest of samples at storage time compared after further sampling and tampering", "heap reachability for the training data"),
 "C15": ("public API predictions against an independent evaluation of all stored samples", "random fits, row orders, batches and input types"),
 "C16": ("paired-seed runs under exactly representable affine maps of the target", "powers of two and integers for exact pairs, tolerance otherwise"),
 "C17": ("paired-seed runs under strictly increasing transforms and constant columns", "random transforms"),
 "C18": ("digest monitors on caller arrays and paired reproducibility runs after arbitrary histories", "random histories in one process"),
 "C19": ("schedule exploration: chains in sequence, threads with injected delays, worker processes; draw disjointness", "schedules sampled, not enumerated"),
 "C20": ("tagged data sets through batch runs; returned models matched to their tags", "random batches and chain counts"),
 "C21": ("API contract monitor over random parameter sets", "round trips through get_params, clone, set_params, pickle, cross validation"),
 "C22": ("hostile-input fuzzing of the public API with a finiteness and progress monitor", "CPU-time watchdog for termination"),
 "C23": ("differential monitor against the recorded sklearn estimators", "float32-representable covariates"),
 "C24": ("recorded base-model calls against the combined predictions", "several base models and hyperparameters"),
 "C25": ("recomputation of proportions, null distributions, thresholds and masks from stored samples", "random models and distributions"),
 "C26": ("call-log checker over recorded fits and scores", "recording estimator, random folds and permutations"),
 "C27": ("artist inspection on real figures against recomputed values", "random fitted models"),
 "C28": ("differential monitor: answers and fingerprints of a queried model against a freshly fitted copy", "random query sequences, reused and overwritten buffers, threads"),
 "C29": ("call-log checker over recording user components", "random tables of moves, proposers, ratios, schedules, samplers, initializers"),
 "C30": ("statistical oracles and replay checks over recorded draws", "all cache sizes, interleavings, copies, value types"),
 "C31": ("shadow oracle over proposals, ratios and steps of the level-wise sampler", "mutation histories of every kind, chi-square on thousands of proposals per tree"),
 "C32": ("fault injection at every stage of a fit, with a before/after diff of everything the estimator stores and answers", "random failure points, errors, asynchronous signals, dying workers"),
}


def main():
    import os
    have = [c for c in sorted(TECH) if os.path.exists("vf/checks/%s.py" % c.lower())]
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, sklearn, pandas, matplotlib, seaborn, statsmodels, joblib' && chmod +x check.sh",
         "checks": [{"property": c, "quick_cmd": "./check.sh %s quick" % c, "thorough_cmd": "./check.sh %s thorough" % c,
                     "evidence_file": "evidence/%s.json" % c, "technique": "runtime monitoring: " + TECH[c][0], "level": "exploration",
                     "level_note": TECH[c][1]} for c in have],
         "not_applicable": []}
    missing = [c for c in sorted(TECH) if c not in have]
    m["not_applicable"] = [{"property": c, "reason": "check not built yet"} for c in missing]
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")


main()
