"""C22: any finite numeric data set can be fitted and gives finite predictions."""
import numpy as np
import pandas as pd

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one fit of the public estimator (or an extension, a batch run, a copied estimator) on a hostile finite data set in one of many input types; "
        "a state is a distinct data set on which a tree split at least once; crashes, non-termination within the CPU budget and non-finite outputs are violations")
ASSUMPTIONS = ["finite covariates of magnitude up to 1e300 and targets between 1e-280 and 1e280 (or zero); p_grow and p_prune strictly between 0 and 1; NaN and infinite values are out of scope",
               "the sklearn-tree initializer is exercised only with covariates in float32 range, which scikit-learn requires"]


def finite(case, m, X, y, Z, what="fit"):
    y = np.asarray(y, dtype=float)
    out = np.asarray(m.predict(X), dtype=float)
    case.check(out.shape == (len(y),) and np.all(np.isfinite(out)), "predictions of the training rows are not finite", shape=out.shape)
    pz = np.asarray(m.predict(Z), dtype=float)
    case.check(pz.shape == (len(Z),) and np.all(np.isfinite(pz)), "predictions of new rows are not finite")
    case.check(np.all(np.isfinite(np.asarray(m.residuals(X), dtype=float))), "residuals are not finite")
    for s in m.model_samples:
        v = float(s.sigma.current_value())
        case.check(np.isfinite(v) and v > 0, "a sigma is not positive and finite", sigma=v)
        u = float(s.sigma.current_unnormalized_value())
        case.check(np.isfinite(u) and u >= 0, "an original-scale sigma is not finite", sigma=u)
        if y.max() > y.min():
            case.check(u > 0, "an original-scale sigma is not positive", sigma=u)
    if m.store_in_sample_predictions:
        case.check(np.all(np.isfinite(m.predict())), "in-sample predictions are not finite")
        case.check(np.all(np.isfinite(m.prediction_samples)), "prediction samples are not finite")
    case.check(len(m.model_samples) > 0, "a fit stores nothing")
    # BART shrinks towards the observed range: predictions cannot leave it by orders of magnitude
    span = float(y.max() - y.min())
    mid = (float(y.max()) + float(y.min())) / 2
    case.check(np.all(np.abs(out - mid) <= 50 * span + 1e-6 * abs(mid) + (5 if span == 0 else 0)), "predictions are nowhere near the target", worst=float(np.abs(out - mid).max()), span=span)
    case.count("fits")
    if any(oracle.tree_shape(t)[0] == "D" for s in m.model_samples for t in s.trees):
        case.count("fits_with_splits")
        case.seen(np.asarray(X, dtype=float) if not isinstance(X, pd.DataFrame) else X.values.astype(float), y)


def sampler(rng):
    u = rng.uniform()
    pg = float(rng.choice([.5, .7, .95, .05, .999, .001]))
    if u < .25:
        return gen.real_sampler(pg, oblivious=True)
    if u < .45:
        return gen.forcing_sampler(pg, oblivious=rng.uniform() < .3)
    return gen.real_sampler(pg)


def args(rng, X=None):
    d = dict(n_trees=int(rng.choice([1, 2, 5, 30])), n_chains=int(rng.choice([1, 2])), n_samples=int(rng.choice([1, 3, 10])), n_burn=int(rng.choice([0, 1, 8])),
             thin=float(rng.choice([1., .5, .1, .01])), alpha=float(rng.choice([.95, .5, .999])), beta=float(rng.choice([2., 0., .5, 5.])),
             sigma_a=float(rng.choice([.001, 1., 5.])), sigma_b=float(rng.choice([.001, 1., 1e-6])), store_in_sample_predictions=bool(rng.randint(2)),
             store_acceptance_trace=bool(rng.randint(2)), tree_sampler=sampler(rng))
    if X is not None and rng.uniform() < .2 and np.all(np.abs(X) < 1e30):
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        d["initializer"] = SklearnTreeInitializer(max_depth=int(rng.randint(1, 5)))
    return d


def saturate(case):
    """Tiny data, proposals forced through: trees saturate so that no leaf can be split or nothing can be pruned."""
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 4, 6]))
    X, names = gen.covariates(rng, n, int(rng.randint(1, 4)))
    y, t = gen.target(rng, X)
    case.describe(n=n, columns=names, target=t)
    obl = rng.uniform() < .4
    m = gen.est(n_trees=int(rng.choice([1, 2])), n_samples=int(rng.choice([30, 100])), tree_sampler=gen.forcing_sampler(float(rng.choice([.5, .9, .99])), oblivious=obl))
    m.fit(X, y)
    finite(case, m, X, y, gen.predict_rows(rng, X, 5))
    case.count("saturated")


def hostile(case):
    rng = case.rng
    X, y, d = gen.dataset(rng)
    a = args(rng, X)
    case.describe(**d, **{k: v for k, v in a.items() if isinstance(v, (int, float, bool))})
    if len(X) > 200:
        a["n_trees"], a["n_samples"], a["n_burn"] = 2, 3, 0
    m = gen.est(**a)
    m.fit(X, y)
    finite(case, m, X, y, gen.predict_rows(rng, X, 10))


TYPES = ["float16", "big_endian", "int", "longdouble", "int8", "uint8", "bool", "float32", "object", "mixed_frame", "bool_frame", "int_frame", "indexed_frame", "object_frame", "nullable_frame", "fortran", "strided",
         "readonly", "dup_names", "int_names", "one_col_frame"]
YTYPES = ["float16", "big_endian", "object", "nullable", "float", "int", "bool", "float32", "series", "indexed_series", "int_series", "readonly", "uint8", "strided"]


def typed(case):
    rng = case.rng
    n = int(rng.choice([1, 2, 5, 20]))
    kind, yk = TYPES[case.index % len(TYPES)], YTYPES[(case.index // 3) % len(YTYPES)]
    a, b, c, d = rng.randint(0, 7, size=n), rng.uniform(size=n) < .5, rng.normal(size=n), rng.randint(0, 3, size=n)
    F = np.stack([a, b, c, d], axis=1).astype(float)
    idx = rng.permutation(n) * 3 + 7
    if kind == "int":
        X = F.round().astype(int)
    elif kind in ("int8", "uint8"):
        X = np.abs(F.round()).astype(kind)
    elif kind == "bool":
        X = F > 0.5
    elif kind == "float32":
        X = F.astype(np.float32)
    elif kind == "float16":
        X = F.astype(np.float16)
    elif kind == "longdouble":
        X = F.astype(np.longdouble)
    elif kind == "big_endian":
        X = F.astype(">f8")
    elif kind == "object":
        X = F.astype(object)
    elif kind == "mixed_frame":
        X = pd.DataFrame({"a": a, "b": b, "c": c, "d": d.astype(np.int8)})
    elif kind == "bool_frame":
        X = pd.DataFrame({"b": b, "e": ~b})
    elif kind == "int_frame":
        X = pd.DataFrame({"a": a, "d": d})
    elif kind == "indexed_frame":
        X = pd.DataFrame({"a": a, "b": b, "c": c}, index=idx)
    elif kind == "object_frame":
        X = pd.DataFrame(F.astype(object), columns=list("abcd"))
    elif kind == "nullable_frame":
        X = pd.DataFrame({"a": pd.array(a, dtype="Int64"), "b": pd.array(b, dtype="boolean"), "c": pd.array(c, dtype="Float64")})
    elif kind == "fortran":
        X = np.asfortranarray(F)
    elif kind == "strided":
        X = np.repeat(np.repeat(F, 2, axis=0), 2, axis=1)[::2, ::2]
    elif kind == "readonly":
        X = F.copy()
        X.setflags(write=False)
    elif kind == "dup_names":
        X = pd.DataFrame(F, columns=["a", "a", "b", "b"])
    elif kind == "int_names":
        X = pd.DataFrame(F, columns=[3, 2, 1, 0])
    else:
        X = pd.DataFrame({"c": c})
    base = np.round(gen.signal(F) * 3 + rng.normal(size=n))
    y = {"float": base + .25, "int": base.astype(int), "bool": base > np.median(base), "float32": base.astype(np.float32), "series": pd.Series(base + .1),
         "indexed_series": pd.Series(base, index=idx), "int_series": pd.Series(base.astype(int)), "uint8": np.abs(base).astype(np.uint8),
         "strided": np.repeat(base, 2)[::2], "readonly": base.copy(), "float16": (np.clip(base, -10, 10) * 6000).astype(np.float16), "big_endian": base.astype(">f8"),
         "object": base.astype(object), "nullable": pd.Series(pd.array(base.astype(int), dtype="Int64"))}[yk]
    if yk == "readonly":
        y.setflags(write=False)
    case.describe(n=n, X=kind, y=yk)
    V = np.asarray(X.values if isinstance(X, pd.DataFrame) else X).astype(float)
    m = gen.est(n_trees=3, n_samples=4, store_in_sample_predictions=bool(rng.randint(2)), tree_sampler=sampler(rng))
    m.fit(X, y)
    Z = X if isinstance(X, pd.DataFrame) else X
    finite(case, m, X, np.asarray(y, dtype=float), Z)
    case.close(np.asarray(m.predict(V)), np.asarray(m.predict(X)), "the same rows as floats predict differently", rtol=1e-12, atol=1e-12)
    case.count("typed_" + ("frame" if isinstance(X, pd.DataFrame) else "array"))
    case.count("typed_targets")


def scales(case):
    """Extreme scales and offsets of target and covariates."""
    rng = case.rng
    n = int(rng.choice([2, 5, 30]))
    X = rng.normal(size=(n, 2))
    e = float(rng.choice([1e-280, 1e-180, 1e-100, 1e-30, 1e-9, 1e9, 1e30, 1e100, 1e180, 1e280]))
    off = float(rng.choice([0., 1e12, -1e15, 1e-12])) if .001 < e < 1e20 else 0.
    y = (gen.signal(X) + .1 * rng.normal(size=n)) * e + off
    X = X * float(rng.choice([1., 1e-150, 1e150, 1e300])) if rng.uniform() < .6 else X + float(rng.choice([1e8, -1e12]))
    case.describe(n=n, scale=e, offset=off)
    m = gen.est(n_trees=int(rng.choice([1, 5])), n_samples=5, store_in_sample_predictions=bool(rng.randint(2)))
    m.fit(X, y)
    finite(case, m, X, y, gen.predict_rows(rng, X, 4))
    case.count("scaled")


def degenerate(case):
    """Constant targets, identical rows, single rows, constant columns, through fit, refit, fit_predict, batch runs and extensions."""
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 10]))
    if rng.uniform() < .25:                                # many columns, hardly any of them of use
        p = int(rng.choice([40, 41, 60, 130, 300]))
        X = np.tile(rng.normal(size=p), (n, 1))
        if rng.uniform() < .4:
            X[:, rng.randint(p)] = rng.normal(size=n)
        case.count("degenerate_wide")
    else:
        X = [np.zeros((n, 2)), np.tile(rng.normal(size=3), (n, 1)), np.stack([np.ones(n), np.arange(n)], 1), np.full((n, 1), 1e300), rng.normal(size=(n, 1))][rng.randint(5)]
    y = [np.zeros(n), np.full(n, 5.), np.full(n, -1e9), rng.normal(size=n), np.full(n, 1e-300), (np.arange(n) == 0) * 1.][rng.randint(6)]
    how = ["fit", "refit", "fit_predict", "batch", "extension", "copy"][case.index % 6]
    case.describe(n=n, how=how, X=X[:2], y=y[:3])
    m = gen.est(n_trees=int(rng.choice([1, 3])), n_samples=3, store_in_sample_predictions=how == "fit_predict" and rng.uniform() < .5, tree_sampler=sampler(rng))
    if how == "fit":
        m.fit(X, y)
    elif how == "refit":
        m.fit(rng.normal(size=(7, X.shape[1])), rng.normal(size=7))
        m.fit(X, y)
    elif how == "fit_predict":
        p = m.fit_predict(X, y)
        case.check(np.all(np.isfinite(p)) and np.shape(p) == (n,), "fit_predict is not finite")
    elif how == "batch":
        from bartpy.runner import run_models
        m = run_models(m, [X, X], [y, y])[1]
    elif how == "extension":
        from bartpy.extensions.baseestimator import ResidualBART
        if np.abs(X).max() > 1e100:
            X = np.ones_like(X)
        e = ResidualBART(n_trees=2, n_chains=1, n_samples=3, n_burn=1, thin=1., n_jobs=1)
        e.fit(X, y)
        case.check(np.all(np.isfinite(e.predict(X))) and np.all(np.isfinite(e.residuals(X))), "an extension's predictions are not finite")
        m.fit(X, y)
    else:
        import copy
        m = copy.deepcopy(m).fit(X, y)
    finite(case, m, X, y, X)
    if y.max() == y.min():
        case.count("constant_targets")
        out = m.predict(X)
        case.check(np.all(np.abs(out - y[0]) <= 10 + 1e-6 * abs(y[0])), "predictions of a constant target are nowhere near it", got=out[:3], target=y[0])
    case.count("degenerate_" + how)


def empty(case):
    rng = case.rng
    X, y = [(np.zeros((0, 3)), np.zeros(0)), (np.zeros((5, 0)), np.arange(5.)), (pd.DataFrame({"a": []}), np.zeros(0)), (pd.DataFrame(index=range(4)), np.arange(4.)),
            (np.zeros((0, 0)), np.zeros(0)), (np.zeros((1, 0)), np.ones(1))][case.index % 6]
    m = gen.est(tree_sampler=sampler(rng), n_chains=int(rng.choice([1, 2])))
    if rng.uniform() < .5:
        m.fit(rng.normal(size=(4, 2)), rng.normal(size=4))
    case.describe(shape=X.shape)
    case.raises(ValueError, lambda: m.fit(X, y), "an empty covariate matrix is not rejected with a ValueError")
    case.raises(ValueError, lambda: m.fit_predict(X, y), "an empty covariate matrix is not rejected with a ValueError")
    case.count("rejected")


def wide(case):
    """Many columns, many rows, many trees, default-like settings."""
    rng = case.rng
    n, p = [(3, 300), (2000, 3), (50, 50), (400, 20), (20000, 2), (30, 3)][case.index % 6]
    X, names = gen.covariates(rng, n, p)
    y, t = gen.target(rng, X)
    case.describe(n=n, p=p, target=t)
    m = gen.est(n_trees=[20, 5, 50, 10, 2, 400][case.index % 6], n_samples=4, n_burn=2)
    m.fit(X, y)
    finite(case, m, X, y, gen.predict_rows(rng, X, 20))
    case.count("wide")


def parts():
    return [Part("hostile", hostile, 240, 4000, needs=("fits", "fits_with_splits")),
            Part("typed", typed, 90, 900, needs=("typed_frame", "typed_array", "typed_targets")),
            Part("saturate", saturate, 80, 1000, needs=("saturated", "fits_with_splits")),
            Part("scales", scales, 60, 800, needs=("scaled",)),
            Part("degenerate", degenerate, 90, 900, needs=("constant_targets", "degenerate_wide", "degenerate_extension", "degenerate_batch", "degenerate_refit", "degenerate_fit_predict")),
            Part("empty", empty, 12, 60, needs=("rejected",)),
            Part("wide", wide, 12, 60, needs=("wide",))]
