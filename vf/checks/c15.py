"""C15: predictions are the posterior mean, row by row, in the target's units."""
import numpy as np
import pandas as pd
from sklearn.metrics import r2_score

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one fitted estimator (random data, trees, chains, thinning, storage flags, sampler, initializer); its predictions are compared with an independent "
        "evaluation of every stored sample and with themselves under row permutations, batches and input types; a state is a distinct fit with a split in some sample")
ASSUMPTIONS = ["equality up to floating-point rounding at the scale of the target"]


def reference(samples, Z, y):
    f = np.mean([oracle.model_predict(s, Z) for s in samples], axis=0)
    return float(y.min()) + (f + 0.5) * float(y.max() - y.min())


def random_fit(case, **kw):
    rng = case.rng
    X, y, d = gen.dataset(rng, targets=["signal", "noise", "strong", "binary", "ints", "outlier", "offset", "tiny_scale", "huge_scale", "neg", "constant"], **kw)
    if len(X) > 300:
        X, y = X[:300], y[:300]
    args = dict(n_trees=gen.n_trees(rng, [1, 2, 5, 20]), n_chains=int(rng.choice([1, 1, 2, 3])), n_samples=int(rng.choice([1, 4, 10, 25])),
                n_burn=int(rng.choice([0, 3, 10])), thin=float(rng.choice([1., 1., .5, .1])), store_in_sample_predictions=bool(rng.uniform() < 0.5),
                store_acceptance_trace=bool(rng.uniform() < 0.5), alpha=float(rng.choice([.95, .6])), beta=float(rng.choice([2., .5])),
                tree_sampler=gen.real_sampler(gen.p_grow(rng), oblivious=rng.uniform() < 0.15))
    if rng.uniform() < 0.2 and np.all(np.abs(X) < 1e30):
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        args["initializer"] = SklearnTreeInitializer(max_depth=2)
    case.describe(**d, **{k: v for k, v in args.items() if k not in ("tree_sampler", "initializer")})
    m = gen.est(**args)
    return m, X, y


def tol(y):
    return 1e-9 * (float(np.abs(y).max()) + float(y.max() - y.min())) * 10 + 1e-300


def check_predictions(case, m, X, y, Z):
    rng = case.rng
    want = reference(m.model_samples, Z, y)
    t = tol(y)
    got = m.predict(Z)
    case.close(got, want, "a prediction is not the mean over all stored draws in the target's units", rtol=1e-9, atol=t)
    perm = rng.permutation(len(Z))
    case.close(m.predict(Z[perm]), got[perm], "a prediction depends on the order of the rows", rtol=1e-12, atol=t)
    i = int(rng.randint(len(Z)))
    case.close(m.predict(Z[i:i + 1]), got[i:i + 1], "a prediction depends on the other rows", rtol=1e-12, atol=t)
    cut = int(rng.randint(1, len(Z) + 1))
    case.close(np.concatenate([m.predict(Z[:cut])] + ([m.predict(Z[cut:])] if cut < len(Z) else [])), got, "a prediction depends on the batch", rtol=1e-12, atol=t)
    for k in {len(X), min(len(X), len(Z)), int(rng.randint(1, len(Z) + 1))}:     # batches of the same shape one after the other, some sharing rows
        first = rng.randint(len(Z), size=k)
        second = rng.randint(len(Z), size=k)
        third = first.copy()
        third[1:-1] = second[1:-1]
        for sel in (first, second, third, first):
            case.close(m.predict(Z[sel]), got[sel], "a prediction depends on the rows predicted before or with it", rtol=1e-12, atol=t)
    names = ["c%d" % j for j in range(Z.shape[1])]
    df = pd.DataFrame(Z, columns=names, index=rng.permutation(len(Z)) + 100)
    case.close(np.asarray(m.predict(df)), got, "a prediction depends on whether rows come as a DataFrame", rtol=1e-12, atol=t)
    case.close(m.predict(np.asfortranarray(Z)), got, "a prediction depends on the memory layout", rtol=1e-12, atol=t)
    case.count("predictions", len(Z))
    if any(s[0] == "D" for smp in list(m.model_samples)[:3] for s in [oracle.tree_shape(x) for x in smp.trees]):
        case.seen(want)


def check_errors(case, m, X, y, Z, yz):
    rng = case.rng
    t = tol(np.concatenate([y, yz]))
    pz = m.predict(Z)
    case.close(m.residuals(Z, yz), yz - pz, "residuals are not target minus prediction", rtol=1e-9, atol=t)
    case.close(m.l2_error(Z, yz), (yz - pz) ** 2, "squared errors are not the squares of the residuals", rtol=1e-6, atol=t * t)
    case.close(m.rmse(Z, yz), np.sqrt(np.sum((yz - pz) ** 2)), "the root error is not the root of the summed squared errors", rtol=1e-6, atol=t * len(Z))
    if len(yz) > 1 and yz.max() - yz.min() > 1e-6 * max(1e-300, np.abs(yz).max()):
        case.close(m.score(Z, yz), r2_score(yz, pz), "score is not R^2 of the predictions", rtol=1e-6, atol=1e-6)
    for i in sorted(rng.choice(len(Z), min(4, len(Z)), replace=False)):            # one row at a time, on both sides of its prediction
        for yi in (yz[i:i + 1], 2 * pz[i:i + 1] - yz[i:i + 1]):
            one = Z[i:i + 1]
            case.close(m.residuals(one, yi), yi - pz[i:i + 1], "the residual of a single row is not target minus prediction", rtol=1e-9, atol=t)
            case.close(m.l2_error(one, yi), (yi - pz[i:i + 1]) ** 2, "the squared error of a single row is not the square of its residual", rtol=1e-6,
                       atol=t * t + t * float(np.abs(yi - pz[i:i + 1]).max()))
            case.close(m.rmse(one, yi), float(np.abs(yi[0] - pz[i])), "the root error of a single row is not the size of its residual", rtol=1e-6, atol=t)
            case.count("single_rows")
    px = m.predict(X)
    case.close(m.residuals(X), y - px, "residuals on the training rows are not training target minus prediction", rtol=1e-9, atol=t)
    case.close(m.l2_error(X), (y - px) ** 2, "training squared errors are wrong", rtol=1e-6, atol=10 * t * max(t, np.abs(y - px).max()))
    case.count("error_measures")


def fits(case):
    rng = case.rng
    m, X, y = random_fit(case)
    Xin = pd.DataFrame(X, columns=["v%d" % j for j in range(X.shape[1])]) if rng.uniform() < 0.25 else X
    out = m.fit(Xin, y)
    case.check(out is m, "fit does not return the estimator")
    Z = np.concatenate([X, gen.predict_rows(rng, X, int(rng.choice([1, 5, 40])))])
    check_predictions(case, m, X, y, Z)
    check_errors(case, m, X, y, Z, y[rng.randint(len(y), size=len(Z))] + rng.normal() * (y.max() - y.min()))
    check_in_sample(case, m, X, y)


def check_in_sample(case, m, X, y):
    t = tol(y)
    if m.store_in_sample_predictions:
        got = m.predict()
        case.close(got, reference(m.model_samples, np.asarray(X, float), y), "the in-sample prediction is not the mean over all stored draws", rtol=1e-9, atol=t)
        case.close(got, m.predict(X), "in-sample and out-of-sample predictions of the training rows differ", rtol=1e-9, atol=t)
        case.close(m.residuals(), y - got, "in-sample residuals are not training target minus prediction", rtol=1e-9, atol=t)
        P = np.asarray(m.prediction_samples)
        case.check(P.shape == (len(m.model_samples), len(X)), "prediction samples are not one row per draw", shape=P.shape)
        for j in (0, len(P) - 1):
            case.close(P[j], oracle.model_predict(m.model_samples[j], np.asarray(X, float)), "a prediction sample is not that of its draw", rtol=0, atol=1e-9)
        case.count("in_sample")
    else:
        case.raises(ValueError, lambda: m.predict(), "in-sample predictions that were not stored are not refused")
        case.raises(ValueError, lambda: m.predict(None), "in-sample predictions that were not stored are not refused")
        case.count("refused")


def fit_predict(case):
    rng = case.rng
    m, X, y = random_fit(case, sizes=[1, 2, 5, 20])
    got = m.fit_predict(X, y)
    case.close(got, reference(m.model_samples, X, y), "fit_predict is not the prediction of the training rows", rtol=1e-9, atol=tol(y))
    check_in_sample(case, m, X, y)


def types(case):
    """Integer, boolean, object and mixed covariates predict like their float values."""
    rng = case.rng
    n = int(rng.choice([5, 20, 40]))
    a, b, c = rng.randint(-5, 6, size=n), rng.uniform(size=n) < 0.5, rng.normal(size=n)
    y = gen.signal(np.stack([a, c], 1).astype(float)) + 0.3 * rng.normal(size=n)
    df = pd.DataFrame({"a": a, "b": b, "c": c})
    kind = case.index % 4
    X = [df, df[["a", "b"]].values.astype(int), df.values.astype(object), df[["a", "b"]].astype(bool)][kind]
    F = np.asarray(X.values if isinstance(X, pd.DataFrame) else X).astype(float)
    m = gen.est(n_trees=4, n_samples=5, store_in_sample_predictions=True)
    m.fit(X, y)
    case.describe(kind=["mixed frame", "int array", "object array", "bool frame"][kind], n=n)
    want = reference(m.model_samples, F, y)
    case.close(m.predict(X), want, "prediction differs for this type of covariates", rtol=1e-9, atol=tol(y))
    case.close(m.predict(F), want, "prediction differs for this type of covariates", rtol=1e-9, atol=tol(y))
    case.close(m.predict(), want, "prediction differs for this type of covariates", rtol=1e-9, atol=tol(y))
    case.count("typed_fits")


def big(case):
    """Many samples, many rows."""
    rng = case.rng
    n, p = [(60, 4), (60, 4), (1500, 3), (40, 30)][case.index % 4]
    X, names = gen.covariates(rng, n, p, ["normal", "ints", "binary"])
    y, _ = gen.target(rng, X, "signal")
    kw = dict(n_trees=10, n_samples=int(rng.choice([60, 150])), n_chains=2, n_burn=5)
    if case.index % 4 == 1:
        kw = dict(n_trees=2, n_samples=520, n_chains=3, n_burn=0)
    elif case.index % 4 == 2:
        kw = dict(n_trees=3, n_samples=8, n_chains=1, n_burn=0)
    m = gen.est(store_in_sample_predictions=True, **kw)
    m.fit(X, y)
    case.describe(n=n, p=p, **kw)
    check_in_sample(case, m, X, y)
    Z = gen.predict_rows(rng, X, int(rng.choice([3000, 7000])))
    got = m.predict(Z)
    k = rng.choice(len(Z), 200, replace=False)
    case.close(got[k], reference(m.model_samples, Z[k], y), "a prediction is not the mean over all stored draws", rtol=1e-9, atol=tol(y))
    case.close(m.predict(Z[k]), got[k], "a prediction depends on the other rows", rtol=1e-12, atol=tol(y))
    case.count("predictions", len(Z))


def wide(case):
    """Draws far outside the range of the training target: models with weakly regularised leaves, as custom batch runs build them."""
    from bartpy.samplers.modelsampler import ModelSampler
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[4, 8, 20], targets=["signal", "noise", "strong", "binary", "ints", "outlier", "offset", "neg"])
    kw = dict(n_trees=int(rng.choice([1, 3, 8])), k=float(rng.choice([.02, .05, .1])))
    n_samples = int(rng.choice([1, 2, 5]))
    case.describe(n_samples=n_samples, **d, **kw)
    model = gen.make_model(rng, X, y, sigma_a=50., sigma_b=float(rng.choice([50., 5000.])), **kw)   # a large error scale, so the leaves follow their prior
    chain = ModelSampler(gen.schedule(gen.real_sampler(.5))).samples(model, n_samples, int(rng.randint(3)), 1.)
    m = gen.est(n_trees=kw["n_trees"]).from_extract([chain], X, y)
    Z = np.concatenate([X, gen.predict_rows(rng, X, 10)])
    want = reference(m.model_samples, Z, y)
    spread = max(1., float(np.max(np.abs(want - y.mean())) / (y.max() - y.min() or 1.)))
    t = tol(y) * spread
    got = m.predict(Z)
    case.close(got, want, "a prediction is not the mean over all stored draws in the target's units", rtol=1e-9, atol=t)
    case.close(m.residuals(X, y), y - want[:len(X)], "residuals are not target minus prediction", rtol=1e-9, atol=t)
    case.count("wide_predictions", int(np.sum((want > y.max() + .3 * (y.max() - y.min())) | (want < y.min() - .3 * (y.max() - y.min())))))
    case.seen(want)


def parts():
    return [Part("fits", fits, 160, 2000, needs=("predictions", "error_measures", "single_rows", "in_sample", "refused")),
            Part("fit_predict", fit_predict, 40, 300, needs=("refused", "in_sample")),
            Part("types", types, 24, 120, needs=("typed_fits",)),
            Part("big", big, 12, 60, needs=("predictions",)),
            Part("wide", wide, 40, 400, needs=("wide_predictions",))]
