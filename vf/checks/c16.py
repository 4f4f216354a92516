"""C16: fitting is equivariant to shifting and scaling the target."""
import numpy as np

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one data set with an exactly representable target, fitted twice from the same seed, once with a*y+b; trees, leaf values, predictions, residuals and sigmas "
        "are compared through the map; or one target mapped through normalisation and back; a state is a distinct (data set, a, b)")
ASSUMPTIONS = ["paired runs use powers of two and integers so that both normalised targets are bitwise equal"]


def pairs(case):
    rng = case.rng
    X, names = gen.covariates(rng, int(rng.choice([2, 3, 5, 10, 30, 80] if case.index % 20 else [1100, 3000])), int(rng.choice([1, 2, 4])))
    n = len(X)
    y = rng.randint(-40, 41, size=n).astype(float)
    if rng.uniform() < 0.4:
        y = np.round(20 * gen.signal(X)) + rng.randint(-3, 4, size=n)
    if rng.uniform() < 0.15 or n > 1000:
        y[rng.randint(n)] += 1000
    if y.max() == y.min():
        y[0] += 1
    a = float(2.0 ** rng.choice([-10, -3, -1, 0, 1, 4, 10, 20]))
    b = float(rng.choice([0, 1, -7, 100, -4096, 2 ** 20])) * max(1.0, a) if rng.uniform() < 0.8 else 0.
    y2 = a * y + b
    case.check(np.array_equal((y2 - y2.min()) / (y2.max() - y2.min()), (y - y.min()) / (y.max() - y.min())), "internal: the pair is not exact")
    kw = dict(n_trees=gen.n_trees(rng, [1, 2, 5, 12]), n_samples=int(rng.choice([3, 10])), n_chains=int(rng.choice([1, 2])), n_burn=int(rng.choice([0, 5])),
              store_in_sample_predictions=True, alpha=float(rng.choice([.95, .5])), beta=float(rng.choice([2., .5])),
              sigma_a=float(rng.choice([0.001, 2.])), sigma_b=float(rng.choice([0.001, 0.5])))
    if rng.uniform() < 0.2 and np.all(np.abs(X) < 1e30):
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        kw["initializer"] = SklearnTreeInitializer(max_depth=2)
    case.describe(n=n, columns=names, a=a, b=b, **{k: v for k, v in kw.items() if k != "initializer"})
    seed = int(rng.randint(2 ** 31))
    fits = []
    ints = rng.uniform() < 0.2 and a >= 1
    for t in (y, y2):
        m = gen.est(**kw)
        np.random.seed(seed)
        m.fit(X, t.astype(int) if ints else t)
        fits.append(m)
    m1, m2 = fits
    case.equal(len(m1.model_samples), len(m2.model_samples), "the number of draws depends on the units of the target")
    for s1, s2 in zip(m1.model_samples, m2.model_samples):
        for t1, t2 in zip(s1.trees, s2.trees):
            case.equal(oracle.tree_shape(t1), oracle.tree_shape(t2), "the sampled trees depend on the units of the target")
        case.close(s2.sigma.current_unnormalized_value(), a * s1.sigma.current_unnormalized_value(), "original-scale sigmas do not scale with the target", rtol=1e-9, atol=0)
    Z = np.concatenate([X, gen.predict_rows(rng, X, 10)])
    t = 1e-8 * (a * (y.max() - y.min()) + np.abs(y2).max())
    case.close(m2.predict(Z), a * m1.predict(Z) + b, "predictions do not follow the map of the target", rtol=1e-9, atol=t)
    case.close(m2.predict(), a * m1.predict() + b, "in-sample predictions do not follow the map of the target", rtol=1e-9, atol=t)
    case.close(m2.residuals(), a * m1.residuals(), "in-sample residuals do not scale with the target", rtol=1e-6, atol=t)
    case.close(m2.residuals(X), a * m1.residuals(X), "residuals do not scale with the target", rtol=1e-6, atol=t)
    case.close(m2.residuals(X, y2), a * m1.residuals(X, y), "residuals do not scale with the target", rtol=1e-6, atol=t)
    case.close(m2.rmse(X, y2), a * m1.rmse(X, y), "errors do not scale with the target", rtol=1e-6, atol=t * n)
    case.close(m2.data.y.unnormalized_y, y2, "the training target is not recovered in its own units", rtol=1e-9, atol=t)
    case.count("pairs")
    case.seen(X, y, a, b)


def round_trip(case):
    from bartpy.data import Data
    from bartpy.sklearnmodel import SklearnModel
    rng = case.rng
    for _ in range(30):
        n = int(rng.choice([1, 2, 3, 10, 200, 2000]))
        base = rng.normal(size=n) if rng.uniform() < 0.7 else rng.randint(-3, 4, size=n).astype(float)
        if rng.uniform() < .3:                             # a few values far from all others
            base[rng.randint(n, size=int(rng.randint(1, 3)))] *= float(rng.choice([30., 1e3, 1e5]))
        y = base * 10.0 ** rng.uniform(-8, 8) + float(rng.choice([0., 0., 1., -50., 1e6])) * float(rng.choice([1., 1e-3]))
        X = np.arange(n, dtype=float).reshape(-1, 1)
        d = Data(X, y.copy(), normalize=True)
        v = np.asarray(d.y.values)
        scale = float(y.max() - y.min())
        eps = 1e-9 * (scale + np.abs(y).max())
        if scale > 0:
            case.check(abs(v.min() + 0.5) < 1e-12 and abs(v.max() - 0.5) < 1e-12, "the target is not mapped onto [-0.5, 0.5]", lo=v.min(), hi=v.max())
            if scale > 1e-6 * np.abs(y).max():
                case.close(v, (y - y.min()) / scale - 0.5, "the normalised target is not an affine image of the target", rtol=0, atol=1e-6)
        case.check(np.all(np.isfinite(v)), "the normalised target is not finite")
        case.close(d.y.unnormalized_y, y, "the inverse map does not recover the target", rtol=1e-9, atol=eps)
        case.close(d.y.unnormalize_y(np.array([-0.5, 0., 0.5])), [y.min(), y.min() / 2 + y.max() / 2, y.max()], "the inverse map is wrong", rtol=1e-9, atol=eps)
        case.close(d.y.normalizing_scale, scale, "the scale of the target is not its range", rtol=1e-9, atol=eps)
        case.close(Data(X, y.copy()).y.values, y, "a target that should not be normalised is changed", rtol=0, atol=0)
        case.count("round_trips")
        case.seen(y)


def units(case):
    """One fit on arbitrary units: what is reported is in those units."""
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[5, 10, 40], targets=["signal", "strong", "offset", "tiny_scale", "huge_scale", "neg", "outlier"])
    m = gen.est(n_trees=3, n_samples=6, store_in_sample_predictions=True)
    m.fit(X, y)
    case.describe(**d)
    lo, hi = y.min(), y.max()
    f = np.mean([oracle.model_predict(s, X) for s in m.model_samples], axis=0)
    want = lo + (f + 0.5) * (hi - lo)
    t = 1e-8 * (hi - lo) + 1e-9 * np.abs(y).max()
    case.close(m.predict(), want, "in-sample predictions are not in the units of the target", rtol=1e-9, atol=t)
    case.close(m.predict(X), want, "predictions are not in the units of the target", rtol=1e-9, atol=t)
    case.close(m.residuals(X), y - want, "residuals are not in the units of the target", rtol=1e-9, atol=t)
    case.close(m.model.unnormalized_residuals(), y - (lo + (m.model.predict() + 0.5) * (hi - lo)), "model residuals are not in the units of the target", rtol=1e-9, atol=t)
    for s in m.model_samples:
        case.close(s.sigma.current_unnormalized_value(), s.sigma.current_value() * (hi - lo), "sigma is not reported in the units of the target", rtol=1e-9, atol=0)
    case.count("unit_checks")
    case.seen(y)


def types(case):
    """The numbers of the target in another type: the same fit, reported in the same units."""
    import pandas as pd
    rng = case.rng
    X, names = gen.covariates(rng, int(rng.choice([2, 5, 20, 60])), int(rng.choice([1, 3])))
    n = len(X)
    kind = ["uint8", "int8", "uint16", "int16", "int32", "int64", "bool", "float16", "float32", ">f8", ">i2", "object", "series", "indexed", "Int64"][case.index % 15]
    if kind in ("uint8", "int8", "uint16", "int16", ">i2"):
        i = np.iinfo(kind)
        y = rng.randint(i.min, i.max + 1, size=n).astype(kind)     # the range may exceed what the type can hold
        y[rng.randint(n)], y[rng.randint(n)] = i.min, i.max
    elif kind == "bool":
        y = rng.uniform(size=n) < .5
    elif kind in ("float16", "float32"):
        i = np.finfo(kind)
        y = (rng.uniform(-1, 1, size=n) * float(i.max) * float(rng.choice([.99, 1e-3]))).astype(kind)
    else:
        big = 10 ** int(rng.choice([1, 6, 9]))
        y = rng.randint(-big, big, size=n).astype({"object": float, "series": float, "indexed": float, "Int64": int}.get(kind, kind))
        if rng.uniform() < .4:                                     # a small range far from zero
            y = y // max(1, big // 100) + big
            y = y.astype(kind) if kind in ("int32", "int64") else y
    F = y.astype(float)
    if kind == "object":
        y = y.astype(object)
    elif kind in ("series", "Int64"):
        y = pd.Series(y) if kind == "series" else pd.Series(pd.array(y, dtype="Int64"))
    elif kind == "indexed":
        y = pd.Series(y, index=rng.permutation(n) * 2 + 1)
    kw = dict(n_trees=gen.n_trees(rng, [1, 4]), store_in_sample_predictions=True)
    case.describe(n=n, type=kind, columns=names, **kw)
    seed = int(rng.randint(2 ** 31))
    fits = []
    for t in (y, F):
        m = gen.est(**kw)
        np.random.seed(seed)
        fits.append(m.fit(X, t))
    m1, m2 = fits
    tol = 1e-9 * (np.abs(F).max() + 1e-300)
    for s1, s2 in zip(m1.model_samples, m2.model_samples):
        for t1, t2 in zip(s1.trees, s2.trees):
            case.equal(oracle.tree_shape(t1), oracle.tree_shape(t2), "the sampled trees depend on the type of the target")
        case.close(s1.sigma.current_unnormalized_value(), s2.sigma.current_unnormalized_value(), "original-scale sigmas depend on the type of the target", rtol=1e-9, atol=0)
    case.close(m1.data.y.unnormalized_y, F, "the training target is not recovered in its own units", rtol=1e-9, atol=tol)
    case.close(m1.predict(X), m2.predict(X), "predictions depend on the type of the target", rtol=1e-9, atol=tol)
    case.close(m1.predict(), m2.predict(), "in-sample predictions depend on the type of the target", rtol=1e-9, atol=tol)
    case.close(m1.residuals(X), m2.residuals(X), "residuals depend on the type of the target", rtol=1e-9, atol=tol)
    case.close(m1.residuals(), F - m2.predict(), "in-sample residuals are not in the units of the target", rtol=1e-9, atol=tol)
    case.count("typed_targets")
    case.seen(kind, F)


def parts():
    return [Part("pairs", pairs, 160, 2000, needs=("pairs",)),
            Part("round_trip", round_trip, 40, 400, needs=("round_trips",)),
            Part("units", units, 40, 400, needs=("unit_checks",)),
            Part("types", types, 60, 600, needs=("typed_targets",))]
