"""C24: residual extensions add the base model and BART exactly."""
import numpy as np
import pandas as pd
import statsmodels.api as sm
from sklearn.base import BaseEstimator, RegressorMixin, clone
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.metrics import r2_score
from sklearn.neighbors import KNeighborsRegressor
from sklearn.tree import DecisionTreeRegressor

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one fitted extension (ResidualBART with a random base model, or OLS with a random statsmodels class); the base model is refitted independently and the BART part re-evaluated from the stored "
        "draws, and predictions, residuals, errors and scores are compared with their sum; a state is a distinct fit with a split in some draw")
ASSUMPTIONS = ["base models are deterministic, so that refitting them reproduces the one inside the extension; equality up to rounding at the scale of the target"]


class Recording(RegressorMixin, BaseEstimator):
    """A base model that is nothing like linear and records what it was fitted on."""

    def __init__(self, shift=0., log=None):
        self.shift, self.log = shift, log

    def fit(self, X, y):
        self.seen_ = (np.asarray(X, dtype=float).copy(), np.asarray(y, dtype=float).copy())
        self.n_fits_ = getattr(self, "n_fits_", 0) + 1
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        return self.shift + self.seen_[1].mean() + np.sin(X).sum(axis=1)


def base_models(rng):
    return [LinearRegression(), Ridge(alpha=2.), LinearRegression(fit_intercept=False), DecisionTreeRegressor(max_depth=2, random_state=0), KNeighborsRegressor(1), KNeighborsRegressor(2),
            Recording(float(rng.normal())), None][rng.randint(8)]


def data(case):
    rng = case.rng
    n = int(rng.choice([4, 8, 20, 50, 50, 700]))
    X, names = gen.covariates(rng, n, int(rng.randint(1, 4)), ["normal", "uniform", "ints", "binary", "sorted", "few_dups", "constant"])
    X = np.ascontiguousarray(X)
    c = rng.normal(size=X.shape[1])
    y = X @ c + 2 * gen.signal(X) + .2 * rng.normal(size=n)
    y = y * float(rng.choice([1., 1., 100., .01])) + float(rng.choice([0., 50.]))
    if rng.uniform() < .2:
        y = y * 10. ** float(rng.choice([-12, -9, -6, 6, 9])) / max(1., np.abs(y).max())
    case.describe(n=n, columns=names)
    return X, y


def bart_args(rng):
    return dict(n_trees=gen.n_trees(rng, [1, 3, 8]), n_chains=int(rng.choice([1, 2])), n_samples=int(rng.choice([2, 6])), n_burn=int(rng.choice([0, 4])), thin=float(rng.choice([1., .5])),
                store_in_sample_predictions=bool(rng.randint(2)), store_acceptance_trace=bool(rng.randint(2)), n_jobs=1)


def bart_part(m, r, Z):
    f = np.mean([oracle.model_predict(s, Z) for s in m.model_samples], axis=0)
    return float(r.min()) + (f + .5) * float(r.max() - r.min())


def check(case, m, base, X, y, frame, store):
    """base: function giving the base model's prediction for float rows, fitted on (X, y)."""
    rng = case.rng
    if m.model_samples is None:
        case.check(False, "the extension holds no draws after fit")
    r = y - base(X)
    t = 1e-8 * (np.abs(y).max() + np.abs(r).max() + 1e-300)
    # BART is fitted on the residuals of the base model
    case.close(np.asarray(m.data.y.unnormalized_y), r, "BART is not fitted on the base model's residuals", rtol=1e-7, atol=t)
    case.close(np.asarray(m.data.X.values, dtype=float), X, "BART is not fitted on the covariates", rtol=0, atol=0)
    r = np.asarray(m.data.y.unnormalized_y)
    Z = np.concatenate([X, np.clip(gen.predict_rows(rng, X, 12), -1e3, 1e3)])
    big = t + 1e-8 * np.abs(base(Z))
    asin = (lambda A: pd.DataFrame(A, columns=["v%d" % j for j in range(A.shape[1])])) if frame else (lambda A: A)
    want = base(Z) + bart_part(m, r, Z)
    got = np.asarray(m.predict(asin(Z)), dtype=float)
    case.check(got.shape == want.shape and np.all(np.abs(got - want) <= big), "the prediction is not base model plus BART", got=got[:4], expected=want[:4])
    for k in (len(X), len(X), int(rng.randint(1, 6))):            # new rows, also exactly as many as were trained on
        sel = rng.randint(len(Z), size=k)
        if rng.uniform() < .5:
            sel[0], sel[-1] = 0, len(X) - 1
        part = np.asarray(m.predict(asin(Z[sel])), dtype=float)
        case.check(part.shape == (k,) and np.all(np.abs(part - want[sel]) <= big[sel]), "the prediction of a batch is not base model plus BART", rows=k, trained_on=len(X))
    i = int(rng.randint(len(Z)))
    one = np.asarray(m.predict(asin(Z[i:i + 1])), dtype=float)
    case.check(abs(one[0] - want[i]) <= big[i], "the prediction of a row depends on the other rows")
    px = base(X) + bart_part(m, r, X)
    case.close(np.asarray(m.predict(), dtype=float), px, "prediction without covariates is not the prediction for the training covariates", rtol=1e-7, atol=t)
    case.close(np.asarray(m.predict(asin(X)), dtype=float), px, "the training rows are not predicted by base model plus BART", rtol=1e-7, atol=t)
    # errors against the original target
    case.close(np.asarray(m.residuals(), dtype=float), y - px, "residuals are not those of the combined prediction against the original target", rtol=1e-7, atol=3 * t)
    case.close(np.asarray(m.residuals(asin(X)), dtype=float), y - px, "residuals of the training rows are not against the original target", rtol=1e-7, atol=3 * t)
    yz = y[rng.randint(len(y), size=len(X))] + rng.normal() * np.ptp(y)
    case.close(np.asarray(m.residuals(asin(X), yz), dtype=float), yz - px, "residuals against a given target are wrong", rtol=1e-7, atol=3 * t)
    case.close(np.asarray(m.l2_error(), dtype=float), (y - px) ** 2, "squared errors are not those of the combined prediction", rtol=1e-5, atol=10 * t * max(t, np.abs(y - px).max()))
    case.close(np.asarray(m.l2_error(asin(X), yz), dtype=float), (yz - px) ** 2, "squared errors against a given target are wrong", rtol=1e-5, atol=10 * t * max(t, np.abs(yz - px).max()))
    case.close(float(m.rmse(asin(X), yz)), np.sqrt(np.sum((yz - px) ** 2)), "the root error is not that of the combined prediction", rtol=1e-5, atol=10 * t)
    if np.ptp(yz) > 1e-6 * np.abs(yz).max():
        case.close(float(m.score(asin(X), yz)), r2_score(yz, px), "the score is not R^2 of the combined prediction", rtol=1e-5, atol=1e-6)
    case.count("fits")
    if any(oracle.tree_shape(t)[0] == "D" for s in m.model_samples for t in s.trees):
        case.seen(want)
        case.count("fits_with_splits")


def residual_bart(case):
    from bartpy.extensions.baseestimator import ResidualBART
    rng = case.rng
    X, y = data(case)
    est = base_models(rng)
    ref = clone(est) if est is not None else LinearRegression()
    a = bart_args(rng)
    case.describe(base=repr(est), **a)
    frame = rng.uniform() < .3
    Xin = pd.DataFrame(X, columns=["v%d" % j for j in range(X.shape[1])]) if frame else X
    m = ResidualBART(base_estimator=est, **a)
    if rng.uniform() < .3:                     # refit: nothing may stay from the first fit
        m.fit(X[::-1] + 1., y * 3 - 7)
        case.count("refits")
    xc, yc = X.copy(), y.copy()
    Xgiven, ygiven = Xin.copy(), y.copy()
    out = m.fit(Xgiven, ygiven)
    case.check(out is m, "fit does not return the estimator")
    case.check(np.array_equal(np.asarray(Xgiven), X) and np.array_equal(ygiven, y), "fitting changes the caller's data")
    if not isinstance(est, KNeighborsRegressor) and rng.uniform() < .5:      # neighbours are looked up in the caller's matrix
        Xgiven[:] = 7.
        ygiven[:] = -3.
        case.count("overwritten_inputs")
    case.check(np.array_equal(X, xc) and np.array_equal(y, yc), "fitting changes the caller's data")
    ref.fit(Xin if frame else X, y)
    cols = ["v%d" % j for j in range(X.shape[1])]
    base = lambda A: np.asarray(ref.predict(pd.DataFrame(A, columns=cols) if frame else A), dtype=float)
    if isinstance(est, Recording):
        case.check(np.array_equal(m.base_estimator.seen_[1], y) and np.array_equal(m.base_estimator.seen_[0], X), "the base model is not fitted on the data")
        case.count("recorded_base_fits")
    check(case, m, base, X, y, frame, a["store_in_sample_predictions"])
    p = m.fit_predict(Xin, y)
    case.equal(np.shape(p), (len(y),), "fit_predict does not give one prediction per row")
    r = np.asarray(m.data.y.unnormalized_y)
    case.close(np.asarray(p, dtype=float), base(X) + bart_part(m, r, X), "fit_predict is not base model plus BART", rtol=1e-7, atol=1e-8 * (np.abs(y).max() + np.abs(r).max()))


def ols(case):
    from bartpy.extensions.ols import OLS
    rng = case.rng
    X, y = data(case)
    # a design of full rank, so that the least-squares fit is determined
    X = np.column_stack([rng.normal(size=len(X)), np.round(rng.normal(size=len(X)), 1)][:1 if len(X) < 6 else 2])
    y = y + X[:, 0]
    cls = [sm.OLS, sm.GLS, sm.WLS][rng.randint(3)]
    a = bart_args(rng)
    case.describe(stat_model=cls.__name__, **a)
    m = OLS(stat_model=cls, **a)
    if rng.uniform() < .3:
        m.fit(X[::-1] + 1., y * 3 - 7)
        case.count("refits")
    Xgiven, ygiven = X.copy(), y.copy()
    out = m.fit(Xgiven, ygiven)
    case.check(out is m, "fit does not return the estimator")
    if rng.uniform() < .5:
        Xgiven[:] = 7.
        ygiven[:] = -3.
        case.count("overwritten_inputs")
    coef = np.linalg.lstsq(X, y, rcond=None)[0]
    check(case, m, lambda A: A @ coef, X, y, False, a["store_in_sample_predictions"])
    case.count("ols_fits")


def shared(case):
    """Two extensions of the same parameters fitted on different data each keep their own base model."""
    from bartpy.extensions.baseestimator import ResidualBART
    from bartpy.extensions.ols import OLS
    rng = case.rng
    a = bart_args(rng)
    which = case.index % 2
    fitted = []
    one = Ridge(alpha=.5)
    same = which and rng.uniform() < .5         # the very same base model object in several extensions
    template = ResidualBART(base_estimator=one, **a) if which else OLS(stat_model=sm.OLS, **a)
    for i in range(3):
        X, y = rng.normal(size=(12, 2)), rng.normal(size=12) * 5 + 10 * i
        m = (ResidualBART(base_estimator=one, **a) if same else clone(template)).fit(X, y)
        if which:
            ref = Ridge(alpha=.5).fit(X, y)
            base = ref.predict
        else:
            coef = np.linalg.lstsq(X, y, rcond=None)[0]
            base = (lambda c: lambda A: A @ c)(coef)
        fitted.append((m, base, X, y))
    if same:
        one.fit(rng.normal(size=(9, 2)), rng.normal(size=9) * 40)
        case.count("same_base_model")
    for m, base, X, y in fitted:
        check(case, m, base, X, y, False, a["store_in_sample_predictions"])
    case.count("clones")


def parts():
    return [Part("residual_bart", residual_bart, 200, 3000, needs=("fits", "fits_with_splits", "refits", "recorded_base_fits", "overwritten_inputs")),
            Part("ols", ols, 100, 1500, needs=("ols_fits", "fits_with_splits", "refits", "overwritten_inputs")),
            Part("shared", shared, 24, 200, needs=("clones", "same_base_model"))]
