"""C26: permutation importance permutes one column and scores on held-out rows."""
from collections import Counter

import matplotlib
matplotlib.use("Agg")
import numpy as np
import pandas as pd
from scipy.special import gammaln

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one importance computation; rows are identified by a tag column, every model fitted and every row set scored is recorded by watching tree samplers and the scoring method, "
        "errors are recomputed from the recorded draws; a state is a distinct set of folds")
ASSUMPTIONS = ["an error is the root of the summed squared errors, as rmse() reports it"]


def tagged(case, n=None):
    """Every covariate value is unique in the whole matrix, so a row or a permuted column can be recognised."""
    rng = case.rng
    n = int(n or rng.choice([4, 7, 12, 20, 31, 31, 120]))
    p = int(rng.randint(1, 5))
    X = np.arange(n * p, dtype=float).reshape(p, n).T + 1000. * np.arange(p)
    for j in range(p):
        X[:, j] = X[rng.permutation(n), j]
    y = np.sin(X[:, 0]) * 3 + rng.normal(size=n)
    y = np.round(y, 6) + np.arange(n) * 1e-4
    if p > 1 and rng.uniform() < .35:
        y = np.array([float(rng.randint(2)) for _ in range(n)]) if rng.uniform() < .6 else np.floor(y)
        y[:2] = 0., 1.
        y = y[rng.permutation(n)]
        case.count("repeated_targets")
    case.describe(n=n, p=p, distinct_targets=len(set(y)))
    return X, y


def args(rng):
    return dict(n_trees=int(rng.choice([1, 3, 7])), n_chains=int(rng.choice([1, 2, 4])), n_samples=int(rng.choice([1, 3, 10])), n_burn=int(rng.choice([0, 2])), thin=float(rng.choice([1., 1., .5, .2])), n_jobs=1)


class Watch(gen.TreeSamplerWrapper):
    """Collects the distinct models sampled, in order, with their data."""

    def __init__(self, inner, log):
        super().__init__(inner)
        self.log = log

    def __deepcopy__(self, memo):
        return self

    def step(self, model, tree):
        if not any(m is model for m, _, _ in self.log):
            self.log.append((model, np.asarray(model.data.X.values, dtype=float).copy(), np.asarray(model.data.y.unnormalized_y, dtype=float).copy()))
        return self.inner.step(model, tree)


def recorder():
    """A model class that records which rows are predicted, by which model."""
    from bartpy.sklearnmodel import SklearnModel

    class Rec(SklearnModel):
        scored = []

        def predict(self, X=None):
            out = super().predict(X)
            if X is not None:
                type(self).scored.append((self, np.asarray(X, dtype=float).copy()))
            return out
    Rec.scored = []
    return Rec


def template(case, X, y):
    rng = case.rng
    a = args(rng)
    log = []
    Rec = recorder()
    m = Rec(tree_sampler=Watch(gen.forcing_sampler(.6) if rng.uniform() < .5 else gen.real_sampler(.5), log), **a)
    fitted = rng.uniform() < .4
    if fitted:
        m.fit(X[:, ::-1] + 5, -y)
        del log[:]
        case.count("fitted_templates")
    case.describe(fitted=fitted, **a)
    return m, Rec, log, a, fitted


def snap(m):
    p = dict(m.get_params())
    if m.model_samples is None:
        return p, None, None
    return p, [tuple(oracle.tree_shape(t) for t in s.trees) for s in m.model_samples], np.asarray(m.data.y.unnormalized_y).copy()


def unchanged(case, m, was, X, Xc, y, yc):
    now = snap(m)
    case.check(all(now[0][k] is was[0][k] or now[0][k] == was[0][k] for k in was[0]), "the caller's model is changed (parameters)")
    case.check(now[1] == was[1], "the caller's model is changed (draws)")
    case.check((now[2] is None) == (was[2] is None) and (now[2] is None or np.array_equal(now[2], was[2])), "the caller's model is changed (data)")
    case.check(np.array_equal(np.asarray(X, dtype=float), Xc) and np.array_equal(np.asarray(y, dtype=float), yc), "the caller's data is changed")


def reference(samples, Xtr, ytr, Z):
    f = np.mean([oracle.model_predict(s, Z) for s in samples], axis=0)
    return ytr.min() + (f + .5) * (ytr.max() - ytr.min())


def target(rng, y):
    """The target as an array or as a Series under an index of its own."""
    u = rng.uniform()
    if u < .7:
        return y
    return pd.Series(y.copy()) if u < .85 else pd.Series(y.copy(), index=rng.permutation(len(y)) + 3)


def inputs(rng, X, y):
    frame = rng.uniform() < .4
    Xin = pd.DataFrame(X.copy(), columns=["c%d" % j for j in range(X.shape[1])]) if frame else X
    return Xin, frame


def match(case, rows, X, cols, what):
    """Row indices of X whose `cols` equal those of `rows`."""
    out = []
    for r in rows:
        hit = np.flatnonzero(np.all(X[:, cols] == r[cols], axis=1))
        case.check(len(hit) == 1, what, row=r)
        out.append(int(hit[0]))
    return out


def rows_of_targets(case, v, y, what):
    out = []
    for t in v:
        hit = np.flatnonzero(np.abs(y - t) < 1e-7)
        case.check(len(hit) == 1, what, target=t)
        out.append(int(hit[0]))
    return out


def error(m, Z, yz, Xtr, ytr):
    return float(np.sqrt(np.sum((yz - reference(m.model_samples, Xtr, ytr, Z)) ** 2)))


def by_model(Rec):
    """The rows each model predicted, once per model; predictions of a model's own training rows do not count."""
    out = []
    for m, Z in Rec.scored:
        if any(o is m and np.array_equal(z, Z) for o, z in out):
            continue
        if np.array_equal(Z, np.asarray(m.data.X.values, dtype=float)):
            continue
        out.append((m, Z))
    return out


def model_data(case, m):
    return np.asarray(m.data.X.values, dtype=float), np.asarray(m.data.y.unnormalized_y, dtype=float)


def baseline(case):
    from bartpy.features.featureimportance import original_model_rmse
    rng = case.rng
    X, y = tagged(case)
    m, Rec, log, a, fitted = template(case, X, y)
    k = int(rng.choice([2, 3, min(5, len(X)), 10]))
    k = min(k, len(X) // 2 if len(X) >= 4 else 2)
    if rng.uniform() < .25 and len(X) < 20:                # folds of a single row, or of one and two
        k = int(rng.choice([len(X), len(X), max(2, len(X) - 1), max(2, len(X) * 2 // 3)]))
        case.count("single_row_folds")
    Xin, frame = inputs(rng, X, y)
    was, xc, yc = snap(m), X.copy(), y.copy()
    Rec.scored[:] = []
    y = target(rng, y)
    out = original_model_rmse(m, Xin, y, k)
    unchanged(case, m, was, Xin, xc, y, yc)
    y = yc
    case.describe(folds=k, frame=frame)
    case.equal(len(out), k, "the baseline does not hold one error per fold")
    case.equal(len(log), k * a["n_chains"], "the baseline does not fit one model per fold")
    check_baseline(case, out, Rec, log, a, X, y, k)
    unchanged(case, m, was, Xin, xc, y, yc)
    case.count("baselines")


def check_baseline(case, out, Rec, log, a, X, y, k):
    p = X.shape[1]
    all_cols = list(range(p))
    folds = []
    for _, Xt, yt in log:
        rows = match(case, Xt, X, all_cols, "a baseline model is fitted on rows that are not the data's")
        case.close(yt, y[rows], "a baseline model's rows and targets are not matched", rtol=0, atol=1e-7)
        case.check(len(set(rows)) == len(rows), "a baseline model is fitted on repeated rows")
        folds.append(frozenset(rows))
    n = len(X)
    trains = []
    for f in folds:
        if f not in trains:
            trains.append(f)
    case.equal(len(trains), k, "the baseline does not use one set of training rows per fold")
    held = [set(range(n)) - t for t in trains]
    case.equal(sorted(i for h in held for i in h), list(range(n)), "a row is not held out exactly once")
    sizes = sorted(len(h) for h in held)
    case.check(sizes[-1] - sizes[0] <= 1, "the folds are uneven", sizes=sizes)
    scored = by_model(Rec)
    case.equal(len(scored), k, "the baseline does not score one model per fold")
    errs = []
    for m, Z in scored:
        Xt, yt = model_data(case, m)
        rows = match(case, Xt, X, all_cols, "a scored model is not one of the data's rows")
        test = match(case, Z, X, all_cols, "a model is scored on rows that are not the data's")
        case.equal(sorted(rows + test), list(range(n)), "a model is not scored on exactly the rows held out from its fit")
        errs.append(error(m, Z, y[test], Xt, yt))
    case.close(np.sort(out), np.sort(errs), "the baseline errors are not those of the fold models on their held-out rows and targets", rtol=1e-7, atol=1e-9)
    case.count("scored", k)
    case.seen([sorted(t) for t in trains])


def null(case):
    from bartpy.features.featureimportance import null_rmse_distribution
    rng = case.rng
    X, y = tagged(case)
    m, Rec, log, a, fitted = template(case, X, y)
    k = int(rng.choice([2, 3, 3, 7]))
    k = min(k, len(X) // 2)
    reps = int(rng.choice([1, 2, 4, 4, 12] if len(X) > 20 else [1, 2, 4, 4, 12, 30, 60]))
    if rng.uniform() < .2 and len(X) < 20:
        k, reps = int(rng.choice([len(X), len(X), max(2, len(X) - 1)])), min(reps, 2)
        case.count("single_row_folds")
    var = int(rng.randint(X.shape[1]))
    if X.shape[1] > 1 and rng.uniform() < .35:         # a variable with repeated values; the other columns still identify the rows
        q = int(rng.choice([2, 2, 3, 5]))
        X[:, var] = rng.randint(q, size=len(X)) if rng.uniform() < .7 else (rng.uniform(size=len(X)) < .15)
        X[:2, var] = 0., 1.
        case.count("repeated_values")
    Xin, frame = inputs(rng, X, y)
    was, xc, yc = snap(m), X.copy(), y.copy()
    case.describe(folds=k, permutations=reps, variable=var, frame=frame)
    Rec.scored[:] = []
    y = target(rng, y)
    out = null_rmse_distribution(m, Xin, y, var, k, reps)
    unchanged(case, m, was, Xin, xc, y, yc)
    y = yc
    columns = check_null(case, out, Rec, log, a, X, y, k, reps, var)
    unchanged(case, m, was, Xin, xc, y, yc)
    if columns and len(X) >= 18 and len(set(X[:, var])) == len(X) and len(log) <= 30:
        Rec.scored[:], log[:] = [], []                  # another null distribution has permutations of its own
        out = null_rmse_distribution(m, Xin, y, var, k, reps)
        again = check_null(case, out, Rec, log, a, X, y, k, reps, var)
        case.check(not set(columns) & set(again), "two null distributions are made from the same permutations")
        case.count("repeated_nulls")
    case.count("nulls")


def check_null(case, out, Rec, log, a, X, y, k, reps, var):
    n, p = X.shape
    case.equal(len(out), k * reps, "the null distribution does not hold one error per fold and permutation")
    case.equal(len(log), k * reps * a["n_chains"], "the null distribution does not fit one model per fold and permutation")
    others = [j for j in range(p) if j != var]
    have = Counter(X[:, var])
    repeated = len(have) < n
    fits = []
    for _, Xt, yt in log:
        if others:
            rows = match(case, Xt, X, others, "a column other than the variable is permuted")
            case.close(yt, y[rows], "a column other than the variable is permuted, or rows and targets are not matched", rtol=0, atol=1e-7)
        else:
            rows = rows_of_targets(case, yt, y, "a null model is fitted on other targets")
        case.check(len(set(rows)) == len(rows), "a null model is fitted on repeated rows")
        case.check(not Counter(Xt[:, var]) - have, "the permuted column does not hold the variable's own values once each")
        fits.append((frozenset(rows), tuple(Xt[np.argsort(rows), var])))
    trains = []
    for f, _ in fits:
        if f not in trains:
            trains.append(f)
    case.equal(len(trains), k, "the null models are not fitted on one set of training rows per fold")
    case.equal(sorted(i for t in trains for i in set(range(n)) - t), list(range(n)), "a row is not held out exactly once")
    for t in trains:
        case.equal(sum(f == t for f, _ in fits), reps * a["n_chains"], "the folds do not have the same number of permuted fits")
    distinct = {f for f in fits}
    big = min(len(t) for t in trains) >= 8 and not repeated
    if big:
        case.equal(len(distinct), k * reps, "the null models do not each use a permutation of their own")
        for t, col in distinct:
            case.check(list(col) != [X[i, var] for i in sorted(t)], "a null model is fitted with the variable left in place")
        case.count("permutations_checked", len(distinct))
    scored = by_model(Rec)
    case.equal(len(scored), k * reps, "the null distribution does not score one model per fold and permutation")
    if others:
        errs, kept, columns = [], [], []
        for m, Z in scored:
            Xt, yt = model_data(case, m)
            rows = match(case, Xt, X, others, "a scored model was fitted on other rows")
            case.close(yt, y[rows], "a scored model's rows and targets are not matched", rtol=0, atol=1e-7)
            test = match(case, Z, X, others, "a column other than the variable is permuted when scoring")
            case.equal(sorted(rows + test), list(range(n)), "a null model is not scored on exactly the rows held out from its fit")
            case.check(set(Z[:, var]) <= set(X[:, var]), "the held-out variable does not hold its own values")
            case.equal(sorted(list(Xt[:, var]) + list(Z[:, var])), sorted(X[:, var]), "training and held-out rows are not those of one permutation of the variable")
            columns.append(tuple(np.r_[Xt[:, var], Z[:, var]][np.argsort(rows + test)]))
            kept.append(int(np.sum(X[rows, var] == Xt[:, var]) + np.sum(X[test, var] == Z[:, var])))
            errs.append(error(m, Z, y[test], Xt, yt))
        case.close(np.sort(out), np.sort(errs), "the null errors are not those of the fold models on their held-out rows and targets", rtol=1e-7, atol=1e-9)
        case.count("scored", k * reps)
        shuffled(case, X[:, var], have, kept)
    case.seen(sorted((sorted(t), col) for t, col in distinct))
    return columns if others else None


def shuffled(case, col, have, kept):
    """Rows keep their value of the variable only as often as under random permutations."""
    n, c = len(col), sorted(have.values())
    stay = sum(gammaln(v + 1) for v in c) - gammaln(n + 1)       # log probability that a permutation leaves everything in place
    if stay * len(kept) < np.log(1e-10):
        case.check(not all(v == n for v in kept), "the null models are fitted with the variable left in place", kept=kept, n=n)
        case.count("shuffles_checked")
    if len(c) > 1 and c[-2] >= 5 and len(kept) >= 4:
        ref = np.array([np.sum(col == case.rng.permutation(col)) for _ in range(400)])
        z = (np.mean(kept) - ref.mean()) / (ref.std() * np.sqrt(1. / len(kept) + 1. / len(ref)))
        case.check(abs(z) < 8, "the variable is not permuted at random", z=z, kept=kept)
        case.count("statistical_tests")


def both(case):
    """feature_importance returns the baseline and the null distribution of the same model and data."""
    from matplotlib import pyplot as plt
    from bartpy.features.featureimportance import feature_importance
    rng = case.rng
    X, y = tagged(case, n=int(rng.choice([9, 16])))
    m, Rec, log, a, fitted = template(case, X, y)
    k, reps = int(rng.choice([2, 3])), int(rng.choice([1, 3]))
    var = int(rng.randint(X.shape[1]))
    Xin, frame = inputs(rng, X, y)
    was, xc, yc = snap(m), X.copy(), y.copy()
    plt.close("all")
    Rec.scored[:] = []
    orig, nul = feature_importance(m, Xin, y, var, k, reps)
    plt.close("all")
    case.describe(folds=k, permutations=reps, variable=var)
    case.equal((len(orig), len(nul)), (k, k * reps), "feature importance does not return one baseline error per fold and one null error per fold and permutation")
    sc = list(Rec.scored)
    lg = list(log)
    c = a["n_chains"]
    # which of the two is computed first is not specified
    untouched = [all(np.any(np.all(X == r, axis=1)) for r in Xt) for _, Xt, _ in lg]
    if all(untouched[:k * c]) or not all(untouched[-k * c:]):
        parts = (sc[:k], lg[:k * c], sc[k:], lg[k * c:])
    else:
        parts = (sc[-k:], lg[-k * c:], sc[:-k], lg[:-k * c])
    Rec.scored[:] = parts[0]
    check_baseline(case, orig, Rec, parts[1], a, X, y, k)
    Rec.scored[:] = parts[2]
    check_null(case, nul, Rec, parts[3], a, X, y, k, reps, var)
    unchanged(case, m, was, Xin, xc, y, yc)
    case.count("importances")


def recording_base():
    from sklearn.linear_model import LinearRegression

    class Base(LinearRegression):
        """Remembers what it was fitted on; copies remember it too."""

        def fit(self, X, y):
            self.rows_ = np.asarray(X, dtype=float).copy()
            self.target_ = np.asarray(y, dtype=float).copy()
            type(self).fits.append(self.rows_)
            return super().fit(X, y)
    Base.fits = []
    return Base


def extensions(case):
    """Importance under a model that adds trees to a base model: each permuted fold has a base model of its own."""
    from bartpy.extensions.baseestimator import ResidualBART
    from bartpy.features.featureimportance import feature_importance, null_rmse_distribution
    rng = case.rng
    n, p = int(rng.choice([12, 20, 31])), int(rng.choice([2, 3]))
    X = np.arange(n * p, dtype=float).reshape(p, n).T + 1000. * np.arange(p)
    for j in range(p):
        X[:, j] = X[rng.permutation(n), j]
    y = X[:, 0] * .3 + rng.normal(size=n)
    Base = recording_base()

    class Rec(ResidualBART):
        scored = []

        def predict(self, X=None):
            out = super().predict(X)
            Rec.scored.append((self, np.asarray(X, dtype=float).copy(), np.asarray(out).copy()))
            return out
    a = dict(args(rng), n_chains=int(rng.choice([1, 2])))
    m = Rec(base_estimator=Base(), **a)
    fitted = rng.uniform() < .4
    if fitted:
        m.fit(X[:, ::-1] + 5, -y)
    k, reps, var = int(rng.choice([2, 3])), int(rng.choice([1, 3])), int(rng.randint(p))
    case.describe(n=n, p=p, folds=k, permutations=reps, variable=var, fitted=fitted, **a)
    del Rec.scored[:], Base.fits[:]
    whole = case.index % 3 == 0
    if whole:
        orig, out = feature_importance(m, X, y, var, k, reps)
        in_place = lambda b: set(map(tuple, b.rows_)) <= set(map(tuple, X))
        case.equal(sum(in_place(b.base_estimator) for b, _, _ in Rec.scored), k, "the baseline models are not fitted on untouched rows")
        Rec.scored[:] = [r for r in Rec.scored if not in_place(r[0].base_estimator)]
        case.check(all(np.isfinite(orig)) and len(orig) == k, "feature importance does not return one baseline error per fold")
        case.equal(len(Base.fits), k * (1 + reps), "feature importance does not fit one base model per model")
    else:
        out = null_rmse_distribution(m, X, y, var, k, reps)
        case.equal(len(Base.fits), k * reps, "the null distribution does not fit one base model per fold and permutation")
    case.equal((len(out), len(Rec.scored)), (k * reps, k * reps), "the null distribution does not score one model per fold and permutation")
    others = [j for j in range(p) if j != var]
    errs = []
    for model, Z, got in Rec.scored:
        base = model.base_estimator
        train = match(case, base.rows_, X, others, "a base model is fitted on other rows, or with another column permuted")
        test = match(case, Z, X, others, "a column other than the variable is permuted when scoring")
        case.close(base.target_, y[train], "a base model is fitted on other targets", rtol=0, atol=1e-9)
        case.equal(sorted(train + test), list(range(n)), "a model is not scored on exactly the rows held out from its base model's fit")
        case.equal(sorted(list(base.rows_[:, var]) + list(Z[:, var])), sorted(X[:, var]), "training and held-out rows are not those of one permutation of the variable")
        case.close(np.asarray(model.data.X.values), base.rows_, "the trees and the base model are not fitted on the same rows", rtol=0, atol=0)
        case.close(np.asarray(model.data.y.unnormalized_y), y[train] - base.predict(base.rows_), "the trees are not fitted to what the base model leaves", rtol=0, atol=1e-7)
        errs.append(float(np.sqrt(np.sum((y[test] - got) ** 2))))
        case.count("extension_scores")
    case.close(np.sort(out), np.sort(errs), "the null errors are not those of the fold models on their held-out rows and targets", rtol=1e-9, atol=1e-9)
    if not fitted:
        case.check(not hasattr(m.base_estimator, "rows_"), "the caller's base model is fitted")
    case.seen(errs)


def parts():
    return [Part("baseline", baseline, 80, 1000, needs=("baselines", "single_row_folds", "repeated_targets", "scored", "fitted_templates")),
            Part("null", null, 100, 1200, needs=("nulls", "repeated_nulls", "single_row_folds", "repeated_targets", "scored", "permutations_checked", "fitted_templates", "repeated_values", "shuffles_checked")),
            Part("both", both, 40, 400, needs=("importances",)),
            Part("extensions", extensions, 40, 500, needs=("extension_scores",))]
