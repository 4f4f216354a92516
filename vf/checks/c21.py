"""C21: the estimator obeys the scikit-learn contract."""
import copy
import inspect
import io
import pickle

import numpy as np
import pandas as pd
import statsmodels.api as sm
from sklearn.base import clone, is_regressor
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.metrics import r2_score
from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_val_score
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeRegressor

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one estimator (SklearnModel, ResidualBART or OLS, random constructor parameters) taken through a random sequence of get/set/clone/pickle/fit or through a scikit-learn meta-estimator; "
        "a state is a distinct parameter setting or fitted result")
ASSUMPTIONS = ["the fitted behaviour asked for by a parameter is observed through recording tree samplers and initializers and through the stored draws"]

CTOR = ["n_trees", "n_chains", "sigma_a", "sigma_b", "n_samples", "n_burn", "thin", "alpha", "beta", "store_in_sample_predictions", "store_acceptance_trace",
        "tree_sampler", "initializer", "n_jobs"]


class CountingSampler(gen.TreeSamplerWrapper):
    """Counts the steps of all its copies; compares equal only to itself."""

    def __init__(self, inner, box):
        super().__init__(inner)
        self.box = box

    def __deepcopy__(self, memo):
        return CountingSampler(copy.deepcopy(self.inner, memo), self.box)

    def step(self, model, tree):
        self.box.append(1)
        return self.inner.step(model, tree)


class CountingInitializer:
    def __init__(self, box):
        self.box = box

    def __deepcopy__(self, memo):
        return CountingInitializer(self.box)

    def initialize_tree(self, tree):
        self.box.append(1)

    def initialize_trees(self, trees):
        for t in trees:
            self.box.append(1)


def value(rng, name):
    if name == "tree_sampler":
        return gen.real_sampler(float(rng.choice([.3, .5, .8])), oblivious=rng.uniform() < .3)
    if name == "initializer":
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        return None if rng.uniform() < .4 else SklearnTreeInitializer(max_depth=int(rng.randint(1, 5)))
    if name in ("alpha", "beta", "sigma_a", "sigma_b") and rng.uniform() < .15:
        v = rng.uniform(.1, .95)
        return [np.float64(v), np.float32(v), np.int64(2) if name != "alpha" else np.float16(v)][rng.randint(3)]
    return {"n_trees": lambda: int(rng.randint(1, 6)) if rng.uniform() < .85 else np.int64(rng.randint(1, 6)), "n_chains": lambda: int(rng.randint(1, 4)), "sigma_a": lambda: float(rng.uniform(.0005, 3)),
            "sigma_b": lambda: float(rng.uniform(.0005, 3)), "n_samples": lambda: int(rng.randint(1, 9)), "n_burn": lambda: int(rng.randint(0, 6) * rng.randint(2)),
            "thin": lambda: [1., .5, .25, 1, .1][rng.randint(5)], "alpha": lambda: float(rng.uniform(.05, .99)), "beta": lambda: [0, 0., 1, 2][rng.randint(4)] if rng.uniform() < .4 else float(rng.uniform(0, 3)),
            "store_in_sample_predictions": lambda: bool(rng.randint(2)), "store_acceptance_trace": lambda: bool(rng.randint(2)),
            "n_jobs": lambda: 1 if rng.uniform() < .8 else None}[name]()


def random_params(rng, some=False):
    small = ["n_trees", "n_chains", "n_samples", "n_burn", "n_jobs"]          # the defaults take minutes
    names = CTOR if not some else [n for n in CTOR if n in small or rng.uniform() < .4]
    return {n: value(rng, n) for n in names}


def kinds():
    from bartpy.extensions.baseestimator import ResidualBART
    from bartpy.extensions.ols import OLS
    from bartpy.sklearnmodel import SklearnModel
    return {"SklearnModel": (SklearnModel, {}), "ResidualBART": (ResidualBART, {"base_estimator": lambda r: Ridge(alpha=float(r.choice([.1, 1.])))}),
            "OLS": (OLS, {"stat_model": lambda r: [sm.OLS, sm.GLS][r.randint(2)]})}


def make(rng, kind, params):
    cls, extra = kinds()[kind]
    ex = {k: f(rng) for k, f in extra.items()}
    return cls(**ex, **params), dict(params, **ex)


def same(a, b):
    """Parameters equal by identity, value, or (estimators) class and parameters."""
    if a is b:
        return True
    if hasattr(a, "get_params") and hasattr(b, "get_params") and type(a) is type(b) and not isinstance(a, type):
        return all(same(v, b.get_params()[k]) for k, v in a.get_params().items())
    try:
        return bool(a == b)
    except Exception:
        return False


def flat(m):
    return m.get_params(deep=False)


def similar(a, b):
    """clone deep-copies non-estimator parameters: same class and equal plain attributes."""
    if same(a, b):
        return True
    if type(a) is not type(b):
        return False
    if hasattr(a, "get_params"):
        return all(similar(v, b.get_params()[k]) for k, v in a.get_params().items())
    da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
    if da is None or db is None:
        if isinstance(a, (list, tuple)) and len(a) == len(b):
            return all(similar(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and set(a) == set(b):
            return all(similar(a[k], b[k]) for k in a)
        return False
    pub = [k for k in da if not k.startswith("_")]
    return all(k in db and (similar(da[k], db[k]) or isinstance(da[k], (list, np.ndarray))) for k in pub)


def round_trip(case):
    rng = case.rng
    kind = list(kinds())[case.index % 3]
    params = random_params(rng, some=rng.uniform() < .3)
    m, want = make(rng, kind, params)
    case.describe(kind=kind, params={k: v for k, v in params.items() if isinstance(v, (int, float, bool))})
    case.check(is_regressor(m), "the estimator is not recognised as a regressor")
    for k in CTOR:
        case.check(k in flat(m), "a constructor parameter is missing from get_params", parameter=k)
    model = dict(flat(m))
    for k, v in want.items():
        case.check(same(model[k], v), "get_params does not return the value passed to the constructor", parameter=k, got=repr(model[k]), expected=repr(v))
    if rng.uniform() < .5:
        m.fit(*data(rng))
        case.count("fitted_before")
        for k, v in model.items():
            case.check(same(flat(m)[k], v), "fitting changes a parameter", parameter=k)
    for _ in range(int(rng.randint(1, 6))):
        op = rng.choice(["set", "set", "clone", "copy", "pickle"])
        if op == "set":
            new = {n: value(rng, n) for n in CTOR if rng.uniform() < .3}
            out = m.set_params(**new)
            case.check(out is m, "set_params does not return the estimator")
            model.update(new)
            for k, v in model.items():
                case.check(same(flat(m)[k], v) or same(getattr(m, k), v), "set_params and get_params do not round-trip", parameter=k, got=repr(flat(m)[k]), expected=repr(v))
        elif op == "clone":
            c = clone(m)
            case.check(type(c) is type(m) and c is not m, "clone gives another class")
            case.check(c.model_samples is None, "a clone is already fitted")
            for k, v in flat(m).items():
                case.check(similar(flat(c)[k], v), "clone does not carry a parameter over", parameter=k, got=repr(flat(c)[k]), expected=repr(v))
            # setting on the clone leaves the original alone
            before = dict(flat(m))
            c.set_params(n_trees=99, alpha=.111)
            case.check(all(same(flat(m)[k], v) for k, v in before.items()), "setting a parameter on a clone changes the original")
            if rng.uniform() < .5:
                m = clone(m)
                model = dict(flat(m))
        else:
            m2 = copy.deepcopy(m) if op == "copy" else pickle.loads(pickle.dumps(m))
            for k, v in flat(m).items():
                case.check(similar(flat(m2)[k], v), "a copied or pickled estimator loses a parameter", parameter=k, got=repr(flat(m2)[k]), expected=repr(v))
            m = m2
            model = dict(flat(m))
        case.count("op_" + str(op))
    case.raises(ValueError, lambda: m.set_params(no_such_parameter=1), "an unknown parameter is accepted")
    m.set_params(n_jobs=1)
    check_used(case, m)
    case.seen(case.index, kind)


def data(rng, n=None):
    n = int(n or rng.choice([8, 20]))
    X = rng.normal(size=(n, 2))
    y = np.where(X[:, 0] > 0, 3., 0.) + X[:, 1] + .1 * rng.normal(size=n)
    return X, y


def check_used(case, m):
    """A fit uses the values the parameters have now."""
    rng = case.rng
    X, y = data(rng)
    p = flat(m)
    steps, inits = [], []
    inner_init = p["initializer"]
    m.set_params(tree_sampler=CountingSampler(p["tree_sampler"], steps))
    if rng.uniform() < .5:
        m.set_params(initializer=CountingInitializer(inits))
    out = m.fit(X, y)
    case.check(out is m, "fit does not return the estimator")
    case.equal(len(steps), p["n_trees"] * p["n_chains"] * (p["n_burn"] + p["n_samples"]), "the tree sampler set last is not the one the fit used")
    if isinstance(m.initializer, CountingInitializer):
        case.check(len(inits) > 0, "the initializer set last is not the one the fit used")
        case.count("initializers_used")
    check_settings(case, m, p)
    case.check((p["store_acceptance_trace"] and len(m.acceptance_trace) == len(m.model_samples)) or (not p["store_acceptance_trace"] and len(m.acceptance_trace) == 0),
               "store_acceptance_trace is not obeyed")
    case.count("fits_checked")


def check_settings(case, m, p):
    per = int(np.ceil(np.round(p["n_samples"] * p["thin"], 9)))
    case.equal(len(m.model_samples), p["n_chains"] * per, "a fit does not use the current n_chains, n_samples or thin")
    for s in m.model_samples:
        case.check(len(s.trees) == p["n_trees"], "a fit does not use the current n_trees")
        case.check(s.alpha == p["alpha"] and s.beta == p["beta"], "a fit does not use the current alpha or beta", got=(s.alpha, s.beta), expected=(p["alpha"], p["beta"]))
        case.check(s.sigma.alpha == p["sigma_a"] and s.sigma.beta == p["sigma_b"], "a fit does not use the current prior of sigma")


def samplers_used(case):
    """set_params(tree_sampler=...) and set_params(initializer=...): only the last one is used, before and after fits, clones, copies and pickles."""
    rng = case.rng
    X, y = data(rng)
    boxes, last = [], None
    m = gen.est(n_trees=2, n_samples=3, n_burn=1)
    for i in range(int(rng.randint(2, 6))):
        op = rng.choice(["set_params", "clone", "deepcopy", "fit"]) if i else "set_params"
        if op == "set_params":
            which = "tree_sampler" if rng.uniform() < .6 or i == 0 else "initializer"
            box = []
            boxes.append((which, box))
            if which == "tree_sampler":
                m.set_params(tree_sampler=CountingSampler(gen.real_sampler(.5), box))
            else:
                m.set_params(initializer=CountingInitializer(box))
        elif op == "clone":
            m = clone(m)
        elif op == "deepcopy":
            m = copy.deepcopy(m)
        for _, b in boxes:
            del b[:]
        m.fit(X, y)
        for which in ("tree_sampler", "initializer"):
            bs = [b for w, b in boxes if w == which]
            if bs:
                case.check(len(bs[-1]) > 0, "the %s set last is not used" % which, after=str(op))
                case.check(all(len(b) == 0 for b in bs[:-1]), "a %s that was replaced is still used" % which, after=str(op))
                if which == "tree_sampler":
                    case.equal(len(bs[-1]), 2 * 4, "the tree sampler set last is not used for every step")
        case.count("sampler_switches")
    case.seen(case.index)


def sampler_effect(case):
    """The grow probability of the sampler set last governs the moves: with p_grow near one, trees grow at every step."""
    rng = case.rng
    X, y = data(rng, 60)
    m = gen.est(n_trees=1, n_samples=40, n_burn=0, tree_sampler=gen.forcing_sampler(.02))
    if rng.uniform() < .5:
        m.fit(X, y)
    m.set_params(tree_sampler=gen.forcing_sampler(.98))
    m.fit(X, y)
    k = oracle.n_leaves(oracle.tree_shape(m.model_samples[-1].trees[0]))
    case.check(k > 20, "the tree sampler set last does not govern the moves", leaves=k)
    m.set_params(tree_sampler=gen.forcing_sampler(.02))
    m.fit(X, y)
    k = oracle.n_leaves(oracle.tree_shape(m.model_samples[-1].trees[0]))
    case.check(k < 8, "the tree sampler set last does not govern the moves", leaves=k)
    case.count("effects")


class Recording:
    """Data seen by fit, and rows predicted, by a recording subclass."""


def recording_class():
    from bartpy.sklearnmodel import SklearnModel

    class Rec(SklearnModel):
        seen = []

        def __init__(self, n_trees=2, n_chains=1, sigma_a=.001, sigma_b=.001, n_samples=4, n_burn=1, thin=1., alpha=.95, beta=2., store_in_sample_predictions=False,
                     store_acceptance_trace=False, tree_sampler=gen.real_sampler(.5), initializer=None, n_jobs=1):
            super().__init__(n_trees=n_trees, n_chains=n_chains, sigma_a=sigma_a, sigma_b=sigma_b, n_samples=n_samples, n_burn=n_burn, thin=thin, alpha=alpha, beta=beta,
                             store_in_sample_predictions=store_in_sample_predictions, store_acceptance_trace=store_acceptance_trace, tree_sampler=tree_sampler,
                             initializer=initializer, n_jobs=n_jobs)

        def fit(self, X, y):
            out = super().fit(X, y)
            type(self).seen.append((np.asarray(X).copy(), np.asarray(y).copy(), self))
            return out
    Rec.seen = []
    return Rec


def cross_validation(case):
    rng = case.rng
    X, y = data(rng, int(rng.choice([15, 30])))
    frame = rng.uniform() < .4
    Xin = pd.DataFrame(X, columns=["a", "b"]) if frame else X
    yin = pd.Series(y) if frame and rng.uniform() < .5 else y
    k = int(rng.choice([2, 3, 5]))
    case.describe(n=len(X), folds=k, frame=frame)
    Rec = recording_class()
    cv = KFold(k)
    scores = cross_val_score(Rec(), Xin, yin, cv=cv)
    case.equal(len(scores), k, "cross validation does not give one score per fold")
    case.equal(len(Rec.seen), k, "cross validation does not fit once per fold")
    for s, (tr, te), (Xf, yf, m) in zip(scores, cv.split(X), Rec.seen):
        case.check(np.array_equal(Xf, X[tr]) and np.array_equal(yf, y[tr]), "a fold is fitted on other rows")
        f = np.mean([oracle.model_predict(d, X[te]) for d in m.model_samples], axis=0)
        pred = y[tr].min() + (f + .5) * (y[tr].max() - y[tr].min())
        case.close(s, r2_score(y[te], pred), "the score is not R^2 of the predictions", rtol=1e-6, atol=1e-9)
    Rec.seen[:] = []
    p = cross_val_predict(Rec(), Xin, yin, cv=cv)
    case.equal(np.shape(p), (len(y),), "cross_val_predict does not give one prediction per row")
    case.count("cross_validations")
    # grid search over plain parameters and samplers
    Rec.seen[:] = []
    samplers = [gen.real_sampler(.5), gen.real_sampler(.8)]
    grid = {"n_trees": [1, 3], "alpha": [.5, .9]} if rng.uniform() < .6 else {"tree_sampler": samplers, "n_samples": [2, 5]}
    gs = GridSearchCV(Rec(), grid, cv=2).fit(Xin, yin)
    case.equal(len(Rec.seen), 2 * 4 + 1, "grid search does not fit every combination once per fold and the best once more")
    for _, _, m in Rec.seen:
        check_settings(case, m, flat(m))
    if "n_trees" in grid:
        combos = sorted((len(m.model_samples[0].trees), m.model_samples[0].alpha) for _, _, m in Rec.seen[:-1])
        case.equal(combos, sorted([(a, b) for a in [1, 3] for b in [.5, .9]] * 2), "grid search does not fit the combinations it was given")
    best = gs.cv_results_["params"][int(np.argmax(gs.cv_results_["mean_test_score"]))]
    for kk, v in best.items():
        case.check(similar(flat(gs.best_estimator_)[kk], v), "the best estimator does not have the best parameters", parameter=kk)
    case.check(np.all(np.isfinite(gs.predict(Xin))), "the best estimator does not predict")
    case.count("grid_searches")
    # pipeline
    pipe = make_pipeline(StandardScaler(), gen.est())
    pipe.fit(X, y)
    pipe.set_params(sklearnmodel__n_trees=5).fit(X, y)
    check_settings(case, pipe[-1], flat(pipe[-1]))
    case.close(pipe.score(X, y), r2_score(y, pipe[-1].predict(pipe[0].transform(X))), "the score in a pipeline is not R^2", rtol=1e-9, atol=1e-12)
    case.seen(scores, p)


def pickles(case):
    rng = case.rng
    kind = list(kinds())[case.index % 3]
    params = random_params(rng)
    m, _ = make(rng, kind, params)
    X, y = data(rng)
    fitted = rng.uniform() < .9
    if fitted:
        m.fit(X, y)
    case.describe(kind=kind, fitted=fitted)
    proto = int(rng.randint(2, pickle.HIGHEST_PROTOCOL + 1))
    if rng.uniform() < .5:
        r = pickle.loads(pickle.dumps(m, proto))
    else:
        import joblib
        b = io.BytesIO()
        joblib.dump(m, b)
        b.seek(0)
        r = joblib.load(b)
    if fitted:
        Z = np.concatenate([X, gen.predict_rows(rng, X, 20)])
        case.equal(r.predict(Z), m.predict(Z), "a restored model predicts differently")
        case.equal(r.residuals(X), m.residuals(X), "a restored model has other residuals")
        case.equal([float(s.sigma.current_value()) for s in r.model_samples], [float(s.sigma.current_value()) for s in m.model_samples], "a restored model has other sigmas")
        if m.store_in_sample_predictions:
            case.equal(r.predict(), m.predict(), "a restored model has other in-sample predictions")
        case.equal(len(r.acceptance_trace), len(m.acceptance_trace), "a restored model has another acceptance trace")
        case.equal([tuple(oracle.tree_shape(t) for t in s.trees) for s in r.model_samples], [tuple(oracle.tree_shape(t) for t in s.trees) for s in m.model_samples],
                   "a restored model has other trees")
        was = m.predict(Z)
        s = r.model_samples[0]
        s.trees[0].leaf_nodes[0].set_value(99.)
        r.fit(X[::-1].copy(), -y)
        case.equal(m.predict(Z), was, "a restored model shares state with the original")
        case.seen(was)
    np.random.seed(5)
    a = clone(m).set_params(n_jobs=1).fit(X, y).predict(X)
    np.random.seed(5)
    b = clone(r).set_params(n_jobs=1).fit(X, y).predict(X)
    case.close(a, b, "a restored model refits differently", rtol=1e-12, atol=1e-12)
    case.count("restored")


def seeded_equivalence(case):
    """clone, set_params and the constructor lead to the same fit under the same seed."""
    rng = case.rng
    X, y = data(rng)
    params = random_params(rng)
    params["n_jobs"] = 1
    base = gen.est(**params)
    other = gen.est(**random_params(rng, some=True))
    if rng.uniform() < .5:
        other.set_params(n_jobs=1).fit(*data(rng))
    other.set_params(**params)
    preds = []
    for m in (base, clone(base), other, clone(other), copy.deepcopy(base)):
        np.random.seed(case.seed % 2 ** 31)
        preds.append(m.fit(X, y).predict(X))
        check_settings(case, m, params)
    for p, how in zip(preds[1:], ("a clone", "set_params", "a clone after set_params", "a copy")):
        case.close(p, preds[0], "%s fits differently from the constructor with the same parameters" % how, rtol=1e-12, atol=1e-12)
    case.count("equivalences")
    case.seen(preds[0])


def parts():
    return [Part("round_trip", round_trip, 120, 1500, needs=("op_set", "op_clone", "op_copy", "op_pickle", "fits_checked", "initializers_used", "fitted_before")),
            Part("samplers_used", samplers_used, 60, 600, needs=("sampler_switches",)),
            Part("sampler_effect", sampler_effect, 12, 60, needs=("effects",)),
            Part("cross_validation", cross_validation, 24, 200, needs=("cross_validations", "grid_searches")),
            Part("pickles", pickles, 60, 600, needs=("restored",)),
            Part("seeded_equivalence", seeded_equivalence, 60, 600, needs=("equivalences",))]
