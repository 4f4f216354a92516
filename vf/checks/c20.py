"""C20: batch runs pair every data set with its own fitted model."""
import joblib
import numpy as np
import pandas as pd

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one batch run over 1 to 6 data sets whose covariates, targets and sizes identify them; each result is matched with its data set by values, units, thresholds and "
        "(sequentially) by the exact draws of the same seeded fits run alone; a state is a distinct batch")
ASSUMPTIONS = ["exact equality with fitting alone is judged for n_jobs=1 with numpy's global generator seeded"]


def tagged(rng, i, n=None, p=2):
    """Data set i: covariates in [100 i, 100 i + 1], target in [1000 i, 1000 i + (i + 1)]."""
    n = int(n or rng.choice([4, 9, 16, 25]))
    X = 100. * i + rng.uniform(size=(n, p))
    X[0] = 100. * i
    X[-1] = 100. * i + 1
    y = gen.signal(X) + 0.2 * rng.normal(size=n)
    y = 1000. * i + (i + 1) * (y - y.min()) / (y.max() - y.min())
    return X, y


def random_args(rng):
    return dict(n_trees=gen.n_trees(rng, [1, 3]), n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.choice([1, 4, 9, 12])), n_burn=int(rng.choice([0, 3])),
                thin=float(rng.choice([1., 1., .5])), store_in_sample_predictions=bool(rng.uniform() < 0.5), store_acceptance_trace=bool(rng.uniform() < 0.5),
                alpha=float(rng.choice([.95, .9])), beta=float(rng.choice([2., .5])), n_jobs=1)


def state(s):
    return (tuple(oracle.tree_shape(t) for t in s.trees), float(s.sigma.current_value()))


def thresholds(s):
    if s[0] == "L":
        return []
    return [s[2]] + thresholds(s[4]) + thresholds(s[5])


def params(m):
    return dict(m.get_params())


def check_one(case, m, i, X, y, args, template):
    C = args["n_chains"]
    per = int(np.ceil(np.round(args["n_samples"] * args["thin"], 9)))
    case.equal(len(m.model_samples), C * per, "a batch result does not hold exactly the draws of its chains", dataset=i)
    t = 1e-8 * (1000. * (i + 1))
    Xf = np.asarray(X, dtype=float)
    case.close(np.asarray(m.data.X.values), Xf, "a batch result describes another data set's covariates", rtol=0, atol=0, dataset=i)
    case.close(np.asarray(m.data.y.unnormalized_y), np.asarray(y), "a batch result describes another data set's target", rtol=0, atol=t, dataset=i)
    lo, hi = 100. * i, 100. * i + 1
    for s in m.model_samples:
        case.check(len(s.trees) == args["n_trees"] and s.alpha == args["alpha"] and s.beta == args["beta"], "a batch result was not sampled with the template's settings")
        case.close(s.sigma.current_unnormalized_value() / s.sigma.current_value(), float(np.max(y) - np.min(y)),
                   "a draw belongs to a data set with another target range", rtol=1e-9, atol=0, dataset=i)
        th = [v for tr in state(s)[0] for v in thresholds(tr)]
        case.check(all(lo <= v <= hi for v in th), "a draw splits at values of another data set", dataset=i, thresholds=th)
        case.count("draws_matched")
    f = np.mean([oracle.model_predict(s, Xf) for s in m.model_samples], axis=0)
    want = float(np.min(y)) + (f + .5) * float(np.max(y) - np.min(y))
    case.close(np.asarray(m.predict(X)), want, "a batch result does not predict in its data set's units", rtol=1e-9, atol=t, dataset=i)
    case.close(np.asarray(m.residuals(X)), np.asarray(y) - want, "a batch result's residuals are not against its own target", rtol=1e-9, atol=t, dataset=i)
    if args["store_in_sample_predictions"]:
        case.close(np.asarray(m.predict()), want, "a batch result's in-sample predictions are not its own", rtol=1e-9, atol=t, dataset=i)
        case.equal(np.asarray(m.prediction_samples).shape, (C * per, len(y)), "a batch result's prediction samples are not its own")
    case.equal(len(m.acceptance_trace), C * per if args["store_acceptance_trace"] else 0, "a batch result's acceptance trace is not its own")
    case.check(m is not template, "a batch result is the template itself")
    case.check(m.extract is not None and [state(s) for ch in m.extract for s in ch["model"]] == [state(s) for s in m.model_samples], "a batch result's extract is not that of its own chains", dataset=i)
    p, want = m.get_params(), template.get_params()
    for k in want:
        if isinstance(want[k], (int, float, bool, str, type(None))):
            case.equal(p.get(k), want[k], "a batch result does not have the template's parameters", parameter=k)
        else:
            case.check(type(p.get(k)) is type(want[k]), "a batch result does not have the template's parameters", parameter=k)


def snapshot(m):
    out = {"params": params(m)}
    if m.model_samples is not None:
        out["samples"] = [state(s) for s in m.model_samples]
        out["y"] = np.asarray(m.data.y.unnormalized_y).copy()
        out["X"] = np.asarray(m.data.X.values).copy()
    return out


def same_snapshot(case, m, was, what):
    p = params(m)
    case.check(set(p) == set(was["params"]) and all(p[k] is was["params"][k] or p[k] == was["params"][k] for k in p), what + " (parameters)")
    case.equal(m.model_samples is None, "samples" not in was, what + " (fitted state)")
    if "samples" in was:
        case.equal([state(s) for s in m.model_samples], was["samples"], what + " (draws)")
        case.close(np.asarray(m.data.y.unnormalized_y), was["y"], what + " (target)", rtol=0, atol=0)
        case.close(np.asarray(m.data.X.values), was["X"], what + " (covariates)", rtol=0, atol=0)


def setup(case, n_jobs=1):
    rng = case.rng
    k = int(rng.choice([1, 2, 3, 4, 6, 6, 11, 15])) if case.index % 15 != 7 else int(rng.choice([20, 40, 70]))
    args = random_args(rng)
    if k > 6:
        args.update(n_chains=int(rng.choice([1, 2])), n_samples=2, n_trees=1)
        case.count("long_batches")
    elif k < 3 and rng.uniform() < .3:
        args.update(n_chains=8, n_samples=2)
    args["n_jobs"] = n_jobs
    same_n = rng.uniform() < 0.5
    n = 12 if same_n else None
    order = rng.permutation(k)
    sets = [tagged(rng, int(i), n) for i in order]
    pg = float(rng.choice([.5, .7]))
    template = gen.est(tree_sampler=gen.forcing_sampler(pg) if rng.uniform() < 0.4 else gen.real_sampler(pg), **args)
    if rng.uniform() < 0.4:                        # a template that was already fitted on something else
        template.fit(*tagged(rng, 9))
        case.count("fitted_templates")
    case.describe(k=k, sizes=[len(y) for _, y in sets], **args)
    return rng, k, args, order, sets, template


def run(template, sets, seed=None):
    from bartpy.runner import run_models
    if seed is not None:
        np.random.seed(seed)
    return run_models(template, [X for X, _ in sets], [y for _, y in sets])


def batch(case):
    rng, k, args, order, sets, template = setup(case)
    was = snapshot(template)
    raw = [(X.copy(), y.copy()) for X, y in sets]
    seed = int(rng.randint(2 ** 31))
    res = run(template, sets, seed)
    case.equal(len(res), k, "a batch run does not return one model per data set")
    for m, i, (X, y) in zip(res, order, sets):
        check_one(case, m, int(i), X, y, args, template)
    same_snapshot(case, template, was, "a batch run changed the template model")
    for (X, y), (a, b) in zip(sets, raw):
        case.check(np.array_equal(X, a) and np.array_equal(y, b), "a batch run changed the data sets")
    # as if fitted alone: the same chains in the same order from the same seed
    np.random.seed(seed)
    chains = []
    for X, y in sets:
        chains.append([[state(s) for s in ch["model"]] for ch in joblib.Parallel(n_jobs=1)(gen_template(template, args).f_delayed_chains(X, y))])
    for m, ch, i in zip(res, chains, order):
        case.equal([state(s) for s in m.model_samples], [s for c in ch for s in c], "a batch result is not what its chains give when run alone", dataset=int(i))
    isolated(case, res)
    case.count("batches")
    case.seen([[state(s) for s in m.model_samples] for m in res])


def common(case):
    """Several targets for the same covariate matrix object, or the same target for several matrices, and data sets given twice."""
    from bartpy.runner import run_models
    rng = case.rng
    k = int(rng.choice([2, 3, 5]))
    args = random_args(rng)
    n = int(rng.choice([5, 12]))
    X0 = rng.normal(size=(n, 2))
    mode = case.index % 3
    Xs, ys = [], []
    for i in range(k):
        Xs.append(X0 if mode != 1 else rng.normal(size=(n, 2)))
        u = rng.normal(size=n)
        ys.append((u - u.min()) / (u.max() - u.min()) * (i + 1) + 1000. * i)
    if mode == 1:
        ys = [ys[0]] * k
    if mode == 2:                                      # the buffers are reused by the caller once the run is over
        ys = [np.array(ys[0]) for _ in range(k)]
        for i in range(k):
            ys[i][int(rng.randint(n))] += i + 1.
    if rng.uniform() < .5:
        Xs.append(Xs[0])
        ys.append(ys[0])
    args["store_in_sample_predictions"] = True
    template = gen.est(**args)
    case.describe(k=len(Xs), mode=["one matrix", "one target", "nearly equal targets"][mode], **args)
    seed = int(rng.randint(2 ** 31))
    np.random.seed(seed)
    res = run_models(template, Xs, ys)
    case.equal(len(res), len(Xs), "a batch run does not return one model per data set")
    np.random.seed(seed)
    for m, X, y in zip(res, Xs, ys):
        alone = [state(s) for ch in joblib.Parallel(n_jobs=1)(gen_template(template, args).f_delayed_chains(X, y)) for s in ch["model"]]
        case.equal([state(s) for s in m.model_samples], alone, "a batch result is not what its chains give when run alone", mode=mode)
        f = np.mean([oracle.model_predict(s, X) for s in m.model_samples], axis=0)
        want = float(y.min()) + (f + .5) * float(y.max() - y.min())
        t = 1e-8 * (1 + np.abs(y).max())
        case.close(np.asarray(m.predict(X)), want, "a batch result does not predict in its data set's units", rtol=1e-9, atol=t)
        case.close(np.asarray(m.predict()), want, "a batch result's in-sample predictions are not its own", rtol=1e-9, atol=t)
        case.close(np.asarray(m.data.y.unnormalized_y), y, "a batch result describes another data set's target", rtol=0, atol=t)
        case.close(np.asarray(m.data.X.values), X, "a batch result describes another data set's covariates", rtol=0, atol=0)
    isolated(case, res)
    case.count("common_batches")


def scales(case):
    """Data sets whose targets and covariates live on scales many orders of magnitude apart, constant ones and single rows among them."""
    from bartpy.runner import run_models
    rng = case.rng
    k = int(rng.choice([2, 3, 5]))
    args = random_args(rng)
    args["n_chains"] = int(rng.choice([1, 2, 4]))
    Xs, ys = [], []
    for i in range(k):
        n = int(rng.choice([1, 2, 5, 12, 30], p=[.1, .1, .3, .3, .2]))
        X = rng.normal(size=(n, 2)) * 10. ** rng.randint(-9, 10)
        y = (rng.normal(size=n) + float(rng.choice([0., 5., -1.]))) * 10. ** rng.randint(-12, 13)
        if rng.uniform() < .15:
            y[:] = y[0]
        Xs.append(X)
        ys.append(y)
    template = gen.est(**args)
    case.describe(k=k, sizes=[len(y) for y in ys], ranges=[float(y.max() - y.min()) for y in ys], **args)
    seed = int(rng.randint(2 ** 31))
    np.random.seed(seed)
    res = run_models(template, Xs, ys)
    case.equal(len(res), k, "a batch run does not return one model per data set")
    np.random.seed(seed)
    for m, X, y in zip(res, Xs, ys):
        alone = [state(s) for ch in joblib.Parallel(n_jobs=1)(gen_template(template, args).f_delayed_chains(X, y)) for s in ch["model"]]
        case.equal([state(s) for s in m.model_samples], alone, "a batch result is not what its chains give when run alone")
        span = float(y.max() - y.min())
        f = np.mean([oracle.model_predict(s, X) for s in m.model_samples], axis=0)
        want = float(y.min()) + (f + .5) * span
        t = 1e-9 * float(np.abs(y).max()) + 1e-300
        if span > 0:
            Z = gen.predict_rows(rng, X, 5)
            fz = np.mean([oracle.model_predict(s, Z) for s in m.model_samples], axis=0)
            case.close(np.asarray(m.predict(X)), want, "a batch result does not predict in its data set's units", rtol=1e-9, atol=t)
            case.close(np.asarray(m.predict(Z)), float(y.min()) + (fz + .5) * span, "a batch result does not predict in its data set's units", rtol=1e-9, atol=t)
            case.close(np.asarray(m.residuals(X)), y - want, "a batch result's residuals are not against its own target", rtol=1e-9, atol=t)
            if args["store_in_sample_predictions"]:
                case.close(np.asarray(m.predict()), want, "a batch result's in-sample predictions are not its own", rtol=1e-9, atol=t)
        case.close(np.asarray(m.data.y.unnormalized_y), y, "a batch result describes another data set's target", rtol=0, atol=t)
        case.close(np.asarray(m.data.X.values), X, "a batch result describes another data set's covariates", rtol=0, atol=0)
        case.count("scaled_sets")


def gen_template(template, args):
    return gen.est(tree_sampler=template.tree_sampler, **args)


def isolated(case, res):
    """Disturbing one result, or fitting it again, leaves the others alone."""
    rng = case.rng
    seen = {}
    for j, m in enumerate(res):
        for s in m.model_samples:
            case.check(id(s) not in seen or seen[id(s)] == j, "two batch results share a draw")
            seen[id(s)] = j
    if len(res) < 2:
        return
    was = [snapshot(m) for m in res]
    j = int(rng.randint(len(res)))
    s = res[j].model_samples[0]
    for t in s.trees:
        for l in t.leaf_nodes:
            l.set_value(12345.)
    s.sigma.set_value(77.)
    res[j].set_params(n_trees=9, alpha=.123)
    res[j].fit(*tagged(rng, 7))
    for i, m in enumerate(res):
        if i != j:
            same_snapshot(case, m, was[i], "changing one batch result changed another")
    case.count("isolation_checks")


def processes(case):
    rng, k, args, order, sets, template = setup(case, n_jobs=2)
    was = snapshot(template)
    res = run(template, sets)
    case.equal(len(res), k, "a batch run does not return one model per data set")
    for m, i, (X, y) in zip(res, order, sets):
        check_one(case, m, int(i), X, y, args, template)
    same_snapshot(case, template, was, "a batch run changed the template model")
    case.count("process_batches")


def threads(case):
    rng, k, args, order, sets, template = setup(case)
    was = snapshot(template)
    with joblib.parallel_backend("threading", n_jobs=4):
        template.set_params(n_jobs=4)
        was["params"]["n_jobs"] = 4
        res = run(template, sets)
    case.equal(len(res), k, "a batch run does not return one model per data set")
    for m, i, (X, y) in zip(res, order, sets):
        check_one(case, m, int(i), X, y, args, template)
    same_snapshot(case, template, was, "a batch run changed the template model")
    case.count("thread_batches")


def extracts(case):
    """from_extract: chains run by hand, put into models of their own."""
    rng, k, args, order, sets, template = setup(case)
    sets = [(pd.DataFrame(X, columns=["a", "b"]) if rng.uniform() < 0.3 else X, y) for X, y in sets]
    was = snapshot(template)
    ex = [joblib.Parallel(n_jobs=1)(gen_template(template, args).f_delayed_chains(X, y)) for X, y in sets]
    want = [[state(s) for ch in e for s in ch["model"]] for e in ex]
    res = []
    for e, (X, y) in zip(ex, sets):
        res.append(template.from_extract(e, X, y))
        same_snapshot(case, template, was, "building a model from an extract changed the template")
        for m, w in zip(res, want):
            case.equal([state(s) for s in m.model_samples], w, "a model built from an extract does not hold exactly its draws, or changed later")
    for m, i, (X, y) in zip(res, order, sets):
        check_one(case, m, int(i), X, y, args, template)
    isolated(case, res)
    case.count("extracts", k)
    case.seen(want)


def extension(case, kind, **kw):
    if kind == "ols":
        import statsmodels.api as sm
        from bartpy.extensions.ols import OLS
        return OLS(sm.OLS, **kw)
    from sklearn.ensemble import RandomForestRegressor
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.tree import DecisionTreeRegressor
    from bartpy.extensions.baseestimator import ResidualBART
    base = {"default": None, "ridge": Ridge(alpha=3.), "linear": LinearRegression(), "tree": DecisionTreeRegressor(max_depth=2, random_state=0), "random": RandomForestRegressor(3)}[kind]
    return ResidualBART(base_estimator=base, **kw)


def extensions(case):
    """Batches of models that add trees to a base model: every result has the base model of its own data set."""
    from bartpy.runner import run_models
    rng = case.rng
    kind = ["ridge", "ols", "default", "tree", "random", "linear"][case.index % 6]
    args = dict(random_args(rng), store_in_sample_predictions=False)
    template = extension(case, kind, tree_sampler=gen.forcing_sampler(.6) if rng.uniform() < .5 else gen.real_sampler(.5), **args)
    p = int(rng.choice([1, 3]))
    sets = []
    for _ in range(int(rng.choice([1, 2, 4]))):
        n = int(rng.choice([8, 20]))
        X = rng.normal(size=(n, p)) * 3
        sets.append((X, X[:, 0] * rng.normal() * 5 + 10. ** rng.randint(-1, 4) * rng.normal() + rng.normal(size=n)))
    Z = rng.normal(size=(9, p)) * 3
    fitted = rng.uniform() < .5
    if fitted:
        X0 = rng.normal(size=(12, p))
        template.fit(X0, X0[:, 0] * 100 + rng.normal(size=12))
        was = template.predict(Z)
    case.describe(kind=kind, sets=len(sets), fitted=fitted, **args)
    seed = int(rng.randint(2 ** 31))
    if rng.uniform() < .3:                             # in threads
        import joblib
        template.set_params(n_jobs=3)
        with joblib.parallel_backend("threading", n_jobs=3):
            res, alone = run_models(template, [a for a, _ in sets], [b for _, b in sets]), False
        template.set_params(n_jobs=1)
    else:
        np.random.seed(seed)
        res, alone = run_models(template, [a for a, _ in sets], [b for _, b in sets]), kind != "random"
    case.equal(len(res), len(sets), "a batch does not return one model per data set")
    for i, (m, (X, y)) in enumerate(zip(res, sets)):
        size = 1e-8 * (1 + np.abs(y).max())
        case.close(m.predict(X) + m.residuals(X), y, "predictions and residuals of a batch result do not add up to its own target", rtol=0, atol=size, dataset=i)
        case.close(m.residuals(Z[:len(X)], np.zeros(len(Z[:len(X)]))), -m.predict(Z[:len(X)]), "residuals of a batch result are not the difference to its predictions", rtol=0, atol=size)
        base = m.stat_model_fit if kind == "ols" else m.base_estimator
        if kind != "random":
            own = extension(case, kind, **args)
            if kind == "ols":
                want, left = own.stat_model(y, X).fit().predict, None
            else:
                from sklearn.base import clone
                want = clone(own.base_estimator).fit(X, y).predict
            case.close(base.predict(Z), want(Z), "a batch result's base model is not that of its data set", rtol=1e-7, atol=size, dataset=i)
        left = y - np.asarray(base.predict(X))
        case.close(np.asarray(m.data.y.unnormalized_y), left, "a batch result's trees are not fitted to what its base model leaves", rtol=0, atol=size, dataset=i)
        draws = np.mean([oracle.model_predict(s, Z) for s in m.model_samples], axis=0)
        lo, hi = left.min(), left.max()
        case.close(m.predict(Z), np.asarray(base.predict(Z)) + lo + (draws + .5) * (hi - lo), "a batch result does not predict its base model plus the mean of its draws", rtol=1e-7, atol=size, dataset=i)
        case.count("extension_results")
        case.seen(kind, [state(s) for s in m.model_samples])
    if alone:
        np.random.seed(seed)
        for i, (m, (X, y)) in enumerate(zip(res, sets)):
            one = gen_extension(template, case, kind, args).fit(X, y)
            case.equal([state(s) for s in m.model_samples], [state(s) for s in one.model_samples], "a batch result is not what fitting its data set alone gives", dataset=i)
            case.count("fitted_alone")
    if fitted:
        case.close(template.predict(Z), was, "a batch run changes its template", rtol=0, atol=0)
    else:
        case.check(template.model_samples is None, "a batch run fits its template")
        if kind == "ols":
            case.check(template.stat_model_fit is None, "a batch run fits its template's base model")
        else:
            case.check(not any(k.endswith("_") for k in vars(template.base_estimator)), "a batch run fits its template's base model")
    ids = [id(m.stat_model_fit if kind == "ols" else m.base_estimator) for m in res]
    case.equal(len(set(ids)), len(ids), "batch results share a base model")


def gen_extension(template, case, kind, args):
    return extension(case, kind, tree_sampler=template.tree_sampler, **args)


def parts():
    return [Part("batch", batch, 120, 1500, needs=("batches", "long_batches", "draws_matched", "isolation_checks", "fitted_templates")),
            Part("common", common, 36, 400, needs=("common_batches",)),
            Part("scales", scales, 40, 500, needs=("scaled_sets",)),
            Part("threads", threads, 24, 300, needs=("thread_batches",)),
            Part("extracts", extracts, 60, 800, needs=("extracts", "draws_matched")),
            Part("extensions", extensions, 60, 800, needs=("extension_results", "fitted_alone")),
            Part("processes", processes, 3, 16, needs=("process_batches",), serial=True)]
