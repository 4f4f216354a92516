"""C28: reading a fitted model never changes it."""
import matplotlib
matplotlib.use("Agg")
import copy
import pickle
import sys
import threading

import numpy as np
import pandas as pd

from vf import gen, oracle
from vf.core import Part, digest

RULE = ("one case = one fitted estimator (plain, residual extension or a batch result); every kind of query is answered once by a fresh copy of it, then long random sequences "
        "of queries, some from several threads at once, are put to the estimator itself and compared with those answers; a fingerprint of everything the estimator stores is compared "
        "before and after; a state is a distinct (model, sequence of queries)")
ASSUMPTIONS = ["prediction_samples, model_samples and acceptance_trace give access to the stored objects themselves; arrays computed by predict, residuals and the error measures belong to the caller"]


def shapes(m):
    return [tuple(oracle.tree_shape(t) for t in s.trees) for s in m.model_samples]


def chains(m):
    """What the estimator keeps of each chain, where it keeps chains at all."""
    if not isinstance(getattr(m, "extract", None), (list, tuple)):
        return None
    out = []
    for c in m.extract:
        if isinstance(c, dict):
            out.append({k: [tuple(oracle.tree_shape(t) for t in x.trees) if hasattr(x, "trees") else sorted(x.items()) if isinstance(x, dict) else np.array(x) for x in v] for k, v in sorted(c.items())})
    return digest(out)


def fingerprint(m):
    ps = m.prediction_samples
    return {"samples": digest(shapes(m)), "depths": digest([[int(n.depth) for n in t.nodes] for s in m.model_samples for t in s.trees]),
            "sigmas": [float(s.sigma.current_value()) for s in m.model_samples],
            "scaled sigmas": [float(s.sigma.current_unnormalized_value()) for s in m.model_samples],
            "in-sample predictions": None if ps is None else digest(np.array(ps)),
            "acceptance": [sorted(d.items()) for d in m.acceptance_trace],
            "covariates": digest(np.array(m.data.X.values)), "target": digest(np.array(m.data.y.unnormalized_y)), "normalised target": digest(np.array(m.data.y.values)),
            "chains": chains(m),
            "settings": (m.n_trees, m.n_chains, m.n_samples, m.n_burn, m.thin, m.alpha, m.beta, m.store_in_sample_predictions, m.n_jobs)}


def fitted(case):
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[3, 8, 20, 60])
    kw = dict(n_trees=gen.n_trees(rng, [1, 3, 6]), n_chains=int(rng.choice([1, 2])), n_samples=int(rng.choice([2, 5])), n_burn=1, n_jobs=1,
              thin=float(rng.choice([1., .5])), store_in_sample_predictions=bool(rng.uniform() < .7), store_acceptance_trace=bool(rng.uniform() < .8))
    kind = ["plain", "plain", "residual", "ols", "batch", "plain", "pickled"][case.index % 7]
    if kind in ("residual", "ols") and np.abs(X).max() > 1e6:
        X = rng.normal(size=X.shape)
    sampler = gen.forcing_sampler(.7) if rng.uniform() < .4 else gen.real_sampler(.5)
    case.describe(kind=kind, **kw, **d)
    if kind == "residual":
        from bartpy.extensions.baseestimator import ResidualBART
        from sklearn.linear_model import Ridge
        m = ResidualBART(base_estimator=Ridge(), thin=kw.pop("thin"), tree_sampler=sampler, **kw).fit(X, y)
    elif kind == "ols":
        import statsmodels.api as sm
        from bartpy.extensions.ols import OLS
        m = OLS(sm.OLS, thin=kw.pop("thin"), tree_sampler=sampler, **kw)
        m.fit(X, y)
    elif kind == "batch":
        from bartpy.runner import run_models
        m = run_models(gen.est(tree_sampler=sampler, **kw), [X, X + 1], [y, -y])[int(rng.randint(2))]
        if not np.array_equal(m.data.X.values, X):
            X, y = X + 1, -y
    else:
        m = gen.est(tree_sampler=sampler, **kw).fit(X, y)
        if kind == "pickled":
            m = pickle.loads(pickle.dumps(m))
    return m, X, y, kind


def queries(m, X, y, Z):
    """name -> (function of the model, can be asked from any thread, draws no random numbers)"""
    F = pd.DataFrame(Z, columns=["c%d" % j for j in range(Z.shape[1])])
    yz = np.linspace(-1, 1, len(Z))
    q = {"predict(new)": lambda m: m.predict(Z), "predict(train)": lambda m: m.predict(X), "predict(frame)": lambda m: m.predict(F), "predict(one)": lambda m: m.predict(Z[:1]),
         "residuals(X)": lambda m: m.residuals(X), "residuals(X, y)": lambda m: m.residuals(Z, yz), "l2_error": lambda m: m.l2_error(X, y),
         "rmse": lambda m: np.array([m.rmse(X, y)]), "score": lambda m: np.array([m.score(X, y) if len(X) > 1 else 0.]),
         "draws": lambda m: np.array([s.predict(Z) for s in m.model_samples]), "sigmas": lambda m: np.array([s.sigma.current_unnormalized_value() for s in m.model_samples]),
         "trees": lambda m: np.concatenate([t.predict(Z) for s in m.model_samples for t in s.trees]),
         "depths": lambda m: np.array([n.depth for s in m.model_samples for t in s.trees for n in t.nodes], float),
         "leaves": lambda m: np.array([l.current_value for s in m.model_samples for t in s.trees for l in t.leaf_nodes]),
         "target": lambda m: np.array(m.data.y.unnormalized_y)}
    if m.store_in_sample_predictions:
        q.update({"predict()": lambda m: m.predict(), "residuals()": lambda m: m.residuals(), "l2_error()": lambda m: m.l2_error(),
                  "prediction_samples": lambda m: np.array(m.prediction_samples)})
    if m.store_acceptance_trace:
        q["acceptance"] = lambda m: np.array([d["Tree"] for d in m.acceptance_trace])
    slow = {"deepcopy": lambda m: copy.deepcopy(m).predict(Z), "pickle": lambda m: pickle.loads(pickle.dumps(m)).predict(Z),
            "get_params": lambda m: np.array([float(m.get_params()[k]) for k in ("n_trees", "alpha", "beta", "sigma_a", "thin")]),
            "proportions": lambda m: proportions(m)}
    if m.extract is not None:
        slow["from_extract"] = lambda m: extracted(m, X, y, Z)
    return q, slow


def extracted(m, X, y, Z):
    base = np.array(m.data.y.unnormalized_y)
    return m.from_extract(m.extract, np.array(m.data.X.values), base).predict(Z)


def proportions(m):
    from bartpy.diagnostics.features import feature_split_proportions
    p = feature_split_proportions(m, list(range(m.data.X.values.shape[1])))
    return np.array([p[k] for k in sorted(p)])


def plots():
    from bartpy.diagnostics import diagnostics, features, residuals, sigma, trees
    from bartpy import plotting
    return [residuals.plot_qq, residuals.plot_homoskedasity_diagnostics, sigma.plot_sigma_convergence, trees.plot_tree_depth, diagnostics.plot_diagnostics,
            features.plot_feature_split_proportions, plotting.plot_residuals, plotting.plot_modelled_against_actual]


def draw(f, m):
    from matplotlib import pyplot as plt
    plt.close("all")
    f(m)
    plt.close("all")


def answers(m, q):
    """Every query answered by a fresh copy."""
    return {k: np.array(f(copy.deepcopy(m)), dtype=float) for k, f in q.items()}


def spoil(out):
    """The caller overwrites a result."""
    if isinstance(out, np.ndarray) and out.flags.writeable and out.dtype.kind == "f":
        out[...] = 1e6


def compare(case, got, want, name, y, **kw):
    big = float(np.abs(want).max()) if np.size(want) else 0.
    if name.startswith(("predict", "resid")):
        big = max(big, float(np.abs(y).max()))
    case.close(got, want, "a query is answered differently after others", rtol=1e-11, atol=1e-12 * big, query=name, **kw)


def still(case, state, name):
    now = np.random.get_state()
    case.check(now[2] == state[2] and np.array_equal(now[1], state[1]), "a query draws random numbers", query=name)


def same(case, m, was, what):
    now = fingerprint(m)
    for k in was:
        case.check(now[k] == was[k], what, changed=k)


def sequences(case):
    rng = case.rng
    m, X, y, kind = fitted(case)
    Z = gen.predict_rows(rng, X, int(rng.choice([1, 4, 15])))
    if kind in ("residual", "ols"):
        Z = np.clip(Z, -1e6, 1e6)
    Xc, yc, Zc = X.copy(), y.copy(), Z.copy()
    if rng.uniform() < .4:
        for a in (X, y, Z):
            a.setflags(write=False)
        case.count("read_only_inputs")
    q, slow = queries(m, X, y, Z)
    was = fingerprint(m)
    want = answers(m, dict(q, **slow))
    same(case, m, was, "copying a fitted model changes it")
    names, asked = list(q), []
    every = list(q) + list(slow)
    drawn = plots()
    for _ in range(int(rng.choice([15, 40, 80]))):
        u = rng.uniform()
        if u < .06 and len(X) > 2 and y.max() > y.min() and m.store_acceptance_trace and np.abs(X).max() < 1e100:
            f = drawn[rng.randint(len(drawn))]
            state = np.random.get_state()
            draw(f, m)
            still(case, state, f.__name__)
            asked.append(f.__name__)
            case.count("plots")
            continue
        name = names[rng.randint(len(names))] if u < .85 else every[rng.randint(len(every))]
        state = np.random.get_state()
        out = dict(q, **slow)[name](m)
        if name in q:
            still(case, state, name)
        compare(case, out, want[name], name, y, before=asked[-5:])
        asked.append(name)
        if name not in ("prediction_samples", "target") or rng.uniform() < .5:
            spoil(out)                               # results are the caller's own
            case.count("results_overwritten")
        case.count("queries")
    same(case, m, was, "a fitted model is changed by reading it")
    case.check(np.array_equal(X, Xc) and np.array_equal(y, yc) and np.array_equal(Z, Zc), "a query changes the arrays it is given")
    for name in every:
        compare(case, dict(q, **slow)[name](m), want[name], name, y)
    case.seen(was["samples"], asked)
    case.count(kind)


def large(case):
    """Every plot and query once or twice on a fit with more rows, trees and draws than the other parts use."""
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[100, 180, 350])
    if np.abs(X).max() > 1e6:
        X = rng.normal(size=X.shape)
    if np.ptp(y) == 0:
        y = y + rng.normal(size=len(y))
    kw = dict(n_trees=gen.n_trees(rng, [2, 25], 0.), n_chains=int(rng.choice([1, 3])), n_samples=int(rng.choice([5, 70])), n_burn=1, n_jobs=1, store_acceptance_trace=True)
    case.describe(**kw, **d)
    m = gen.est(tree_sampler=gen.real_sampler(.5), **kw).fit(X, y)
    Z = gen.predict_rows(rng, X, int(rng.choice([10, 400])))
    q, slow = queries(m, X, y, Z)
    q = dict(q, get_params=slow["get_params"], proportions=slow["proportions"])
    was = fingerprint(m)
    want = {}
    order = list(q) + plots()
    order = [order[i] for i in rng.permutation(len(order))] * 2
    for f in order:
        state = np.random.get_state()
        if callable(f):
            draw(f, m)
            case.count("plots")
        else:
            out = np.array(q[f](m), dtype=float)
            compare(case, out, want.setdefault(f, out.copy()), f, y)
            case.count("queries")
        still(case, state, f if isinstance(f, str) else f.__name__)
    same(case, m, was, "a fitted model is changed by reading it")
    case.seen(was["samples"])


def buffers(case):
    """One array object is filled with new rows, or new rows arrive where old ones were: every call sees the rows it is given."""
    rng = case.rng
    m, X, y, kind = fitted(case)
    fresh = copy.deepcopy(m)
    batches = []
    n = int(rng.choice([1, 3, len(X)]))
    for _ in range(4):
        Z = gen.predict_rows(rng, X, n)
        if rng.uniform() < .5:
            Z[:] = X[rng.randint(len(X), size=n)]
        if kind in ("residual", "ols"):
            Z = np.clip(Z, -1e6, 1e6)
        batches.append(Z)
    if n > 1:
        batches.append(batches[0][::-1].copy())
        batches.append(batches[0].copy())
        batches[-1][0] = batches[1][0]
    want = [np.array(copy.deepcopy(fresh).predict(Z)) for Z in batches]
    buf = np.empty_like(batches[0])
    frame = pd.DataFrame(buf.copy())
    for _ in range(20):
        i = int(rng.randint(len(batches)))
        how = rng.randint(5)
        if how == 0:
            buf[...] = batches[i]
            got = m.predict(buf)
        elif how == 1:
            frame.iloc[:, :] = batches[i]
            got = m.predict(frame)
        elif how == 2:                               # columns replaced one by one
            for j in rng.permutation(frame.shape[1]):
                frame[j] = batches[i][:, j]
            got = m.predict(frame)
        elif how == 3:                               # single cells
            for r in range(len(frame)):
                frame.iloc[r] = batches[i][r]
            got = m.predict(frame)
        else:
            got = m.predict(batches[i].copy())       # freed at once: the next one may live at the same address
        case.close(got, want[i], "a prediction is not that of the rows given", rtol=1e-11, atol=1e-12 * float(np.abs(y).max() + np.abs(want[i]).max()), how=int(how))
        case.count("reused_buffers")
    case.check(not frame.attrs and list(frame.columns) == list(range(X.shape[1])), "predicting leaves marks on the caller's frame")
    case.seen(shapes(m), [b.tobytes() for b in batches])


def threads(case):
    """Queries from several threads at once, switching every microsecond."""
    rng = case.rng
    m, X, y, kind = fitted(case)
    Z = gen.predict_rows(rng, X, 8)
    if kind in ("residual", "ols"):
        Z = np.clip(Z, -1e6, 1e6)
    q, _ = queries(m, X, y, Z)
    was, want = fingerprint(m), answers(m, q)
    n = int(rng.choice([2, 4, 6]))
    plan = [[list(q)[j] for j in rng.randint(len(q), size=12)] for _ in range(n)]
    start, log, errors = threading.Barrier(n), [], []

    def work(i):
        try:
            start.wait()
            for name in plan[i]:
                out = np.array(q[name](m), dtype=float)
                log.append((i, name, out))
        except Exception as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    for i, name, out in log:
        compare(case, out, want[name], name, y, thread=i)
    case.equal(len(log), 12 * n, "internal: queries lost")
    same(case, m, was, "a fitted model is changed by reading it from several threads")
    case.count("threaded_queries", len(log))
    case.count("switches", sum(a[0] != b[0] for a, b in zip(log, log[1:])))
    case.seen([i for i, _, _ in log], plan)


def selection(case):
    """Reading a feature selection: thresholds, kept features, partitions and plots leave proportions and null distributions as they are."""
    from matplotlib import pyplot as plt
    from bartpy.diagnostics import features as f
    from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
    rng = case.rng
    k, n = int(rng.choice([1, 2, 5, 12])), int(rng.choice([1, 3, 10, 40]))
    frozen = lambda o: [(a, list(b) if isinstance(b, list) else b) for a, b in o.items()]
    selector = None
    if case.index % 4 == 0:
        X, y, d = gen.splittable_dataset(rng, sizes=[10, 30])
        k = X.shape[1]
        model = gen.est(n_trees=int(rng.choice([2, 8])), n_chains=1, n_burn=1, n_samples=4, n_jobs=1, tree_sampler=gen.forcing_sampler(.6))
        selector = SelectNullDistributionThreshold(model, percentile=float(rng.choice([.2, .5, .95])), method=str(rng.choice(["local", "global"])), n_permutations=3).fit(X, y)
        null, proportions = selector.null_distribution, selector.feature_proportions
        case.count("selectors")
    else:
        null = {j: [float(v) for v in rng.dirichlet(np.ones(n))[:n]] for j in range(k)}
        keys = list(null)
        if rng.uniform() < .3:
            rng.shuffle(keys)
        proportions = {j: float(v) for j, v in zip(keys, rng.dirichlet(np.ones(k)))}
    order = frozen(null), frozen(proportions)
    case.describe(features=k, permutations=len(next(iter(null.values()))), selector=selector is not None)
    percentiles = [0., .3, .5, .95, 1.]
    th = {(g, p): {"local": f.local_thresholds, "global": f.global_thresholds}[g](copy.deepcopy(null), p) for g in ("local", "global") for p in percentiles}
    answers = {key: [frozen(t), f.kept_features(dict(proportions), dict(t)), [bool(b) for b in f.is_kept(dict(proportions), dict(t))],
                     [frozen(x) for x in f.partition_into_passed_and_failed_features(dict(proportions), dict(t))]] for key, t in th.items()}
    if selector is not None:
        support, thresholds = selector.get_support().tolist(), frozen(selector.thresholds)
        fresh = selector.transform(X)
    seq = []
    for _ in range(30):
        g, p = ["local", "global"][int(rng.randint(2))], percentiles[int(rng.randint(5))]
        t = th[g, p]
        q = int(rng.randint(6 if rng.uniform() < .8 or k == 1 else 8))
        seq.append((q, g, p))
        if q == 0:
            case.equal(frozen({"local": f.local_thresholds, "global": f.global_thresholds}[g](null, p)), answers[g, p][0], "thresholds depend on the queries made before")
        elif q == 1:
            case.equal(f.kept_features(proportions, t), answers[g, p][1], "the kept features depend on the queries made before")
        elif q == 2:
            case.equal([bool(b) for b in f.is_kept(proportions, t)], answers[g, p][2], "the kept features depend on the queries made before")
        elif q == 3:
            case.equal([frozen(x) for x in f.partition_into_passed_and_failed_features(proportions, t)], answers[g, p][3], "the partition depends on the queries made before")
        elif selector is not None and q < 6:
            case.equal(selector.get_support().tolist(), support, "the support depends on the queries made before")
            case.check(np.array_equal(selector.transform(X), fresh), "the selected columns depend on the queries made before")
            case.equal(frozen(selector.thresholds), thresholds, "reading a selector changes its thresholds")
        elif q >= 6:
            plt.close("all")
            (f.plot_null_feature_importance_distributions(null) if q == 6 else f.plot_feature_proportions_against_thresholds(proportions, t))
            plt.close("all")
            case.count("plots")
        case.equal((frozen(null), frozen(proportions)), order, "reading a feature selection changes it", after=(q, g, p))
        case.equal(frozen(t), answers[g, p][0], "reading a feature selection changes its thresholds", after=(q, g, p))
        case.count("queries")
    case.seen(seq)


def parts():
    return [Part("sequences", sequences, 84, 900, needs=("queries", "plots", "results_overwritten", "read_only_inputs", "plain", "residual", "ols", "batch", "pickled")),
            Part("selection", selection, 40, 400, needs=("queries", "plots", "selectors")),
            Part("large", large, 8, 80, needs=("queries", "plots")),
            Part("buffers", buffers, 56, 500, needs=("reused_buffers",)),
            Part("threads", threads, 42, 400, needs=("threaded_queries", "switches"))]
