"""C18: fits do not leak into the caller's data, other models or later fits."""
from copy import deepcopy

import numpy as np
import pandas as pd

from vf import gen, oracle
from vf.core import Part, digest

RULE = ("one case = one fit surrounded by other activity in the process (other fits, samplers stepped by hand, failed fits, copies, predictions); caller arrays are fingerprinted, "
        "and the fit is repeated from the same seed after a different history; a state is a distinct (data set, history)")
ASSUMPTIONS = ["reproducibility is claimed for sequential fits (n_jobs=1)"]


def results(m, Z):
    return digest([[oracle.tree_shape(t) for t in s.trees] + [float(s.sigma.current_value())] for s in m.model_samples], np.asarray(m.predict(Z)))


def small(rng):
    X, y, d = gen.dataset(rng, sizes=[2, 4, 10, 25])
    return X, y


def other(rng, X, y):
    """Another data set, often of the same shape or sharing rows or targets with the first."""
    u = rng.randint(9)
    if u == 0:
        return X.copy(), y * 3. - 2.
    if u == 6 and len(y) > 2:                  # alike at both ends, different inside
        X2, y2 = X.copy(), y.copy()
        X2[1:-1] = X2[1:-1][rng.permutation(len(y) - 2)] + rng.normal(size=(len(y) - 2, X.shape[1]))
        y2[1:-1] = y2[1:-1][rng.permutation(len(y) - 2)]
        return X2, y2
    if u == 7:                                 # one cell, one target
        X2, y2 = X.copy(), y.copy()
        X2[rng.randint(len(y)), rng.randint(X.shape[1])] += 1.
        y2[rng.randint(len(y))] += .25
        return X2, y2
    if u == 8:                                 # the same values column by column
        return np.stack([c[rng.permutation(len(y))] for c in X.T], 1), y[rng.permutation(len(y))]
    if u == 1:
        return X[rng.permutation(len(X))], y.copy()
    if u == 2:
        return rng.normal(size=X.shape), y.copy()
    if u == 3:
        return rng.normal(size=X.shape), rng.normal(size=len(y))
    return small(rng)


def disturb(case, keep, like=None):
    """Arbitrary other use of the library in this process, sometimes on data resembling `like`."""
    rng = case.rng
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.sigma import SigmaSampler
    from bartpy.trace import TraceLogger
    names = []
    for _ in range(int(rng.randint(1, 5))):
        u = int(rng.randint(10))
        X, y = other(rng, *like) if like is not None and rng.uniform() < .5 else small(rng)
        if u in (0, 1):
            m = gen.est(n_trees=gen.n_trees(rng, [1, 3]), n_samples=int(rng.choice([1, 5, 9])), n_chains=int(rng.choice([1, 2])))
            m.fit(X, y)
            keep.append(m)
        elif u == 2:
            model = gen.make_model(rng, X, y)
            ms = gen.model_sampler(gen.real_sampler(0.5))
            for _ in range(int(rng.randint(1, 6))):
                ms.step(model, TraceLogger())
        elif u == 3:
            model = gen.make_model(rng, X, y, n_trees=1)
            for _ in range(int(rng.randint(1, 40))):
                LeafNodeSampler().step(model, model.trees[0].leaf_nodes[0])
                SigmaSampler().step(model, model.sigma)
        elif u == 4:
            for _ in range(int(rng.randint(1, 40))):
                gen.real_sampler(0.5).step(gen.make_model(rng, X, y, n_trees=1), gen.single_tree(X, y))
        elif u == 5:
            try:
                gen.est().fit(np.zeros((0, 2)), np.zeros(0))
            except Exception:
                pass
        elif u == 6 and keep:
            deepcopy(keep[-1]).fit(X, y)
        elif u == 7 and keep:
            keep[rng.randint(len(keep))].fit(X, y)
        elif u == 8:
            from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
            gen.est(initializer=SklearnTreeInitializer()).fit(np.clip(X, -1e6, 1e6), y)
        elif u == 9:
            np.random.seed(int(rng.randint(1000)))
            np.random.normal(size=int(rng.randint(50)))
        names.append(u)
    case.count("disturbances", len(names))
    return names


def args(rng):
    return dict(n_trees=gen.n_trees(rng, [1, 2, 5]), n_samples=int(rng.choice([2, 6])), n_chains=int(rng.choice([1, 2, 3])), n_burn=int(rng.choice([0, 3])),
                thin=float(rng.choice([1., .5])))


def reproducible(case):
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[2, 5, 10, 30, 60])
    kw = args(rng)
    if case.index % 10 == 3:
        from vf import work
        X, y, d = work.bushy_data(rng, n=int(rng.choice([300, 1500, 6000])))
        kw.update(n_trees=2, n_samples=3, n_chains=2)
        case.count("large_data")
    keep = []
    seed = int(rng.randint(2 ** 31))
    Z = np.concatenate([X, gen.predict_rows(rng, X, 10)])
    h = []
    shared = gen.real_sampler(gen.p_grow(rng)) if rng.uniform() < 0.4 else None
    if shared is not None:
        kw["tree_sampler"] = shared
    kind = case.index % 4
    if rng.uniform() < 0.5:
        h.append(disturb(case, keep, (X, y)))
    first = gen.est(**kw)
    np.random.seed(seed)
    first.fit(X, y)
    want = results(first, Z)
    h.append(disturb(case, keep, (X, y)))
    if kind == 0:                                   # another estimator with the same settings
        m = gen.est(**kw)
    elif kind == 1:                                 # the same estimator after a fit on other data
        X2, y2 = other(rng, X, y)
        m = first if rng.uniform() < 0.5 else gen.est(**kw).fit(X2, y2)
        if m is first:
            m.fit(X2, y2)
    elif kind == 2:                                 # a copy made before or after fitting
        m = deepcopy(first)
        if rng.uniform() < 0.5:
            m.fit(*other(rng, X, y))
    else:                                           # an estimator first fitted with other settings
        kw2 = args(rng)
        m = gen.est(**kw2).fit(*other(rng, X, y))
        m.set_params(**kw)
        case.count("changed_settings")
    np.random.seed(seed)
    m.fit(X, y)
    case.describe(history=h, kind=["fresh", "refit", "copy", "changed settings"][kind], shared_sampler=shared is not None, **{k: v for k, v in kw.items() if k != "tree_sampler"}, **d)
    case.equal(results(m, Z), want, "the same seed and data do not reproduce the fit after other activity", kind=kind)
    case.close(np.asarray(m.data.X.values), np.asarray(X, float), "a refitted estimator does not describe its new data", rtol=0, atol=0)
    case.close(np.asarray(m.data.y.unnormalized_y), y, "a refitted estimator does not describe its new data", rtol=1e-9, atol=1e-9 * (np.abs(y).max() + 1e-300))
    case.count("repeats")
    case.seen(X, y, h)


def untouched(case):
    """Caller data stay as they are, and changing them later does not change the model."""
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[1, 2, 5, 20, 60])
    if case.index % 16 == 5:
        from vf import work
        X, y, d = work.bushy_data(rng, n=3000)
    kind = case.index % 4
    Xin = [X, pd.DataFrame(X, columns=["c%d" % j for j in range(X.shape[1])]), np.asfortranarray(X), X[::1]][kind]
    yin = y if rng.uniform() < 0.7 else np.round(np.clip(y, -1e6, 1e6)).astype(int)
    kw = args(rng)
    init = None
    if rng.uniform() < 0.3 and np.all(np.abs(X) < 1e30):
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        init = SklearnTreeInitializer()
    m = gen.est(store_in_sample_predictions=True, initializer=init, **kw)
    case.describe(kind=["array", "frame", "fortran", "view"][kind], **kw, **d)
    if rng.uniform() < 0.3 and kind != 1:
        X.flags.writeable = False
        y.flags.writeable = False
        case.count("read_only")
    Z = gen.predict_rows(rng, X, 15)
    dz = digest(Z)
    before = digest(np.asarray(Xin), np.asarray(yin))
    if case.index % 3 == 1:                         # fitted in a batch
        from bartpy.runner import run_models
        m = run_models(m, [Xin], [yin])[0]
        case.count("batch_results")
    else:
        m.fit(Xin, yin)
    p1, p2, r1 = m.predict(Z), m.predict(), m.residuals(Xin)
    m.rmse(Z, np.zeros(len(Z)))
    m.l2_error(Xin, yin)
    if len(X) > 1:
        m.score(Xin, yin)
    case.equal(digest(np.asarray(Xin), np.asarray(yin)), before, "fitting or predicting changed the caller's data")
    case.equal(digest(Z), dz, "predicting changed the caller's rows")
    X.flags.writeable = True
    y.flags.writeable = True
    Zc, Xc, yc = Z.copy(), np.array(X), np.array(yin)
    if kind == 1:
        Xin.iloc[:, :] = 7.
    else:
        np.asarray(Xin)[:] = 7.
    X[:] = 7.
    yin[:] = 3
    Z[:] = -1.
    case.close(m.predict(Zc), p1, "changing the caller's arrays after fitting changed the predictions", rtol=0, atol=0)
    case.close(m.predict(), p2, "changing the caller's arrays after fitting changed the in-sample predictions", rtol=0, atol=0)
    case.close(m.residuals(Xc), r1, "changing the caller's arrays after fitting changed the residuals", rtol=0, atol=0)
    case.close(np.asarray(m.data.X.values), Xc, "changing the caller's arrays after fitting changed the stored covariates", rtol=0, atol=0)
    case.close(np.asarray(m.data.y.unnormalized_y), yc, "changing the caller's arrays after fitting changed the stored target", rtol=1e-9, atol=1e-8 * (np.abs(yc).max() + 1e-300))
    p2 += 1.                                        # nor do returned arrays alias the model
    case.close(m.predict(), p2 - 1., "changing a returned prediction changed the model", rtol=1e-9, atol=1e-9 * (np.abs(p2).max()))
    case.count("caller_checks")
    case.seen(Xc, yc)


def others(case):
    """Fitting one estimator never changes another's results."""
    rng = case.rng
    ms, want = [], []
    shared = gen.real_sampler(0.5)
    for _ in range(3):
        X, y = small(rng)
        kw = args(rng)
        if rng.uniform() < 0.5:
            kw["tree_sampler"] = shared
        m = gen.est(store_in_sample_predictions=True, **kw).fit(X, y)
        Z = np.concatenate([X, gen.predict_rows(rng, X, 8)])
        ms.append((m, Z))
        want.append((results(m, Z), m.predict().copy(), np.asarray(m.data.y.unnormalized_y).copy(), m.get_params()))
        for (o, z), w in zip(ms, want):
            case.equal(results(o, z), w[0], "fitting one estimator changed another's samples")
            case.close(o.predict(), w[1], "fitting one estimator changed another's in-sample predictions", rtol=0, atol=0)
            case.close(np.asarray(o.data.y.unnormalized_y), w[2], "fitting one estimator changed another's data", rtol=0, atol=0)
            p = o.get_params()
            case.check(all(p[k] is w[3][k] or p[k] == w[3][k] for k in p), "fitting one estimator changed another's parameters")
        disturb(case, [])
    for (o, z), w in zip(ms, want):
        case.equal(results(o, z), w[0], "other activity changed an estimator's samples")
    case.count("neighbours")
    case.seen(case.index)


def shared_data(case):
    """Several models built from one Data object: none of them is moved by what happens to the others or to that object."""
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[2, 5, 20, 60, 700] if case.index % 8 else [2500, 6000])
    data = Data(np.array(X, float), np.array(y, float), normalize=True)
    was = digest(np.asarray(data.X.values), np.asarray(data.y.values), np.asarray(data.y.unnormalized_y))
    models = [Model(data, Sigma(1., 1., data.y.normalizing_scale), n_trees=int(rng.choice([1, 2, 4])), initializer=None) for _ in range(3)]
    case.describe(**d)

    def look(m):
        return digest([oracle.tree_shape(t) for t in m.trees], [np.asarray(t.nodes[0].data.y.values) for t in m.trees], np.asarray(m.data.X.values), np.asarray(m.data.y.values),
                      np.asarray(m.data.y.unnormalized_y), np.asarray(m.predict()), np.asarray(m.residuals()), float(m.sigma.current_value()))
    ms = gen.model_sampler(gen.forcing_sampler(.7) if rng.uniform() < .5 else gen.real_sampler(.5))
    for _ in range(6):
        i = int(rng.randint(3))
        others_were = [look(m) for m in models]
        m = models[i]
        what = ["sample", "target", "tree target", "sigma", "sample"][rng.randint(5)]
        if what == "sample":
            ms.step(m, TraceLogger())
        elif what == "target":
            m.data.update_y(rng.normal(size=len(y)))
        elif what == "tree target":
            m.trees[0].update_y(rng.normal(size=len(y)))
        else:
            m.sigma.set_value(float(rng.uniform(.1, 2)))
        for j in range(3):
            if j != i:
                case.equal(look(models[j]), others_were[j], "working with one model changed another built from the same data", step=what)
        case.equal(digest(np.asarray(data.X.values), np.asarray(data.y.values), np.asarray(data.y.unnormalized_y)), was, "working with a model changed the data object it was built from", step=what)
    states = [look(m) for m in models]
    data.update_y(rng.normal(size=len(y)))
    case.equal([look(m) for m in models], states, "changing a data object changed the models built from it")
    case.count("shared_data_steps", 6)
    case.seen(X, y)


def parts():
    return [Part("reproducible", reproducible, 160, 2000, needs=("repeats", "disturbances", "changed_settings", "large_data")),
            Part("untouched", untouched, 80, 1000, needs=("caller_checks", "read_only", "batch_results")),
            Part("others", others, 40, 400, needs=("neighbours",)),
            Part("shared_data", shared_data, 48, 400, needs=("shared_data_steps",))]
