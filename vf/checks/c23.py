"""C23: the sklearn-tree initializer reproduces the fitted tree exactly."""
import numpy as np
from sklearn.ensemble import GradientBoostingRegressor
from sklearn.tree import DecisionTreeRegressor, ExtraTreeRegressor

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one scikit-learn tree mapped into a tree, or one model (or estimator) initialised tree by tree with every scikit-learn fit recorded; structure, thresholds, leaf values and predictions "
        "are compared with the recorded scikit-learn trees; a state is a distinct fitted tree with at least one split")
ASSUMPTIONS = ["covariates exactly representable as float32, the precision scikit-learn trees compare in"]


class Fits:
    """Records every scikit-learn regression fit made while it is active."""

    def __enter__(self):
        self.log = []
        self.saved = [(c, c.__dict__.get("fit")) for c in (GradientBoostingRegressor, DecisionTreeRegressor)]
        log = self.log
        from sklearn.ensemble._gb import BaseGradientBoosting
        gb, dt = GradientBoostingRegressor.fit, DecisionTreeRegressor.fit

        def gb_fit(self, X, y, *a, **k):
            log.append([np.array(X, dtype=float), np.array(y, dtype=float), self, "gb"])
            return gb(self, X, y, *a, **k)

        def dt_fit(self, X, y, *a, **k):
            log.append([np.array(X, dtype=float), np.array(y, dtype=float), self, "dt"])
            return dt(self, X, y, *a, **k)
        GradientBoostingRegressor.fit, DecisionTreeRegressor.fit = gb_fit, dt_fit
        return self

    def __exit__(self, *a):
        for c, f in self.saved:
            if f is None:
                del c.fit
            else:
                c.fit = f

    def trees(self):
        """(X, y, tree) of the top-level fits."""
        out = [(X, y, e.estimators_[0][0]) for X, y, e, k in self.log if k == "gb"]
        return out or [(X, y, e) for X, y, e, k in self.log if k == "dt"]


def sk_shape(t, i=0, depth=0):
    if t.children_left[i] == -1:
        return ("L", float(t.value[i][0][0]), depth)
    return ("D", int(t.feature[i]), float(t.threshold[i]), depth, sk_shape(t, t.children_left[i], depth + 1), sk_shape(t, t.children_right[i], depth + 1))


def f32(X):
    X = X.astype(np.float32)
    X[~np.isfinite(X)] = 0.
    return X.astype(float)


def data(case, sizes=None, pmax=5):
    rng = case.rng
    while True:
        X, y, d = gen.dataset(rng, sizes=sizes or [1, 2, 3, 5, 10, 30, 60, 200], pmax=pmax,
                              kinds=["normal", "uniform", "ints", "binary", "constant", "dup", "first_outlier", "adjacent", "sorted", "few_dups", "negzero", "minmax_ties", "negative", "huge_offset"],
                              targets=["signal", "noise", "strong", "binary", "ints", "outlier", "constant"])
        X = f32(X)
        if rng.uniform() < .2:                              # columns all over the range of single precision
            X = f32(np.clip(X * 10. ** rng.randint(-36, 37, size=X.shape[1]), -3e38, 3e38))
            case.count("scaled_columns")
        case.describe(**d)
        return X, y


def new_rows(rng, X, sk=None, m=40):
    Z = f32(np.clip(gen.predict_rows(rng, X, m), -3e38, 3e38))
    if sk is not None:
        for i in np.flatnonzero(sk.children_left != -1)[:15]:      # rows at and around each threshold
            v, t = sk.feature[i], np.float32(sk.threshold[i])
            for u in (t, np.nextafter(t, np.float32(np.inf)), np.nextafter(t, np.float32(-np.inf))):
                r = X[rng.randint(len(X))].copy()
                r[v] = float(u)
                Z = np.vstack([Z, r])
    return Z


def check_tree(case, tree, sk, X, Z):
    """tree: the real one; sk: the fitted scikit-learn estimator."""
    want = sk_shape(sk.tree_)
    got = oracle.tree_shape(tree)
    case.equal(got, want, "the mapped tree has other splits, thresholds, leaf values or depths")
    case.close(tree.predict(), sk.predict(X), "the mapped tree predicts training rows differently in sample", rtol=0, atol=0)
    case.close(tree.predict(Z), sk.predict(Z), "the mapped tree predicts new rows differently", rtol=0, atol=0)
    case.close(tree.predict(X), sk.predict(X), "the mapped tree predicts training rows differently", rtol=0, atol=0)
    well_formed(case, tree, X)
    case.count("trees_compared")
    if want[0] == "D":
        case.seen(want)
        case.count("splits_compared", oracle.n_leaves(want) - 1)


def well_formed(case, tree, X):
    root = oracle.root_of(tree)
    reach = oracle.reachable(root)
    case.check(len(reach) == len(tree.nodes) and {id(n) for n in reach} == {id(n) for n in tree.nodes}, "the node list is not the set of nodes reachable from the root")
    rows = oracle.rows_by_walk(root, X)
    for n in reach:
        case.equal(np.asarray(n.split.condition(), dtype=bool), rows[id(n)], "a node does not hold the rows its split conditions select")
        if not oracle.is_leaf(n):
            case.check(n.left_child.depth == n.depth + 1 == n.right_child.depth, "children are not one level deeper")
    case.check(len(tree.leaf_nodes) == sum(oracle.is_leaf(n) for n in reach), "the leaf view is wrong")
    case.check(len(tree.decision_nodes) == sum(not oracle.is_leaf(n) for n in reach), "the decision view is wrong")


def mapped(case):
    """map_sklearn_tree_into_bartpy on regression trees of many shapes."""
    from bartpy.initializers.sklearntreeinitializer import map_sklearn_tree_into_bartpy
    rng = case.rng
    if case.index % 12 == 5:
        from vf import work
        X, y, d = work.bushy_data(rng, n=int(rng.choice([400, 1500, 4000])))
        X = f32(X)
        case.describe(**d)
        case.count("large_data")
    else:
        X, y = data(case)
    if case.index % 12 == 8:                                # hundreds of columns
        X = f32(np.random.RandomState(rng.randint(2 ** 31)).normal(size=(int(rng.choice([20, 60])), int(rng.choice([130, 300, 700])))))
        y = rng.normal(size=len(X)) + 5. * (X[:, rng.randint(X.shape[1])] > 0)
        case.count("wide_data")
    cls = [DecisionTreeRegressor, DecisionTreeRegressor, ExtraTreeRegressor][rng.randint(3)]
    kw = dict(max_depth=[None, 1, 2, 4, 10][rng.randint(5)], min_samples_split=int(rng.choice([2, 2, 5])), min_samples_leaf=int(rng.choice([1, 1, 3])),
              max_leaf_nodes=[None, None, 4, 9][rng.randint(4)], random_state=int(rng.randint(1000)))
    sk = cls(**kw).fit(X, y)
    tree = gen.single_tree(X, y)
    map_sklearn_tree_into_bartpy(tree, sk.tree_)
    check_tree(case, tree, sk, X, new_rows(rng, X, sk.tree_))
    if sk.tree_.node_count == 1:
        case.count("single_leaf_trees")


def init_args(rng):
    return dict(max_depth=int(rng.choice([1, 2, 3, 4, 6])), min_samples_split=int(rng.choice([2, 2, 6])), loss=str(rng.choice(["squared_error", "squared_error", "absolute_error", "huber"])))


def one_tree(case):
    """initialize_tree on a tree with a given target."""
    from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
    rng = case.rng
    X, y = data(case)
    a = init_args(rng)
    case.describe(**a)
    tree = gen.single_tree(X, y)
    if rng.uniform() < .5:
        y = rng.normal(size=len(y))
        tree.update_y(y.copy())
    with Fits() as fits:
        SklearnTreeInitializer(**a).initialize_tree(tree)
    t = fits.trees()
    case.check(len(t) == 1, "initialising a tree does not fit one scikit-learn tree", fits=len(t))
    check_input(case, t[0], X, y, a, fits)
    check_tree(case, tree, t[0][2], X, new_rows(rng, X, t[0][2].tree_))


def check_input(case, t, X, y, a, fits):
    case.close(t[0], X, "the scikit-learn tree is fitted on other covariates", rtol=0, atol=0)
    case.close(t[1], y, "the scikit-learn tree is not fitted on the residual left by the other trees", rtol=1e-9, atol=1e-9)
    case.check(oracle.depth_of(sk_shape(t[2].tree_)) <= a["max_depth"], "the initialised tree is deeper than asked for")
    for e in fits.log:
        if e[3] == "gb":
            case.check(e[2].get_params()["min_samples_split"] == a["min_samples_split"] and e[2].get_params()["loss"] == a["loss"] and e[2].get_params()["max_depth"] == a["max_depth"],
                       "the initializer's settings are not used")


def norm(y):
    r = y.max() - y.min()
    return (y - y.min()) / r - .5 if r > 0 else np.zeros(len(y))


def check_model(case, model, fits, X, y, a, sample_ok=True):
    rng = case.rng
    v = norm(y)
    t = fits.trees()
    case.equal(len(t), len(model.trees), "initialising a model does not fit one scikit-learn tree per tree")
    total = np.zeros(len(X))
    for tree, rec in zip(model.trees, t):
        check_input(case, rec, X, v - total, a, fits)
        check_tree(case, tree, rec[2], X, new_rows(rng, X, rec[2].tree_, 15))
        total = total + rec[2].predict(X)
    case.close(model.predict(), total, "the initialised model's prediction is not the sum of its trees", rtol=0, atol=1e-9)
    case.close(model.residuals(), v - total, "the initialised model's residuals are wrong", rtol=0, atol=1e-9)
    case.count("models_initialised")


def whole_model(case):
    from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
    rng = case.rng
    X, y = data(case, sizes=[1, 2, 5, 20, 60])
    a = init_args(rng)
    n_trees = int(rng.choice([1, 2, 5, 12, 12, 60]) if len(X) < 30 else rng.choice([1, 2, 5, 12]))
    case.describe(n_trees=n_trees, **a)
    with Fits() as fits:
        model = gen.make_model(rng, X, y, n_trees=n_trees, initializer=SklearnTreeInitializer(**a))
    check_model(case, model, fits, X, y, a)
    sample_on(case, model, X, y)


def sample_on(case, model, X, y):
    """Sampling proceeds from the initialised state: targets, structure and predictions stay right."""
    from bartpy.trace import TraceLogger
    from vf.work import Monitor
    rng = case.rng
    v = norm(y)

    def before(m, tree):
        others = np.sum([oracle.tree_predict(t, X) for t in m.trees if t is not tree] + [np.zeros(len(X))], axis=0)
        case.close(np.asarray(oracle.root_of(tree).data.y.values), v - others, "after initialisation a tree is not fitted to the residual of the others", rtol=0, atol=1e-8)

    def after(m, tree, out):
        well_formed(case, tree, X)
        case.count("moves_accepted" if out is not None else "moves_not_accepted")
    pg = float(rng.choice([.5, .2]))
    mon = Monitor(gen.forcing_sampler(pg) if rng.uniform() < .5 else gen.real_sampler(pg), before, after)
    s = gen.model_sampler(mon)
    for _ in range(int(rng.choice([1, 4, 10]))):
        s.step(model, TraceLogger())
        case.close(model.predict(), oracle.model_predict(model, X), "after initialisation the model's prediction is not its trees'", rtol=0, atol=1e-9)
        case.count("sweeps")


def estimator(case):
    """Through the estimator: every chain is initialised; draws without burn-in are well-formed."""
    from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
    rng = case.rng
    X, y = data(case, sizes=[2, 5, 20, 60])
    a = init_args(rng)
    C, T = int(rng.choice([1, 2])), int(rng.choice([1, 3]))
    starts = []

    class Peek(gen.TreeSamplerWrapper):
        def __deepcopy__(self, memo):
            return self

        def step(self, model, tree):
            if not any(m is model for m, _ in starts):
                starts.append((model, [oracle.tree_shape(t) for t in model.trees]))
            return self.inner.step(model, tree)
    m = gen.est(n_trees=T, n_chains=C, n_samples=3, n_burn=0, initializer=SklearnTreeInitializer(**a), tree_sampler=Peek(gen.real_sampler(.5)), store_in_sample_predictions=True)
    with Fits() as fits:
        m.fit(X, y)
    case.equal(len(starts), C, "not one model per chain")
    groups = [[sk_shape(t[2].tree_) for t in fits.trees()[i:i + T]] for i in range(0, len(fits.trees()), T)]
    for _, shapes in starts:
        case.check(shapes in groups, "a chain does not start from trees fitted by scikit-learn for it")
    case.check(len(groups) >= C, "not every chain is initialised")
    for s, p in zip(m.model_samples, m.prediction_samples):
        case.close(p, oracle.model_predict(s, X), "a draw's in-sample prediction is not its own", rtol=0, atol=1e-9)
    case.check(np.all(np.isfinite(m.predict(new_rows(rng, X)))), "predictions are not finite")
    case.count("chains_initialised", C)


def parts():
    return [Part("mapped", mapped, 300, 6000, needs=("trees_compared", "splits_compared", "scaled_columns", "single_leaf_trees", "large_data", "wide_data")),
            Part("one_tree", one_tree, 120, 2000, needs=("trees_compared", "splits_compared")),
            Part("whole_model", whole_model, 100, 1500, needs=("models_initialised", "sweeps", "moves_accepted", "splits_compared")),
            Part("estimator", estimator, 40, 400, needs=("chains_initialised",))]
