"""Workload generators: data sets, model specifications, mutation histories.

Everything is driven by the case's RandomState; numpy's global generator belongs to the code under test.
"""
from copy import deepcopy
from operator import gt, le

import numpy as np

COLUMNS = ["normal", "uniform", "ints", "binary", "constant", "dup", "first_outlier", "last_outlier", "adjacent", "huge_offset",
           "huge", "tiny", "sorted", "reversed", "heavy", "few_dups", "negzero", "minmax_ties", "negative", "mid_outlier",
           "mostly_max", "mostly_min"]


def column(rng, n, kind, others=()):
    if kind == "normal":
        return rng.normal(size=n)
    if kind == "uniform":
        return rng.uniform(-3, 3, size=n)
    if kind == "ints":
        return rng.randint(0, rng.randint(2, 8), size=n).astype(float)
    if kind == "binary":
        return (rng.uniform(size=n) < rng.choice([0.1, 0.5, 0.9])).astype(float)
    if kind == "constant":
        return np.full(n, rng.choice([0., 1., -2.5, 1e9, 1e-9]))
    if kind == "dup":
        return others[rng.randint(len(others))].copy() if len(others) else rng.normal(size=n)
    if kind in ("first_outlier", "last_outlier", "mid_outlier"):
        c = np.full(n, rng.choice([0., 1., 3.5, -1.]))
        i = {"first_outlier": 0, "last_outlier": n - 1, "mid_outlier": n // 2}[kind]
        c[i] += rng.choice([-1., 1.])
        return c
    if kind == "adjacent":
        base = rng.choice([1., -1., 1e6, 0.1, 0.])
        c = np.full(n, base)
        c[rng.uniform(size=n) < 0.5] = np.nextafter(base, np.inf)
        c[rng.uniform(size=n) < 0.2] = np.nextafter(np.nextafter(base, np.inf), np.inf)
        return c
    if kind == "huge_offset":
        return 1e12 + rng.randint(0, 50, size=n).astype(float)
    if kind == "huge":
        return rng.normal(size=n) * 1e200
    if kind == "tiny":
        return rng.normal(size=n) * 1e-200
    if kind == "sorted":
        return np.sort(rng.normal(size=n))
    if kind == "reversed":
        return np.sort(rng.normal(size=n))[::-1].copy()
    if kind == "heavy":
        return rng.standard_cauchy(size=n)
    if kind == "few_dups":
        c = rng.normal(size=n)
        if n > 1:
            i, j = rng.choice(n, 2, replace=False)
            c[i] = c[j]
        return c
    if kind == "negzero":
        return rng.choice([0., -0., 1., -1.], size=n)
    if kind == "minmax_ties":
        c = rng.normal(size=n)
        c[rng.uniform(size=n) < 0.3] = c.max()
        c[rng.uniform(size=n) < 0.3] = c.min()
        return c
    if kind == "negative":
        return -np.exp(rng.normal(size=n) * 3)
    if kind in ("mostly_max", "mostly_min"):                # one extreme value in most rows, a few others that repeat
        m = int(rng.randint(2, 5))
        p = rng.dirichlet(np.ones(m)) * .5 + .5 / m
        c = np.where(rng.uniform(size=n) < rng.uniform(.6, .95), float(m), rng.choice(m, size=n, p=p).astype(float))
        return c if kind == "mostly_max" else -c
    raise ValueError(kind)


def covariates(rng, n, p, kinds=None):
    pool = list(kinds or COLUMNS)
    cols, names = [], []
    for _ in range(p):
        k = pool[rng.randint(len(pool))]
        names.append(k)
        cols.append(column(rng, n, k, cols))
    X = np.ascontiguousarray(np.stack(cols, axis=1)) if p else np.zeros((n, 0))
    if n > 2 and rng.uniform() < 0.25:                      # duplicated rows
        for _ in range(rng.randint(1, max(2, n // 3))):
            X[rng.randint(n)] = X[rng.randint(n)]
    if rng.uniform() < 0.2:
        X = np.asfortranarray(X)
    return X, names


def signal(X):
    """A bounded, finite function of the covariates, by rank."""
    n, p = X.shape
    r = np.argsort(np.argsort(X[:, 0], kind="stable"), kind="stable") / max(n - 1, 1)
    s = np.where(r > 0.5, 1.0, -1.0) + r
    if p > 1:
        q = np.argsort(np.argsort(X[:, 1], kind="stable"), kind="stable") / max(n - 1, 1)
        s = s + np.where(q > 0.7, 1.0, 0.)
    return s


TARGETS = ["signal", "noise", "strong", "constant", "binary", "ints", "outlier", "offset", "tiny_scale", "huge_scale", "neg"]


def target(rng, X, kind=None):
    n = len(X)
    kind = kind or TARGETS[rng.randint(len(TARGETS))]
    if kind == "signal":
        y = signal(X) + 0.5 * rng.normal(size=n)
    elif kind == "noise":
        y = rng.normal(size=n)
    elif kind == "strong":
        y = 5 * signal(X) + 0.05 * rng.normal(size=n)
    elif kind == "constant":
        y = np.full(n, rng.choice([0., 1., -3.25, 1e6]))
    elif kind == "binary":
        y = (rng.uniform(size=n) < 0.5).astype(float)
    elif kind == "ints":
        y = rng.randint(-5, 6, size=n).astype(float)
    elif kind == "outlier":
        y = rng.normal(size=n)
        y[rng.randint(n)] += 100.
    elif kind == "offset":
        y = 1e6 + signal(X) + rng.normal(size=n)
    elif kind == "tiny_scale":
        y = 1e-8 * (signal(X) + rng.normal(size=n))
    elif kind == "huge_scale":
        y = 1e8 * (signal(X) + rng.normal(size=n))
    elif kind == "neg":
        y = -np.exp(rng.normal(size=n)) - 3
    else:
        raise ValueError(kind)
    return y, kind


SIZES = [1, 2, 3, 4, 5, 7, 10, 15, 20, 30, 40, 60, 100]


def dataset(rng, sizes=None, pmax=6, kinds=None, targets=None, big=0.04):
    """(X, y, description)"""
    n = int((sizes or SIZES)[rng.randint(len(sizes or SIZES))])
    p = int(rng.randint(1, pmax + 1))
    if sizes is None and rng.uniform() < big:
        n = int(rng.choice([300, 1000, 2500]))
    if kinds is None and rng.uniform() < 0.04:
        p = int(rng.choice([20, 60, 130, 260], p=[.4, .3, .2, .1]))
        n = min(n, 100)
    X, names = covariates(rng, n, p, kinds)
    y, t = target(rng, X, None if targets is None else targets[rng.randint(len(targets))])
    return X, y, {"n": n, "p": p, "columns": names[:12], "target": t}


def usable(X):
    """True if some column varies, i.e. the root can be split."""
    return any(len(np.unique(X[:, j])) > 1 for j in range(X.shape[1]))


def splittable_dataset(rng, **kw):
    while True:
        X, y, d = dataset(rng, **kw)
        if len(X) > 1 and usable(X):
            return X, y, d


def hyper(rng):
    return {"alpha": float(rng.choice([0.95, 0.5, 0.99, 0.2, rng.uniform(0.05, 0.999)])),
            "beta": float(rng.choice([2., 1., 0.5, 0., 3., rng.uniform(0, 4)])),
            "k": float(rng.choice([2., 1., 3., 0.5, rng.uniform(0.3, 5)]))}


def p_grow(rng):
    return float(rng.choice([0.5, 0.5, 0.7, 0.3, 0.9, 0.1, 0.6]))


# ---- bartpy objects -------------------------------------------------------------------------------

def make_data(X, y, normalize=True):
    from bartpy.data import Data
    return Data(np.array(X, dtype=float), np.array(y, dtype=float), normalize=normalize)


AMBIENT = {}


def set_ambient(seed):
    """Settings a case does not choose itself: the defaults for half of the cases, anything for the others; the same all through a case."""
    AMBIENT.clear()
    rng = np.random.RandomState(seed ^ 0x5A5A5A)
    if rng.uniform() < .5:
        return
    for k, v in (("alpha", float(rng.choice([.2, .35, .6, .99]))), ("beta", float(rng.choice([0., .25, 1., 3.]))),
                 ("sigma_a", float(rng.choice([.5, 1.5, 6.]))), ("sigma_b", float(rng.choice([1e-4, .3, 2.])))):
        if rng.uniform() < .6:
            AMBIENT[k] = v


def make_model(rng, X, y, n_trees=None, normalize=True, initializer=None, **hp):
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    data = make_data(X, y, normalize)
    scale = data.y.normalizing_scale if normalize else 1.0
    hp = dict(AMBIENT, **hp)
    sigma = Sigma(hp.pop("sigma_a", 0.001), hp.pop("sigma_b", 0.001), scale)
    if n_trees is None:
        n_trees = int(rng.choice([1, 2, 3, 5, 10]))
    return Model(data, sigma, n_trees=n_trees, initializer=initializer, **hp)


def single_tree(X, y):
    from bartpy.node import LeafNode
    from bartpy.split import Split
    from bartpy.tree import Tree
    return Tree([LeafNode(Split(make_data(X, y, normalize=False)))])


def conditions(variable, value):
    from bartpy.splitcondition import SplitCondition
    return SplitCondition(variable, value, le), SplitCondition(variable, value, gt)


def grow_at(tree, leaf, variable, value, conds=None):
    """Apply one specific grow through the public construction path."""
    from bartpy.mutation import GrowMutation
    from bartpy.node import split_node
    from bartpy.tree import mutate
    dec = split_node(leaf, conds or conditions(variable, value))
    mutate(tree, GrowMutation(leaf, dec))
    return dec


def prune_at(tree, dec):
    from bartpy.mutation import PruneMutation
    from bartpy.node import LeafNode
    from bartpy.tree import mutate
    new = LeafNode(dec.split, depth=dec.depth)
    mutate(tree, PruneMutation(dec, new))
    return new


def proposer(pg=0.5):
    from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
    return UniformMutationProposer() if pg == .5 else UniformMutationProposer([pg, 1 - pg])


def oblivious_proposer(pg=0.5):
    from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer
    return UniformMutationProposer() if pg == .5 else UniformMutationProposer(pg, 1 - pg)


class AlwaysAccept:
    """A likelihood-ratio stub that accepts every proposal: drives long mutation histories."""

    def __init__(self, log_ratio=np.inf):
        self.log_ratio = log_ratio
        self.calls = 0

    def log_probability_ratio(self, model, tree, mutation):
        self.calls += 1
        return self.log_ratio


def forcing_sampler(pg=0.7, oblivious=False):
    """The real tree sampler with an accept-everything ratio."""
    if oblivious:
        from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
        return UnconstrainedTreeMutationSampler(oblivious_proposer(pg), AlwaysAccept())
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    return UnconstrainedTreeMutationSampler(proposer(pg), AlwaysAccept())


def real_sampler(pg=0.5, oblivious=False):
    if oblivious:
        from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    else:
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    return get_tree_sampler(pg, 1 - pg)


def schedule(tree_sampler, leaf_sampler=None, sigma_sampler=None):
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.schedule import SampleSchedule
    from bartpy.samplers.sigma import SigmaSampler
    return SampleSchedule(tree_sampler, leaf_sampler or LeafNodeSampler(), sigma_sampler or SigmaSampler())


def model_sampler(tree_sampler, leaf_sampler=None, sigma_sampler=None, **kw):
    from bartpy.samplers.modelsampler import ModelSampler
    return ModelSampler(schedule(tree_sampler, leaf_sampler, sigma_sampler), **kw)


class TreeSamplerWrapper:
    """Base of the monitoring tree samplers: forwards everything to the real sampler."""

    def __init__(self, inner):
        self.inner = inner

    def sample(self, model, tree):
        return self.inner.sample(model, tree)

    def step(self, model, tree):
        return self.inner.step(model, tree)


def n_trees(rng, usual, often=.06):
    """A number of trees: mostly a few, sometimes as many as are used in practice."""
    k = int(rng.choice(usual))
    return int(rng.choice([55, 101, 205])) if rng.uniform() < often else k


def est(**kw):
    from bartpy.sklearnmodel import SklearnModel
    d = dict(n_trees=3, n_chains=1, n_samples=6, n_burn=2, thin=1., n_jobs=1)
    d.update(AMBIENT)
    d.update(kw)
    return SklearnModel(**d)


def predict_rows(rng, X, m):
    """Unseen rows that mix the training values with new and extreme ones."""
    n, p = X.shape
    Z = np.empty((m, p))
    for j in range(p):
        c = X[rng.randint(n, size=m), j]
        u = rng.uniform(size=m)
        span = max(float(np.ptp(X[:, j])), 1e-6) if np.isfinite(np.ptp(X[:, j])) else 1.0
        c = np.where(u < 0.15, c + rng.normal(size=m) * span, c)
        c = np.where((u > 0.15) & (u < 0.25), np.nextafter(c, np.inf), c)
        c = np.where((u > 0.25) & (u < 0.35), np.nextafter(c, -np.inf), c)
        c = np.where(u > 0.95, rng.choice([-1e300, 1e300, 0., -1e9, 1e9], size=m), c)
        Z[:, j] = c
    return Z
