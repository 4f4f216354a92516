"""C17: only the ordering of covariate values matters."""
import numpy as np

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one data set fitted twice from the same seed, once with some columns replaced by a strictly increasing transform of themselves and/or with constant columns "
        "inserted; in-sample predictions, sigmas, leaf memberships and predictions for rows of observed values are compared; a state is a distinct (data set, transform)")
ASSUMPTIONS = ["no initializer (the sklearn initializer splits between observed values)", "transforms are strictly increasing on the float values used"]


def transform(rng, c):
    """A strictly increasing map of the distinct values of c; returns the mapped column and the map."""
    u = np.unique(c)
    kind = rng.randint(6)
    if kind == 0:
        v = np.arange(len(u), dtype=float)
    elif kind == 1:
        v = np.cumsum(rng.exponential(size=len(u)) + 1e-3) * 10.0 ** rng.uniform(-6, 6) - float(rng.choice([0., 100.]))
    elif kind == 2:
        v = np.sort(rng.standard_cauchy(size=len(u)))
    elif kind == 3:
        v = u * 4.0 + 0.0
    elif kind == 4:
        v = 2.0 ** np.linspace(-300, 300, len(u)) if len(u) > 1 else np.array([7.])
    else:
        base = float(rng.choice([1., -3., 1e6]))
        v = np.empty(len(u))
        for i in range(len(u)):
            v[i] = base
            base = np.nextafter(base, np.inf)
    if np.any(np.diff(v) <= 0) or not np.all(np.isfinite(v)):
        v = np.arange(len(u), dtype=float) * 3 - 5
    table = dict(zip(u.tolist(), v.tolist()))
    return np.array([table[x] for x in c.tolist()]), table


def membership(sample, X):
    """Row partitions of every tree, as canonical labels."""
    out = []
    for t in sample.trees:
        root = oracle.root_of(t)
        rows = oracle.rows_by_walk(root, X)
        lab = np.full(len(X), -1)
        for k, l in enumerate([n for n in oracle.reachable(root) if oracle.is_leaf(n)]):
            lab[rows[id(l)]] = k
        out.append(lab.tolist())
    return out


def pairs(case):
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[2, 3, 5, 10, 20, 40, 100], targets=["signal", "noise", "strong", "ints"])
    if case.index % 24 == 1:                             # many rows or many columns
        n, p = [(1500, 2), (60, 40), (4000, 1), (300, 8)][int(rng.randint(4))]
        X, names = gen.covariates(rng, n, p)
        y, t = gen.target(rng, X, "signal")
        d = {"n": n, "p": p}
    elif len(X) > 150:
        X, y = X[:150], y[:150]
    n, p = X.shape
    T = X.copy()
    tables = {}
    if case.index % 3 != 2:
        for j in range(p):
            if rng.uniform() < 0.7:
                T[:, j], tables[j] = transform(rng, X[:, j])
    n_const = int(rng.choice([0, 1, 3])) if case.index % 3 == 0 else int(rng.choice([1, 2, 4])) if case.index % 3 == 2 else 0
    order = list(range(p))
    cols = [T[:, j] for j in range(p)]
    for _ in range(n_const):
        k = int(rng.randint(len(cols) + 1))
        cols.insert(k, np.full(n, float(rng.choice([0., 1., -3.5, 1e10]))))
        order.insert(k, -1)
    T = np.stack(cols, axis=1)
    kw = dict(n_trees=gen.n_trees(rng, [1, 2, 5, 12]), n_samples=int(rng.choice([3, 8])), n_chains=int(rng.choice([1, 2])), n_burn=int(rng.choice([0, 4])),
              store_in_sample_predictions=True, alpha=.95, beta=float(rng.choice([2., 1., .3])))
    pg, obl = gen.p_grow(rng), bool(rng.uniform() < 0.15)
    case.describe(transformed=sorted(tables), constants=n_const, oblivious=obl, p_grow=pg, **kw, **d)
    seed = int(rng.randint(2 ** 31))
    fits = []
    for A in (X, T):
        m = gen.est(tree_sampler=gen.real_sampler(pg, obl), **kw)
        np.random.seed(seed)
        m.fit(A, y)
        fits.append(m)
    m1, m2 = fits
    t = 1e-9 * (np.ptp(y) + np.abs(y).max())
    case.close(m2.predict(), m1.predict(), "in-sample predictions depend on more than the order of the covariate values", rtol=1e-9, atol=t)
    P1, P2 = np.asarray(m1.prediction_samples), np.asarray(m2.prediction_samples)
    case.close(P2, P1, "in-sample draws depend on more than the order of the covariate values", rtol=0, atol=1e-9)
    for s1, s2 in zip(m1.model_samples, m2.model_samples):
        case.close(s2.sigma.current_value(), s1.sigma.current_value(), "sigma depends on more than the order of the covariate values", rtol=1e-9, atol=0)
        case.equal(membership(s2, T), membership(s1, X), "leaf memberships depend on more than the order of the covariate values")
        if n_const:
            used = {int(v) for tr in s2.trees for v in variables(oracle.tree_shape(tr))}
            case.check(all(order[v] >= 0 for v in used), "a constant column is split on")
    idx = rng.randint(n, size=(30, p))
    Z = X[idx, np.arange(p)]
    cols = []
    for j, o in enumerate(order):
        if o < 0:
            cols.append(np.full(len(Z), T[0, j]))
        else:
            cols.append(np.array([tables[o][v] for v in Z[:, o].tolist()]) if o in tables else Z[:, o])
    case.close(m2.predict(np.stack(cols, axis=1)), m1.predict(Z), "predictions for rows of observed values depend on more than the order of the covariate values", rtol=1e-9, atol=t)
    case.count("pairs")
    if tables:
        case.count("transformed_pairs")
    if n_const:
        case.count("constant_column_pairs")
    case.seen(X, T)


def variables(s):
    return [] if s[0] == "L" else [s[1]] + variables(s[4]) + variables(s[5])


def parts():
    return [Part("pairs", pairs, 240, 3000, needs=("transformed_pairs", "constant_column_pairs"))]
