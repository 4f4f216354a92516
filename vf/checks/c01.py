"""C01: every tree partitions the covariate space."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one data set, hyperparameters and mutation regime (real sampler, accept-everything sampler, oblivious sampler, "
        "direct mutations, deep paths, sklearn initialisation, stored copies); a state is a tree structure with at least one split, "
        "counted once per distinct structure, evaluated on training rows, unseen rows, rows on and next to every threshold and far-out rows")
ASSUMPTIONS = ["covariates are finite (no NaN or infinities)"]


def eval_rows(rng, X, root, m=25):
    Z = [X if len(X) <= 300 else X[rng.choice(len(X), 300, replace=False)], gen.predict_rows(rng, X, m)]
    decs = [n for n in oracle.reachable(root) if not oracle.is_leaf(n)]
    if len(decs) > 25:
        decs = [decs[i] for i in rng.choice(len(decs), 25, replace=False)]
    for n in decs:
        v, t = oracle.rule(n)
        base = X[rng.randint(len(X), size=3)].copy()
        base[0, v], base[1, v], base[2, v] = t, np.nextafter(t, np.inf), np.nextafter(t, -np.inf)
        Z.append(base)
    Z.append(np.full((1, X.shape[1]), -1e305))
    Z.append(np.full((1, X.shape[1]), 1e305))
    return np.concatenate(Z)


def check_partition(case, tree, X, live, Z=None):
    root = oracle.root_of(tree)
    Z = eval_rows(case.rng, X, root) if Z is None else Z
    leaves = list(tree.leaf_nodes)
    M = np.array([np.asarray(l.split.condition(Z)) for l in leaves])
    case.check(M.shape == (len(leaves), len(Z)) and M.dtype == bool, "a leaf's membership is not one boolean per row")
    hits = M.sum(axis=0)
    if not np.all(hits == 1):
        i = int(np.argmax(hits != 1))
        case.check(False, "a row falls into %d leaves instead of exactly one" % hits[i], row=Z[i], tree=oracle.tree_shape(tree))
    case.count("oracle_evaluations")
    walk = oracle.rows_by_walk(root, np.asarray(Z, dtype=float))
    for l, m in zip(leaves, M):
        case.equal(m, walk.get(id(l)), "rows of a leaf differ from following the thresholds (<= goes left)", tree=oracle.tree_shape(tree))
    case.close(tree.predict(Z), oracle.tree_predict(tree, np.asarray(Z, dtype=float)), "out-of-sample prediction is not the value of the row's leaf", rtol=0, atol=0)
    if live:
        for l in leaves:
            case.equal(np.asarray(l.split.condition()), np.asarray(l.split.condition(X)),
                       "the leaf recorded as holding a training row is not the one its conditions select")
        total = np.sum([np.asarray(l.split.condition()) for l in leaves], axis=0)
        case.check(np.all(total == 1), "a training row is not recorded in exactly one leaf")
    if Z.dtype == float and case.rng.uniform() < .15:
        # the same rows as integers or booleans
        K = [np.round, np.floor, np.ceil][case.rng.randint(3)](np.clip(Z, -1e9, 1e9))
        K = K > 0 if case.rng.uniform() < .2 else K.astype([np.int64, np.int32][case.rng.randint(2)])
        case.count("integer_rows", len(K))
        check_partition(case, tree, X, False, K)
        return
    s = oracle.tree_shape(tree)
    if s[0] == "D":
        case.seen(oracle.structure(s))
        case.count("split_trees")
    case.count("rows_evaluated", len(Z))


def live(case):
    every = [0]

    def cb(tree, X, stage, model):
        every[0] += 1
        if stage == "rejected" and case.rng.uniform() < 0.8:
            return
        if len(X) > 200 and case.rng.uniform() < 0.5:
            return
        check_partition(case, tree, X, True)
        if case.rng.uniform() < 0.2:
            from bartpy.tree import deep_copy_tree
            case.count("stored_trees")
            check_partition(case, deep_copy_tree(tree), X, False)
    work.drive(case, cb)


def chains(case):
    """Trees stored by a complete fit through the public estimator."""
    rng = case.rng
    X, y, d = gen.dataset(rng)
    if len(X) > 200:
        X, y = X[:200], y[:200]
    kw = dict(n_trees=gen.n_trees(rng, [1, 2, 5, 20]), n_samples=int(rng.choice([3, 10])), n_burn=int(rng.choice([0, 3, 10])),
              thin=float(rng.choice([1., .5, .2])), alpha=float(rng.choice([.95, .99])), beta=float(rng.choice([2., .5, 0.])),
              tree_sampler=gen.real_sampler(gen.p_grow(rng), oblivious=rng.uniform() < 0.25))
    if rng.uniform() < 0.3 and np.all(np.abs(X) < 1e30):
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        kw["initializer"] = SklearnTreeInitializer()
    case.describe(**d, **{k: v for k, v in kw.items() if k not in ("tree_sampler", "initializer")})
    m = gen.est(**kw)
    m.fit(X, y)
    Xf = np.asarray(X, float)
    for s in list(m.model_samples)[:4]:
        for t in list(s.trees)[:5]:
            case.count("stored_trees")
            check_partition(case, t, Xf, False)


def large(case):
    """Thousands of rows, as training data or evaluated at once."""
    rng = case.rng
    n = int(rng.choice([60, 600, 3000, 5000]))
    X, names = gen.covariates(rng, n, int(rng.randint(1, 5)), ["normal", "ints", "uniform", "heavy", "few_dups", "sorted", "huge_offset"])
    y = rng.normal(size=n)
    tree = gen.single_tree(X, y)
    work.direct_history(case, tree, X, lambda *a: None, steps=int(rng.choice([3, 8, 15])))
    m = int(rng.choice([1025, 4097, 9001, 20003, 66001]))
    case.describe(rows=n, evaluated=m, columns=names)
    Z = X[rng.randint(n, size=m)] + rng.choice([0., 0., 1e-3, -.5], size=(m, 1))
    check_partition(case, tree, X, True, np.asfortranarray(Z) if rng.uniform() < 0.3 else Z)
    check_partition(case, tree, X, True)
    case.count("large_evaluations")


def bushy(case):
    """Trees with dozens to hundreds of leaves."""
    def cb(tree, X, stage, model):
        check_partition(case, tree, X, True)
    tree, X = work.bushy(case, cb, every=20)
    from bartpy.tree import deep_copy_tree
    check_partition(case, deep_copy_tree(tree), X, False)
    case.count("bushy_trees")


def few_rows(case):
    """Batches of one row and a few rows, the same as large ones."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[2, 3, 5, 10, 20, 40])
    tree = gen.single_tree(X, y)
    work.direct_history(case, tree, X, lambda *a: None, steps=int(rng.choice([2, 6, 15])))
    case.describe(**d)
    Z = eval_rows(rng, X, oracle.root_of(tree))
    for i in rng.permutation(len(Z))[:12]:
        check_partition(case, tree, X, False, Z[i:i + 1])
        case.count("single_rows")
    for m in (2, 3, X.shape[1], len(tree.leaf_nodes), len(X)):
        check_partition(case, tree, X, False, Z[rng.randint(len(Z), size=m)])
    check_partition(case, tree, X, True)


def redundant(case):
    """Hand-built trees whose nested thresholds repeat, relax or lie outside earlier ones: some leaves hold no training row, every row still has one leaf."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[2, 5, 10, 40], big=0)
    tree = gen.single_tree(X, y)
    p = X.shape[1]
    pool = [np.unique(np.concatenate([X[:, j], [X[:, j].min() - 1, X[:, j].max() + 1], rng.choice(X[:, j], 3) + .25])) for j in range(p)]
    cols = rng.randint(p, size=int(rng.randint(1, 3)))
    for _ in range(int(rng.choice([2, 4, 8, 14]))):
        leaves = list(tree.leaf_nodes)
        j = int(cols[rng.randint(len(cols))])
        gen.grow_at(tree, leaves[rng.randint(len(leaves))], j, float(pool[j][rng.randint(len(pool[j]))]))
        for l in tree.leaf_nodes:
            l.set_value(float(rng.normal()))
        case.count("empty_leaves", sum(not np.any(l.split.condition()) for l in tree.leaf_nodes))
        check_partition(case, tree, X, True)
    case.describe(**d)
    from bartpy.tree import deep_copy_tree
    check_partition(case, deep_copy_tree(tree), X, False)


def parts():
    return [Part("large", large, 16, 120, needs=("large_evaluations", "split_trees")),
            Part("live", live, 280, 3500, needs=("split_trees", "stored_trees", "integer_rows")),
            Part("bushy", bushy, 16, 160, needs=("bushy_trees", "split_trees")),
            Part("redundant", redundant, 60, 600, needs=("split_trees", "empty_leaves")),
            Part("few_rows", few_rows, 60, 600, needs=("single_rows",)),
            Part("chains", chains, 80, 1000, needs=("split_trees", "stored_trees"))]
