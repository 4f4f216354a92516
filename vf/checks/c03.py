"""C03: node statistics equal a recomputation from the node's rows."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one data set and mutation regime; at random quiescent points random statistics of random nodes are queried in random "
        "order (so that caches are filled at different times) and recomputed from the node's rows; a state is a distinct (rows, statistic) pair")
ASSUMPTIONS = ["covariates are finite", "sums are compared up to floating-point rounding"]

QUERIES = ["n", "sum", "splittable", "n_splittable", "any_splittable", "unique", "max", "freq", "column"]


def check_node(case, node, X, y, queries=None):
    rng = case.rng
    rows = np.asarray(node.split.condition())
    Xn = X[rows]
    for q in (queries if queries is not None else [QUERIES[i] for i in rng.permutation(len(QUERIES))[:rng.randint(1, 5)]]):
        cx = node.data.X
        j = int(rng.randint(X.shape[1]))
        if q == "n":
            case.equal(int(cx.n_obsv), int(rows.sum()), "a node's observation count is wrong")
        elif q == "sum":
            case.close(node.data.y.summed_y(), float(np.sum(y[rows])), "a node's target sum is wrong",
                       rtol=1e-9, atol=1e-9 * max(1e-300, float(np.abs(y).sum())))
        elif q == "splittable":
            case.equal(sorted(int(v) for v in cx.splittable_variables()), oracle.splittable_columns(Xn), "a node's splittable columns are wrong")
        elif q == "n_splittable":
            case.equal(int(cx.n_splittable_variables), len(oracle.splittable_columns(Xn)), "a node's number of splittable columns is wrong")
        elif q == "any_splittable":
            case.equal(bool(cx.is_at_least_one_splittable_variable()), len(oracle.splittable_columns(Xn)) > 0,
                       "whether a node can be split is wrong")
        elif q == "unique" and len(Xn):
            case.equal(bool(cx.is_column_unique(j)), len(np.unique(Xn[:, j])) == len(Xn), "whether a node's column has duplicates is wrong")
        elif q == "max" and len(Xn):
            case.equal(float(cx.max_value_of_column(j)), float(Xn[:, j].max()), "a node's column maximum is wrong")
        elif q == "freq" and len(Xn):
            v = Xn[rng.randint(len(Xn)), j]
            case.close(cx.proportion_of_value_in_variable(j, v), float(np.mean(Xn[:, j] == v)), "the frequency of an observed value is wrong",
                       rtol=1e-12, atol=0, n=len(Xn))
        elif q == "column":
            case.equal(np.sort(np.asarray(cx.get_column(j))), np.sort(Xn[:, j]), "a node's column values are wrong")
        else:
            continue
        case.count("statistics")
        case.seen(q, j if q in ("unique", "max", "freq", "column") else -1, rows)


def check_tree(case, tree, X, y, every=None):
    nodes = list(tree.nodes)
    for n in nodes:
        case.equal(np.asarray(n.data.y.values), y, "a node does not see the tree's current target")
        if every or case.rng.uniform() < 0.5 or len(nodes) < 4:
            check_node(case, n, X, y, QUERIES if every else None)


def live(case):
    lazy = case.rng.uniform() < 0.5

    def cb(tree, X, stage, model):
        if case.rng.uniform() < (0.7 if lazy else 0.2):
            return
        if len(X) > 200 and case.rng.uniform() < 0.5:
            return
        y = np.asarray(oracle.root_of(tree).data.y.values)
        check_tree(case, tree, X, y, every=case.rng.uniform() < 0.05)
    model, trees, X = work.drive(case, cb)
    for t in trees:
        if len(t.nodes) < 60:
            check_tree(case, t, X, np.asarray(oracle.root_of(t).data.y.values), every=True)


def new_target(rng, y):
    """A replacement target: all new, or the old one with some entries changed, exchanged, shifted or negated."""
    n = len(y)
    u = rng.randint(7)
    if u == 0 or n < 2:
        return rng.normal(size=n) * 10 ** (rng.uniform(-3, 3) if rng.uniform() < .5 else rng.uniform(-250, 100))
    z = np.array(y, float)
    if u == 1:                                  # a single entry
        z[rng.randint(n)] += rng.choice([1., -3., 1e-3])
    elif u == 2:                                # the interior only
        z[1:-1] = rng.normal(size=n - 2)
    elif u == 3:                                # the same values on other rows
        z = z[rng.permutation(n)]
    elif u == 4:                                # the same total
        i, j = rng.choice(n, 2, replace=False)
        z[i], z[j] = z[i] + 1., z[j] - 1.
    elif u == 5:
        z = -z
    else:                                       # the ends only
        z[0], z[-1] = rng.normal(size=2)
    return z


def targets(case):
    """Targets replaced at random points, before and after the sums of some nodes were asked for."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng)
    if len(X) > 200:
        X, y = X[:200], y[:200]
    case.describe(**d)
    tree = gen.single_tree(X, y)
    state = [np.array(y, float)]
    mine = [False]

    def cb(tree, X, stage, model):
        if stage == "update_y":
            state[0], mine[0] = np.asarray(oracle.root_of(tree).data.y.values), False
        if rng.uniform() < 0.4:
            z = new_target(rng, state[0])
            if mine[0] and rng.uniform() < 0.25:      # the same array object with other contents
                state[0][:] = z
                case.count("targets_in_place")
            else:
                state[0], mine[0] = z, True
            tree.update_y(state[0])
        if rng.uniform() < 0.6:
            check_tree(case, tree, X, state[0])
        case.count("target_updates")
    work.direct_history(case, tree, X, cb, steps=int(rng.choice([5, 20, 50])))
    check_tree(case, tree, X, state[0], every=True)


def proposals(case):
    """Nodes of proposals that are never applied, built repeatedly from the same leaf, and shared condition objects."""
    from bartpy.node import split_node
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng)
    if len(X) > 200:
        X, y = X[:200], y[:200]
    case.describe(**d)
    tree = gen.single_tree(X, y)
    work.direct_history(case, tree, X, lambda *a: None, steps=int(rng.choice([0, 3, 10])))
    yv = np.asarray(oracle.root_of(tree).data.y.values)
    prop = gen.proposer(0.9)
    for _ in range(15):
        m = prop.propose(tree)
        if m is None or m.kind != "grow":
            continue
        for n in (m.updated_node.left_child, m.updated_node.right_child, m.updated_node):
            check_node(case, n, X, yv)
        if rng.uniform() < 0.4:
            yv = new_target(rng, yv)
            tree.update_y(yv)
            check_tree(case, tree, X, yv)
    c = gen.conditions(int(rng.randint(X.shape[1])), float(X[rng.randint(len(X)), rng.randint(X.shape[1])]))
    other = gen.single_tree(X, rng.normal(size=len(X)))
    for t in (tree, other, tree):
        leaf = t.leaf_nodes[rng.randint(len(t.leaf_nodes))]
        dec = split_node(leaf, c)
        yy = np.asarray(leaf.data.y.values)
        for n in (dec.left_child, dec.right_child, dec):
            check_node(case, n, X, yy, [q for q in QUERIES if q != "max"])
            case.count("shared_conditions")


def bushy(case):
    """Trees with dozens to hundreds of leaves."""
    def cb(tree, X, stage, model):
        check_tree(case, tree, X, np.asarray(oracle.root_of(tree).data.y.values), every=False)
    tree, X = work.bushy(case, cb)
    check_tree(case, tree, X, np.asarray(oracle.root_of(tree).data.y.values), every=True)
    case.count("bushy_trees")


def large(case):
    """Tens of thousands of rows, large counts of ties and large sums."""
    rng = case.rng
    n = int(rng.choice([1500, 6000, 33000, 70000]))
    X, names = gen.covariates(rng, n, int(rng.randint(1, 5)), ["normal", "ints", "binary", "few_dups", "heavy", "sorted", "huge_offset"])
    y = rng.normal(size=n) * float(rng.choice([1., 1e4])) + float(rng.choice([0., 0., 3., -1e3]))
    case.describe(n=n, columns=names)
    tree = gen.single_tree(X, y)
    state = np.asarray(oracle.root_of(tree).data.y.values)
    check_tree(case, tree, X, state, every=True)
    f = gen.forcing_sampler(0.85)
    for i in range(int(rng.choice([2, 4, 7]))):
        f.step(None, tree)
        if rng.uniform() < 0.5:
            state = new_target(rng, state)
            tree.update_y(state)
        check_tree(case, tree, X, state)
    check_tree(case, tree, X, state, every=True)
    case.count("large_trees")


def parts():
    return [Part("live", live, 240, 3000, needs=("statistics",)),
            Part("targets", targets, 80, 1000, needs=("statistics", "target_updates")),
            Part("proposals", proposals, 80, 1000, needs=("statistics", "shared_conditions")),
            Part("bushy", bushy, 16, 160, needs=("bushy_trees", "statistics")),
            Part("large", large, 16, 120, needs=("large_trees", "statistics"))]
