"""C06: in-sample predictions always reflect the current leaf values."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one model and a random sequence of operations (leaf value changes, grows, prunes, target updates, predictions, sigma and leaf draws, "
        "whole sweeps); after random operations the in-sample prediction is compared with the value of the leaf each training row falls into; a state is "
        "a distinct (structure, operation) pair")
ASSUMPTIONS = ["sums over trees are compared up to floating-point rounding"]


def check_tree(case, t, X):
    case.close(t.predict(), oracle.tree_predict(t, X), "a tree's in-sample prediction is not the current value of each row's leaf", rtol=0, atol=0)


def check_model(case, model, X, y, raw=None):
    want = oracle.model_predict(model, X)
    tol = 1e-10 * (1 + sum(float(np.max(np.abs([l.current_value for l in t.leaf_nodes]))) for t in model.trees))
    case.close(model.predict(), want, "the model's in-sample prediction is not the sum of its trees", rtol=0, atol=tol)
    case.close(model.predict(X), want, "the model's out-of-sample prediction on the training rows is not the sum of its trees", rtol=0, atol=tol)
    case.close(model.residuals(), y - want, "the residuals are not target minus prediction", rtol=0, atol=tol)
    if raw is not None:
        scale = raw.max() - raw.min()
        case.close(model.unnormalized_residuals(), raw - (raw.min() + (want + 0.5) * scale), "the original-scale residuals are wrong",
                   rtol=1e-9, atol=1e-7 * scale + 1e-9 * np.abs(raw).max())


def ops(case):
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.sigma import SigmaSampler
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.dataset(rng)
    if len(X) > 400:
        X, y = X[:400], y[:400]
    n_trees = int(rng.choice([1, 2, 3, 6, 50]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, **gen.hyper(rng))
    yn = np.array(model.data.y.values, float)
    raw = y if y.max() > y.min() else None
    grow, real = gen.forcing_sampler(0.65), gen.real_sampler(0.5)
    ls, ss = LeafNodeSampler(), SigmaSampler()
    sampler = gen.model_sampler(real)
    n_ops = int(rng.choice([30, 80]))
    case.describe(n_trees=n_trees, ops=n_ops, **d)
    quiet = float(rng.choice([0.3, 0.7]))
    for _ in range(n_ops):
        t = model.trees[rng.randint(n_trees)]
        u = int(rng.randint(11))
        if u == 0:
            l = t.leaf_nodes[rng.randint(len(t.leaf_nodes))]
            l.set_value(float(rng.choice([rng.normal(), 0., l.current_value, 1e-13, -l.current_value])))
        elif u in (1, 2):
            grow.step(model, t)
            if rng.uniform() < 0.6:
                for l in t.leaf_nodes:
                    if l.current_value == 0. and rng.uniform() < 0.7:
                        l.set_value(rng.normal())
        elif u == 3:
            t.update_y(rng.normal(size=len(X)))
        elif u == 4:
            check_tree(case, t, X)
        elif u == 5:
            ls.step(model, t.leaf_nodes[rng.randint(len(t.leaf_nodes))])
        elif u == 6:
            ss.step(model, model.sigma)
        elif u == 7:
            real.step(model, t)
        elif u == 8:
            model.predict()
        elif u == 9 and rng.uniform() < 0.4:
            sampler.step(model, TraceLogger())
        elif u == 10:
            # swap two leaf values: same multiset, other prediction
            ls_ = list(t.leaf_nodes)
            if len(ls_) > 1:
                i, j = rng.choice(len(ls_), 2, replace=False)
                a, b = ls_[i].current_value, ls_[j].current_value
                ls_[i].set_value(b)
                ls_[j].set_value(a)
        case.count("operations")
        case.seen(u, oracle.structure(oracle.tree_shape(t)))
        if rng.uniform() > quiet:
            check_tree(case, t, X)
        if rng.uniform() > quiet + 0.1:
            check_model(case, model, X, yn, raw)
    for t in model.trees:
        check_tree(case, t, X)
    check_model(case, model, X, yn, raw)


def midsweep(case):
    """At every tree, leaf and sigma step of real sweeps."""
    rng = case.rng
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.sigma import SigmaSampler
    from bartpy.trace import TraceLogger
    X, y, d = gen.dataset(rng)
    if len(X) > 400:
        X, y = X[:400], y[:400]
    init = None
    if rng.uniform() < 0.2:
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        X = X.astype(np.float32).astype(float)
        X[~np.isfinite(X)] = 0.
        init = SklearnTreeInitializer()
    n_trees = int(rng.choice([1, 2, 5, 30, 60, 210], p=[.2, .2, .2, .2, .15, .05]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, initializer=init, **gen.hyper(rng))
    case.describe(n_trees=n_trees, **d)
    yn = np.array(model.data.y.values, float)

    def look(tree=None):
        u = rng.uniform()
        if u < 0.35 and tree is not None:
            check_tree(case, tree, X)
        if u < 0.5:
            check_model(case, model, X, yn)
            case.count("mid_sweep_checks")

    class Leaf(LeafNodeSampler):
        def step(self, m, node):
            out = super().step(m, node)
            case.check(node.current_value == out, "the drawn value did not become the leaf's value")
            look()
            return out

    class Sig(SigmaSampler):
        def step(self, m, s):
            out = super().step(m, s)
            look()
            return out
    pg = gen.p_grow(rng)
    ts = work.Monitor(gen.real_sampler(pg, oblivious=rng.uniform() < 0.2) if rng.uniform() < 0.6 else gen.forcing_sampler(pg),
                      before=lambda m, t: look(t), after=lambda m, t, o: look(t))
    sampler = gen.model_sampler(ts, Leaf(), Sig())
    check_model(case, model, X, yn)
    for _ in range(1 if n_trees > 40 else 2 if n_trees > 10 else int(rng.choice([3, 8]))):
        sampler.step(model, TraceLogger())
        for t in model.trees[:5]:
            check_tree(case, t, X)
        check_model(case, model, X, yn)
        case.seen([oracle.structure(oracle.tree_shape(t)) for t in model.trees[:5]])


def coincide(case):
    """Leaf values from a small pool: other structures, orders of leaves or leaf objects with the same list of values as at the last prediction."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 6, 12, 30], big=0)
    tree = gen.single_tree(X, y)
    pool = [float(v) for v in ([0., 1.], [0., 0., 2.], [1.], [-1., 1., 0.])[rng.randint(4)]]
    case.describe(pool=pool, **d)
    f = gen.forcing_sampler(.6)
    last, structure = None, None
    for _ in range(40):
        for _ in range(int(rng.choice([1, 2, 2, 4]))):
            f.step(None, tree)
            if rng.uniform() < .2:
                tree.update_y(rng.normal(size=len(X)))
        for l in tree.leaf_nodes:
            l.set_value(pool[rng.randint(len(pool))])
        if last is not None and len(last) == len(tree.leaf_nodes) and rng.uniform() < .8:
            for l, v in zip(tree.leaf_nodes, last):         # exactly the list of the last prediction
                l.set_value(v)
            case.count("same_values", oracle.structure(oracle.tree_shape(tree)) != structure)
        if rng.uniform() < .7:
            check_tree(case, tree, X)
            last, structure = [l.current_value for l in tree.leaf_nodes], oracle.structure(oracle.tree_shape(tree))
            case.seen(structure, last)


def bushy(case):
    """Trees with dozens to hundreds of leaves, thousands of rows."""
    rng = case.rng
    X, y, d = work.bushy_data(rng, n=int(rng.choice([200, 1200, 5000])))
    n_trees = int(rng.choice([1, 2, 4]))
    model = gen.make_model(rng, X, y, n_trees=n_trees)
    yn = np.array(model.data.y.values, float)
    leaves = int(rng.choice([10, 40, 100])) if len(X) < 1000 else int(rng.choice([3, 12]))
    case.describe(n_trees=n_trees, leaves=leaves, **d)
    f = gen.forcing_sampler(0.5)
    for t in model.trees:
        work.grow_bushy(case, t, leaves, model)
    check_model(case, model, X, yn, y)
    for _ in range(12):
        t = model.trees[rng.randint(n_trees)]
        u = rng.randint(3)
        if u == 0:
            f.step(model, t)
        elif u == 1:
            t.leaf_nodes[rng.randint(len(t.leaf_nodes))].set_value(rng.normal())
        else:
            t.leaf_nodes[-1].set_value(rng.normal())
        check_tree(case, t, X)
        check_model(case, model, X, yn, y)
        case.count("operations")
    case.count("bushy_trees", n_trees)
    case.seen([oracle.structure(oracle.tree_shape(t)) for t in model.trees])


def parts():
    return [Part("ops", ops, 160, 2000, needs=("operations",)),
            Part("midsweep", midsweep, 120, 1500, needs=("mid_sweep_checks",)),
            Part("coincide", coincide, 60, 600, needs=("same_values",)),
            Part("bushy", bushy, 24, 240, needs=("bushy_trees", "operations"))]
