"""Drivers: real code under realistic and hostile workloads, with a callback at every quiescent point."""
import numpy as np

from vf import gen, oracle


class Monitor(gen.TreeSamplerWrapper):
    """Wraps the real tree sampler and reports every step."""

    def __init__(self, inner, before=None, after=None):
        super().__init__(inner)
        self.before, self.after = before, after
        self.steps = 0

    def step(self, model, tree):
        if self.before:
            self.before(model, tree)
        out = self.inner.step(model, tree)
        self.steps += 1
        if self.after:
            self.after(model, tree, out)
        return out


REGIMES = ["sampler", "forced", "oblivious", "forced_oblivious", "direct", "deep", "init"]


def drive(case, cb, regime=None, regimes=None, sweeps=None, sizes=None, pmax=6):
    """Run one workload; cb(tree, X, stage, model) is called after every structural step and at the end of sweeps.

    Returns (model or None, trees, X).
    """
    rng = case.rng
    regime = regime or (regimes or REGIMES)[case.index % len(regimes or REGIMES)]
    X, y, d = gen.dataset(rng, sizes=sizes, pmax=pmax)
    case.describe(regime=regime, **d)
    if regime in ("direct", "deep"):
        tree = gen.single_tree(X, y)
        cb(tree, X, "new", None)
        (direct_history if regime == "direct" else deep_history)(case, tree, X, cb)
        return None, [tree], X
    hp = gen.hyper(rng)
    big = len(X) > 200 or X.shape[1] > 20
    n_trees = int(rng.choice([1, 2, 3]) if big else rng.choice([1, 2, 3, 5, 8, 20]))
    n_sweeps = sweeps or (3 if big else int(rng.choice([4, 10, 25])) if n_trees < 8 else 5)
    pg = float(rng.choice([0.5, 0.6, 0.75, 0.9, 0.3]))
    obl = "oblivious" in regime
    inner = gen.forcing_sampler(pg, obl) if "forced" in regime else gen.real_sampler(pg, obl)
    init = None
    if regime == "init":
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        X = X.astype(np.float32).astype(float)
        X[~np.isfinite(X)] = 0.
        init = SklearnTreeInitializer(max_depth=int(rng.randint(1, 6)))
    model = gen.make_model(rng, X, y, n_trees=n_trees, initializer=init, **hp)
    case.describe(n_trees=n_trees, sweeps=n_sweeps, p_grow=pg, **hp)
    for t in model.trees:
        cb(t, X, "new", model)
    if obl and not "forced" in regime:
        n_sweeps = min(n_sweeps, 10)
    mon = Monitor(inner, after=lambda m, t, out: cb(t, X, "step" if out else "rejected", m))
    sampler = gen.model_sampler(mon)
    from bartpy.trace import TraceLogger
    for _ in range(n_sweeps):
        sampler.step(model, TraceLogger())
        for t in model.trees[:3]:
            cb(t, X, "sweep", model)
    case.count("tree_steps", mon.steps)
    return model, list(model.trees), X


def direct_history(case, tree, X, cb, steps=None):
    """Grows at arbitrary legal thresholds and prunes, through split_node and mutate; condition objects are reused."""
    rng = case.rng
    bank = []
    for _ in range(steps or int(rng.choice([5, 20, 60]))):
        leaves = [l for l in tree.leaf_nodes if l.is_splittable()]
        prunable = list(tree.prunable_decision_nodes)
        if prunable and (not leaves or rng.uniform() < 0.35):
            gen.prune_at(tree, prunable[rng.randint(len(prunable))])
            cb(tree, X, "prune", None)
        elif leaves:
            leaf = leaves[rng.randint(len(leaves))]
            rows = X[leaf.split.condition()]
            cols = oracle.splittable_columns(rows)
            if not cols:
                case.check(False, "a leaf reported as splittable has identical rows")
            j = cols[rng.randint(len(cols))]
            vals = np.unique(rows[:, j])
            i = rng.randint(len(vals) - 1)
            v = vals[i]
            if rng.uniform() < 0.3:
                v = vals[i] / 2 + vals[i + 1] / 2          # between two observed values
                if not (vals[i] <= v < vals[i + 1]):
                    v = vals[i]
            reuse = [c for c in bank if c[0].splitting_variable in cols
                     and rows[:, c[0].splitting_variable].min() <= c[0].splitting_value < rows[:, c[0].splitting_variable].max()]
            if reuse and rng.uniform() < 0.4:
                c = reuse[rng.randint(len(reuse))]
                case.count("condition_objects_reused")
            else:
                c = gen.conditions(j, v)
                bank.append(c)
            gen.grow_at(tree, leaf, None, None, c)
            cb(tree, X, "grow", None)
        else:
            break
        if rng.uniform() < 0.3:
            tree.update_y(rng.normal(size=len(X)))
            cb(tree, X, "update_y", None)
        if rng.uniform() < 0.3:
            for l in tree.leaf_nodes:
                l.set_value(rng.normal())
            cb(tree, X, "set_value", None)


def deep_history(case, tree, X, cb):
    """A path as deep as the data allows (at most 45 levels), then pruned back in places."""
    rng = case.rng
    side = rng.randint(3)
    for _ in range(45):
        leaves = [l for l in tree.leaf_nodes if l.is_splittable()]
        if not leaves:
            break
        leaf = max(leaves, key=lambda l: l.depth)
        rows = X[leaf.split.condition()]
        cols = oracle.splittable_columns(rows)
        if not cols:
            case.check(False, "a leaf reported as splittable has identical rows")
        j = cols[rng.randint(len(cols))]
        vals = np.unique(rows[:, j])
        i = [0, len(vals) - 2, rng.randint(len(vals) - 1)][side]
        gen.grow_at(tree, leaf, j, vals[i])
        cb(tree, X, "grow", None)
    for _ in range(6):
        prunable = list(tree.prunable_decision_nodes)
        if not prunable:
            break
        gen.prune_at(tree, max(prunable, key=lambda n: n.depth))
        cb(tree, X, "prune", None)


BUSHY_COLUMNS = ["normal", "uniform", "heavy", "few_dups", "sorted", "ints", "minmax_ties"]


def bushy_data(rng, n=None, p=None):
    n = int(n or rng.choice([150, 250, 400]))
    X, names = gen.covariates(rng, n, int(p or rng.randint(1, 5)), ["normal"] + BUSHY_COLUMNS)
    X[:, 0] = rng.permutation(np.linspace(-1, 1, n))            # always enough distinct values
    y = gen.signal(X) + rng.normal(size=n)
    return X, y, {"n": n, "p": X.shape[1], "columns": names}


def grow_bushy(case, tree, leaves, model=None):
    """Grow a tree to the given number of leaves with the real sampler's accept-everything form."""
    s = gen.forcing_sampler(0.97)
    for _ in range(4 * leaves):
        if len(tree.leaf_nodes) >= leaves:
            break
        s.step(model, tree)
    for l in tree.leaf_nodes:
        l.set_value(case.rng.normal())
    case.count("bushy_leaves", len(tree.leaf_nodes))
    return tree


def grow_balanced(case, tree, X, leaves):
    """Split the leaf with the most rows until there are that many leaves: nearly all of them can be split again."""
    rng = case.rng
    stuck = set()
    while len(tree.leaf_nodes) < leaves:
        todo = [(int(l.split.condition().sum()), i, l) for i, l in enumerate(tree.leaf_nodes) if id(l) not in stuck]
        if not todo:
            break
        leaf = max(todo)[2]
        rows = X[leaf.split.condition()]
        cols = oracle.splittable_columns(rows)
        if not cols:
            stuck.add(id(leaf))
            continue
        j = cols[rng.randint(len(cols))]
        vals = np.unique(rows[:, j])
        gen.grow_at(tree, leaf, j, vals[min((len(vals) - 1) // 2, len(vals) - 2)])
    case.count("bushy_leaves", len(tree.leaf_nodes))
    return tree


def bushy(case, cb, leaves=None, every=8):
    """One tree with dozens to hundreds of leaves, changed further by grows and prunes in random order."""
    rng = case.rng
    X, y, d = bushy_data(rng)
    leaves = int(leaves or rng.choice([35, 70, 130]))
    tree = gen.single_tree(X, y)
    case.describe(regime="bushy", leaves=leaves, **d)
    grow_bushy(case, tree, leaves)
    cb(tree, X, "grow", None)
    i = [0]

    def sparse(*a):
        i[0] += 1
        if i[0] % every == 0:
            cb(*a)
    direct_history(case, tree, X, sparse, steps=40)
    f = gen.forcing_sampler(0.35)
    for _ in range(30):
        f.step(None, tree)
        sparse(tree, X, "step", None)
    cb(tree, X, "step", None)
    return tree, X
