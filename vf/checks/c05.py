"""C05: each tree is fitted to the residual of all the others."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one model sampled for many sweeps, with errors injected at random steps or extra steps placed between the standard ones; at every "
        "tree and leaf update the target seen by the tree is compared with the training target minus an independent evaluation of all other trees; "
        "a state is a distinct (ensemble, tree updated) pair")
ASSUMPTIONS = ["equality up to floating-point rounding (1e-8 relative to the size of the terms)"]


class Injected(Exception):
    pass


class Watch:
    """Wraps tree, leaf and sigma samplers of one model."""

    def __init__(self, case, model, X, tree_sampler, fail_rate=0.0, sparse=1.0):
        from bartpy.samplers.leafnode import LeafNodeSampler
        from bartpy.samplers.sigma import SigmaSampler
        self.case, self.model, self.X = case, model, X
        self.y = np.array(model.data.y.values, float)
        self.inner, self.leaf, self.sigma = tree_sampler, LeafNodeSampler(), SigmaSampler()
        self.fail_rate, self.sparse = fail_rate, sparse
        self.current = None
        self.want = None

    def boom(self):
        if self.fail_rate and self.case.rng.uniform() < self.fail_rate:
            self.case.count("injected_errors")
            raise Injected()

    def expected(self, tree):
        others = [t for t in self.model.trees if t is not tree]
        return self.y - (np.sum([oracle.tree_predict(t, self.X) for t in others], axis=0) if others else 0.)

    def tol(self):
        return 1e-8 * (1 + sum(float(np.max(np.abs([l.current_value for l in t.leaf_nodes]))) for t in self.model.trees))

    def check(self, tree):
        if self.case.rng.uniform() > self.sparse:
            return
        case = self.case
        want = self.expected(tree)
        self.want = want
        tol = self.tol()
        for n in tree.nodes:
            case.close(n.data.y.values, want, "a tree is not fitted to the residual of the other trees", rtol=0, atol=tol,
                       n_trees=len(self.model.trees))
        rows = oracle.rows_by_walk(oracle.root_of(tree), self.X)
        for n in tree.nodes:
            m = rows[id(n)]
            case.close(n.data.y.summed_y(), want[m].sum(), "a node's sum is not that of the residual of the other trees", rtol=0, atol=tol * (1 + m.sum()))
        case.count("tree_updates_watched")
        case.seen(self.model.trees.index(tree), [oracle.structure(oracle.tree_shape(t)) for t in self.model.trees[:6]])

    class _Tree:
        def __init__(self, w):
            self.w = w

        def step(self, model, tree):
            w = self.w
            w.current = tree
            w.check(tree)
            w.boom()
            out = w.inner.step(model, tree)
            if w.want is not None and w.case.rng.uniform() < 0.5:
                w.check(tree)
            w.boom()
            return out

    class _Leaf:
        def __init__(self, w):
            self.w = w

        def step(self, model, node):
            w = self.w
            if w.case.rng.uniform() < 0.5 * w.sparse:
                want = w.expected(w.current)
                m = np.asarray(node.split.condition())
                w.case.close(node.data.y.summed_y(), want[m].sum(), "a leaf is drawn from a stale residual", rtol=0, atol=w.tol() * (1 + m.sum()))
                w.case.count("leaf_updates_watched")
            w.boom()
            return w.leaf.step(model, node)

    class _Sigma:
        def __init__(self, w):
            self.w = w

        def step(self, model, sigma):
            w = self.w
            w.case.close(model.residuals(), w.y - oracle.model_predict(model, w.X), "sigma is drawn from stale residuals", rtol=0, atol=w.tol())
            w.boom()
            return w.sigma.step(model, sigma)

    def schedule(self, extra=False):
        s = gen.schedule(self._Tree(self), self._Leaf(self), self._Sigma(self))
        if extra:
            s = extended(s, self)
        return s


def extended(base, watch):
    """A schedule with additional prediction and sigma steps between the standard ones."""
    from bartpy.samplers.schedule import SampleSchedule
    rng = watch.case.rng

    class Extended(SampleSchedule):
        def steps(self, model):
            for kind, f in super().steps(model):
                yield kind, f
                u = rng.uniform()
                if u < 0.15:
                    yield "Node", lambda: float(np.sum(model.predict()))
                elif u < 0.3:
                    yield "Node", lambda: float(np.sum(model.residuals()))
                elif u < 0.4:
                    yield "Node", lambda: watch.sigma.step(model, model.sigma)
                elif u < 0.5:
                    yield "Node", lambda: float(np.sum([t.predict()[0] for t in model.trees]))
                elif u < 0.55:
                    yield "Node", lambda: float(np.sum(model.predict(watch.X)))
                if u < 0.55:
                    watch.case.count("extra_steps")
    return Extended(base.tree_sampler, base.leaf_sampler, base.sigma_sampler)


def build(case, **kw):
    rng = case.rng
    X, y, d = gen.dataset(rng, **kw)
    init = None
    u = rng.uniform()
    if u < 0.15:
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        X = X.astype(np.float32).astype(float)
        X[~np.isfinite(X)] = 0.
        init = SklearnTreeInitializer(max_depth=3)
    elif u < 0.3:
        from bartpy.initializers.initializer import Initializer

        class Fixed(Initializer):
            def initialize_tree(self, tree):
                for l in tree.leaf_nodes:
                    l.set_value(rng.normal() * 0.1)
        init = Fixed()
    n_trees = int(rng.choice([1, 2, 3, 5, 10]) if len(X) < 200 else rng.choice([1, 2, 3]))
    hp = gen.hyper(rng)
    model = gen.make_model(rng, X, y, n_trees=n_trees, initializer=init, normalize=True, **hp)
    case.describe(n_trees=n_trees, initializer=type(init).__name__, **d, **hp)
    return model, X


def run(case, watch, sched, sweeps):
    from bartpy.samplers.modelsampler import ModelSampler
    from bartpy.trace import TraceLogger
    ms = ModelSampler(sched)
    for _ in range(sweeps):
        try:
            ms.step(watch.model, TraceLogger())
            case.count("sweeps")
        except Injected:
            case.count("interrupted_sweeps")


def tree_sampler(rng):
    return gen.forcing_sampler(float(rng.choice([0.5, 0.7]))) if rng.uniform() < 0.3 else gen.real_sampler(gen.p_grow(rng), oblivious=rng.uniform() < 0.15)


def plain(case):
    model, X = build(case)
    w = Watch(case, model, X, tree_sampler(case.rng))
    run(case, w, w.schedule(), 4 if len(X) > 200 else int(case.rng.choice([3, 8, 20])))


def interrupted(case):
    model, X = build(case, sizes=[3, 5, 10, 20, 40])
    w = Watch(case, model, X, tree_sampler(case.rng), fail_rate=float(case.rng.choice([0.02, 0.1, 0.3])))
    run(case, w, w.schedule(extra=case.rng.uniform() < 0.3), int(case.rng.choice([10, 25])))


def extra(case):
    model, X = build(case, sizes=[3, 5, 10, 20, 40])
    w = Watch(case, model, X, tree_sampler(case.rng))
    run(case, w, w.schedule(extra=True), int(case.rng.choice([5, 12])))


def long(case):
    """Many sweeps (rounding drift, stale bookkeeping) or many trees."""
    rng = case.rng
    many = case.index % 2 == 0
    X, y, d = gen.splittable_dataset(rng, sizes=[5, 20, 40])
    n_trees = int(rng.choice([50, 200])) if many else int(rng.choice([1, 2, 4]))
    sweeps, sparse = 4 if many else 250, 0.04
    if case.index % 8 in (3, 4):                        # thousands of rows, or trees with dozens of leaves
        rows = int(rng.choice([1200, 5000, 20000])) if case.index % 8 == 3 else 250
        X, y, d = work.bushy_data(rng, n=rows)
        n_trees, sweeps, sparse = int(rng.choice([2, 3])), 3, 1.
        case.count("large_models")
    model = gen.make_model(rng, X, y, n_trees=n_trees)
    if case.index % 8 == 4:
        for t in model.trees:
            work.grow_bushy(case, t, int(rng.choice([20, 60])), model)
    case.describe(n_trees=n_trees, sweeps=sweeps, **d)
    w = Watch(case, model, X, gen.real_sampler(0.5), sparse=sparse)
    run(case, w, w.schedule(), sweeps)


def injected_history(case):
    """Between sweeps the caller sets leaf values, mutates trees, or gives the model or a tree another target."""
    rng = case.rng
    model, X = build(case, sizes=[3, 5, 10, 20, 40])
    w = Watch(case, model, X, tree_sampler(rng))
    f = gen.forcing_sampler(0.6)
    for _ in range(6):
        for _ in range(rng.randint(0, 4)):
            t = model.trees[rng.randint(len(model.trees))]
            u = rng.randint(5)
            if u == 0:
                t.leaf_nodes[rng.randint(len(t.leaf_nodes))].set_value(rng.normal())
            elif u == 1:
                f.step(model, t)
            elif u == 2:
                model.predict()
            elif u == 3:                                # the model is given another target
                w.y = rng.uniform(-.5, .5, size=len(X))
                model.data.update_y(w.y.copy())
                case.count("targets_replaced")
            else:
                t.update_y(rng.normal(size=len(X)))
            case.count("outside_changes")
        run(case, w, w.schedule(), 2)


def parts():
    return [Part("plain", plain, 120, 1200, needs=("tree_updates_watched", "leaf_updates_watched")),
            Part("interrupted", interrupted, 80, 800, needs=("injected_errors", "interrupted_sweeps", "tree_updates_watched")),
            Part("extra", extra, 60, 600, needs=("extra_steps", "tree_updates_watched")),
            Part("outside", injected_history, 60, 600, needs=("outside_changes", "targets_replaced", "tree_updates_watched")),
            Part("long", long, 24, 160, needs=("tree_updates_watched", "large_models"))]
