"""C12: a sweep updates every tree, every leaf and sigma exactly once, in order."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one model sampled for several sweeps with recording tree, leaf and sigma samplers around the real ones (or, unrecorded, compared before and after); "
        "the event log of each sweep is checked against the sweep grammar; a state is a distinct event pattern (per tree: accepted or not, number of leaves)")
ASSUMPTIONS = ["leaf and sigma draws are continuous, so a redrawn value differs from the old one"]


class Log:
    def __init__(self):
        self.events = []

    def __deepcopy__(self, memo):
        return self


class T:
    def __init__(self, inner, log):
        self.inner, self.log = inner, log

    def step(self, model, tree):
        before = oracle.structure(oracle.tree_shape(tree))
        out = self.inner.step(model, tree)
        after = oracle.structure(oracle.tree_shape(tree))
        self.log.events.append(("tree", model, tree, before != after, [l for l in tree.leaf_nodes]))
        return out

    def __deepcopy__(self, memo):
        from copy import deepcopy
        return T(deepcopy(self.inner, memo), self.log)


def leaf_and_sigma(log):
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.sigma import SigmaSampler

    class L(LeafNodeSampler):
        def step(self, model, node):
            out = super().step(model, node)
            log.events.append(("leaf", model, node, out))
            return out

    class S(SigmaSampler):
        def step(self, model, sigma):
            out = super().step(model, sigma)
            log.events.append(("sigma", model, sigma, out))
            return out
    return L(), S()


def check_sweep(case, model, events, result):
    trees = list(model.trees)
    case.check(len(events) > 0 and events[-1][0] == "sigma", "a sweep does not end with the sigma draw")
    case.check(sum(e[0] == "sigma" for e in events) == 1, "sigma is not drawn exactly once per sweep", n=sum(e[0] == "sigma" for e in events))
    case.check(all(e[1] is model for e in events), "an update is made on behalf of another model")
    case.check(events[-1][2] is model.sigma, "another sigma than the model's is drawn")
    case.check(events[0][0] == "tree", "a sweep does not start with a tree update")
    visited, i, accepted, pattern = [], 0, 0, []
    while i < len(events) - 1:
        e = events[i]
        case.check(e[0] == "tree", "a leaf is drawn outside its tree's turn")
        visited.append(e[2])
        accepted += bool(e[3])
        want = [id(l) for l in e[4]]
        i += 1
        got = []
        while i < len(events) and events[i][0] == "leaf":
            got.append(id(events[i][2]))
            i += 1
        pattern.append((bool(e[3]), len(want)))
        case.check(sorted(got) == sorted(want), "the leaves of the updated tree are not drawn exactly once each",
                   leaves=len(want), drawn=len(got), distinct=len(set(got)))
    case.check(len(visited) == len(trees) and {id(t) for t in visited} == {id(t) for t in trees},
               "a sweep does not visit every tree exactly once", visited=len(visited), trees=len(trees))
    if result is not None:
        case.close(result["Tree"], accepted / len(trees), "the reported acceptance rate is not the fraction of trees changed", rtol=1e-12, atol=1e-12)
    case.count("sweeps")
    case.count("events", len(events))
    case.seen(pattern)


def setup(case):
    rng = case.rng
    X, y, d = gen.dataset(rng)
    big = len(X) > 200
    n_trees = int(rng.choice([1, 2, 3]) if big else rng.choice([1, 2, 3, 5, 10, 40, 120, 300], p=[.15, .15, .15, .15, .15, .13, .07, .05]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, **gen.hyper(rng))
    u = rng.uniform()
    pg = gen.p_grow(rng)
    ts = gen.forcing_sampler(pg) if u < 0.25 else gen.forcing_sampler(pg, True) if u < 0.35 else gen.real_sampler(pg, True) if u < 0.45 else gen.real_sampler(pg)
    case.describe(n_trees=n_trees, p_grow=pg, sampler="forced" if u < 0.35 else "real", **d)
    return X, y, model, ts


def recorded(case):
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, model, ts = setup(case)
    log = Log()
    L, S = leaf_and_sigma(log)
    ms = gen.model_sampler(T(ts, log), L, S)
    for _ in range(2 if len(model.trees) > 20 or len(X) > 200 else int(rng.choice([3, 8]))):
        del log.events[:]
        out = ms.step(model, TraceLogger())
        check_sweep(case, model, log.events, out)


def bushy(case):
    """Trees with dozens to hundreds of leaves, next to stumps."""
    from bartpy.trace import TraceLogger
    rng = case.rng
    large = case.index % 3 == 0
    X, y, d = work.bushy_data(rng, n=int(rng.choice([1500, 5000, 12000])) if large else None)
    n_trees = int(rng.choice([1, 2, 4] if not large else [2, 3, 5]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, **gen.hyper(rng))
    for t in model.trees:
        if rng.uniform() < (0.8 if not large else .3):
            work.grow_bushy(case, t, int(rng.choice([15, 40, 110]) if not large else 3), model)
    log = Log()
    L, S = leaf_and_sigma(log)
    ms = gen.model_sampler(T(gen.forcing_sampler(0.5) if rng.uniform() < 0.5 else gen.real_sampler(0.5), log), L, S)
    case.describe(n_trees=n_trees, leaves=[len(t.leaf_nodes) for t in model.trees], **d)
    for _ in range(2):
        del log.events[:]
        out = ms.step(model, TraceLogger())
        check_sweep(case, model, log.events, out)
    case.count("bushy_models")
    case.count("large_data", large)


class Asked:
    """A proposer that counts how often it is asked about each tree; the proposals are the real ones."""

    def __init__(self, inner):
        self.inner, self.asked, self.trees = inner, {}, []

    def propose(self, tree):
        self.asked[id(tree)] = self.asked.get(id(tree), 0) + 1
        self.trees.append(tree)
        return self.inner.propose(tree)

    def __deepcopy__(self, memo):
        return self


class Moods:
    """A ratio that refuses for long stretches and accepts in between."""

    def __init__(self, rng):
        self.rng, self.left, self.refuse, self.longest = rng, 0, False, 0

    def log_probability_ratio(self, model, tree, mutation):
        if self.left == 0:
            self.refuse = not self.refuse
            self.left = int(self.rng.choice([30, 150, 700]) if self.refuse else self.rng.choice([1, 5, 60]))
            self.longest = max(self.longest, self.left if self.refuse else 0)
        self.left -= 1
        return -np.inf if self.refuse else np.inf


def idle(case):
    """However long a tree has been refused, or accepted, every sweep tries exactly one move on it."""
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 30])
    n_trees = int(rng.choice([1, 2, 4]))
    model = gen.make_model(rng, X, y, n_trees=n_trees)
    prop, ratio = Asked(gen.proposer(float(rng.choice([.5, .7])))), Moods(rng)
    ms = gen.model_sampler(UnconstrainedTreeMutationSampler(prop, ratio))
    case.describe(n_trees=n_trees, **d)
    for i in range(int(rng.choice([120, 250]))):
        prop.asked.clear()
        shapes = [oracle.structure(oracle.tree_shape(t)) for t in model.trees]
        values = [[(l, float(l.current_value)) for l in t.leaf_nodes] for t in model.trees]
        s0 = float(model.sigma.current_value())
        ms.step(model, TraceLogger())
        case.equal(prop.asked, {id(t): 1 for t in model.trees}, "a sweep does not try exactly one move per tree")
        case.check(float(model.sigma.current_value()) != s0, "sigma is not redrawn by a sweep")
        for t, s, v in zip(model.trees, shapes, values):
            if oracle.structure(oracle.tree_shape(t)) == s:
                now = [float(l.current_value) for l in t.leaf_nodes]
                case.check(not set(now) & {x for _, x in v}, "a leaf keeps its value through a sweep")
        case.count("sweeps")
    case.count("long_refusals", ratio.longest > 100)
    case.seen([len(t.leaf_nodes) for t in model.trees], case.index)


def values(case):
    """No recording leaf or sigma sampler: every leaf value and sigma must be new after a real sweep."""
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, model, ts = setup(case)
    n_changed = [0]
    mon = work.Monitor(ts)
    shapes = {}

    def before(m, t):
        shapes["b"] = oracle.structure(oracle.tree_shape(t))
        # fresh recording of the values held when the tree's turn begins
        shapes["v", id(t)] = {id(l): (l, float(l.current_value)) for l in t.leaf_nodes}

    def after(m, t, out):
        n_changed[0] += shapes["b"] != oracle.structure(oracle.tree_shape(t))
        for l in t.leaf_nodes:
            shapes["v", id(t)].setdefault(id(l), (l, float(l.current_value)))
    mon.before, mon.after = before, after
    ms = gen.model_sampler(mon)
    for _ in range(2 if len(model.trees) > 20 or len(X) > 200 else int(rng.choice([3, 6]))):
        n_changed[0] = 0
        mon.steps = 0
        s0 = float(model.sigma.current_value())
        out = ms.step(model, TraceLogger())
        case.equal(mon.steps, len(model.trees), "a sweep does not update every tree exactly once")
        case.close(out["Tree"], n_changed[0] / len(model.trees), "the reported acceptance rate is not the fraction of trees changed", rtol=1e-12, atol=1e-12)
        case.check(float(model.sigma.current_value()) != s0, "sigma is not redrawn by a sweep")
        for t in model.trees:
            for l in t.leaf_nodes:
                case.check(float(l.current_value) != shapes["v", id(t)][id(l)][1], "a leaf keeps its value through a sweep")
        case.count("sweeps")
        case.seen([len(t.leaf_nodes) for t in model.trees])


def fitted(case):
    """Through the estimator: the tree updates of each chain come in whole sweeps."""
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[2, 5, 10, 30])
    log = Log()
    n_trees, n_samples, n_burn, n_chains = int(rng.choice([1, 2, 7])), int(rng.choice([1, 5])), int(rng.choice([0, 4])), int(rng.choice([1, 3]))
    case.describe(n_trees=n_trees, n_samples=n_samples, n_burn=n_burn, n_chains=n_chains, **d)
    m = gen.est(n_trees=n_trees, n_samples=n_samples, n_burn=n_burn, n_chains=n_chains, tree_sampler=T(gen.real_sampler(0.5), log), store_acceptance_trace=True)
    m.fit(X, y)
    ev = log.events
    case.equal(len(ev), n_trees * (n_samples + n_burn) * n_chains, "the number of tree updates is not trees x sweeps x chains")
    rates = []
    for s in range(0, len(ev), n_trees):
        sweep = ev[s:s + n_trees]
        case.check(len({id(e[1]) for e in sweep}) == 1, "a sweep mixes models")
        case.check({id(e[2]) for e in sweep} == {id(t) for t in sweep[0][1].trees}, "a sweep does not visit every tree exactly once")
        rates.append(np.mean([bool(e[3]) for e in sweep]))
        case.count("sweeps")
        case.seen([(bool(e[3]), len(e[4])) for e in sweep])
    per = n_samples + n_burn
    want = [rates[c * per + n_burn + i] for c in range(n_chains) for i in range(n_samples)]
    case.close([a["Tree"] for a in m.acceptance_trace], want, "the acceptance trace is not the fraction of trees changed in each recorded sweep", rtol=1e-12, atol=1e-12)


def parts():
    return [Part("recorded", recorded, 160, 2000, needs=("sweeps", "events")),
            Part("bushy", bushy, 24, 240, needs=("sweeps", "bushy_leaves", "bushy_models", "large_data")),
            Part("idle", idle, 24, 240, needs=("sweeps", "long_refusals")),
            Part("values", values, 80, 1000, needs=("sweeps",)),
            Part("fitted", fitted, 60, 700, needs=("sweeps",))]
