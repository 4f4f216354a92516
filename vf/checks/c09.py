"""C09: leaf values are drawn from their conjugate normal conditional."""
import numpy as np
from scipy import stats

from vf import gen, oracle, stat, work
from vf.core import Part

RULE = ("one case = many leaves, residuals, sigmas and prior settings; draws with a prescribed standard-normal deviate are compared exactly, draws with the "
        "real generator are standardised by the exact posterior and tested for normality, independence and repetition over more than one batch of cached "
        "draws; a state is a distinct (leaf rows, sigma, prior) triple")
ASSUMPTIONS = ["frequency tests have finite resolution"]


class Stub:
    def __init__(self):
        self.z = 0.

    def sample(self):
        return self.z


def posterior(r, sigma, k, m):
    tau2 = (0.5 / (k * np.sqrt(m))) ** 2
    prec = 1 / tau2 + len(r) / sigma ** 2
    return (r.sum() / sigma ** 2) / prec, np.sqrt(1 / prec)


def states(case, X, y, n_trees):
    """A model, one of its trees grown at random, with random residuals and sigma."""
    rng = case.rng
    hp = gen.hyper(rng)
    model = gen.make_model(rng, X, y, n_trees=n_trees, **hp)
    tree = model.trees[rng.randint(n_trees)]
    s = gen.forcing_sampler(0.7)
    for _ in range(int(rng.choice([0, 1, 4, 12]))):
        s.step(model, tree)
    return model, tree


def shake(case, model, tree, n):
    rng = case.rng
    r = rng.normal(size=n) * float(rng.choice([0.1, 0.3, 1., 5.])) + float(rng.choice([0., 0.5, -2.]))
    if rng.uniform() < .2:                                 # nothing left to explain, or next to nothing
        r = rng.normal(size=n) * float(rng.choice([0., 1e-4, 1e-8]))
    tree.update_y(r)
    lo, hi = [(1e-2, 5.), (1e-2, 5.), (1e-4, 1e-2), (1e-6, 1e-4), (5., 100.)][rng.randint(5)]
    model.sigma.set_value(float(np.exp(rng.uniform(np.log(lo), np.log(hi)))))
    return r


def exact(case):
    from bartpy.samplers.leafnode import LeafNodeSampler
    rng = case.rng
    X, y, d = gen.dataset(rng)
    if case.index % 16 == 7:
        X, y, d = work.bushy_data(rng, n=int(rng.choice([1500, 6000, 20000])))
        case.count("large_leaves")
    n_trees = int(rng.choice([1, 2, 5, 50, 200, 700], p=[.2, .2, .2, .2, .1, .1]) if len(X) < 100 else 2)
    model, tree = states(case, X, y, n_trees)
    if rng.uniform() < .25:
        model.k = float(rng.choice([8., 30., .05]))
    case.describe(n_trees=n_trees, k=model.k, **d)
    stub = Stub()
    ls = LeafNodeSampler(stub)
    # one sampler serves models of different sizes and priors in turn
    pool = [(model, tree, n_trees)]
    for _ in range(2):
        m2 = int(rng.choice([1, 2, 4, 9, 30]) if len(X) < 100 else 3)
        pool.append(states(case, X, y, m2) + (m2,))
    for i in range(14):
        model, tree, n_trees = pool[i % len(pool)] if i < 6 else pool[rng.randint(len(pool))]
        r = shake(case, model, tree, len(X))
        rows = oracle.rows_by_walk(oracle.root_of(tree), X)
        for leaf in tree.leaf_nodes[:10]:
            m = rows[id(leaf)]
            mean, sd = posterior(r[m], model.sigma.current_value(), model.k, n_trees)
            got = []
            others = [(o, o.current_value) for o in tree.leaf_nodes if o is not leaf]
            for z in (0., 1., -2.5, 3.7, -6.):
                stub.z = z
                out = ls.step(model, leaf)
                case.equal(float(leaf.current_value), float(out), "the drawn value did not become the leaf's value")
                got.append(float(out))
            tol = 1e-9 * (abs(mean) + sd) + 1e-13 * float(np.abs(r[m]).mean())
            case.close(got[0], mean, "the mean of a leaf draw is not the posterior mean", rtol=1e-9, atol=tol, n=int(m.sum()))
            case.close(abs(got[1] - got[0]), sd, "the spread of a leaf draw is not the posterior standard deviation", rtol=1e-6, atol=tol, n=int(m.sum()))
            case.close(abs(got[2] - got[0]), 2.5 * sd, "the spread of a leaf draw is not the posterior standard deviation", rtol=1e-6, atol=tol, n=int(m.sum()))
            case.close([got[3] - got[0], got[4] - got[0]], [3.7 * (got[1] - got[0]), -6. * (got[1] - got[0])],
                       "the tails of a leaf draw are not those of the posterior normal", rtol=1e-6, atol=10 * tol)
            case.check(all(o.current_value == v for o, v in others), "drawing one leaf changed another leaf")
            case.count("exact_draws")
            case.seen(m, round(float(model.sigma.current_value()), 6), model.k, n_trees)


def distribution(case):
    """Real draws, standardised, over more draws than are cached at once."""
    from bartpy.samplers.leafnode import LeafNodeSampler
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 30])
    n_trees = int(rng.choice([1, 3, 20]))
    model, tree = states(case, X, y, n_trees)
    ls = LeafNodeSampler()
    n = 30000 if not case.thorough else 60000
    case.describe(n_trees=n_trees, draws=n, **d)
    long = case.index % 4 == 0
    if long:
        n = 130000
    held = None

    def draw(k):
        out = np.empty(k)
        i = 0
        while i < k:
            r = shake(case, model, tree, len(X))
            par = []
            for leaf in tree.leaf_nodes:
                par.append((leaf,) + posterior(r[np.asarray(leaf.split.condition())], model.sigma.current_value(), model.k, n_trees))
            for j in range(400):
                leaf, mean, sd = par[j % len(par)]
                out[i] = (ls.step(model, leaf) - mean) / sd
                i += 1
                if i == k:
                    break
        case.count("draws", k)
        return out

    def test(z):
        ps = [stat.normal_p(z)]
        for lag in (1, 2, 7, 100, 1000, 59999, 60000, 60001):
            ps.append(stat.lag_p(z, lag) if lag < len(z) - 500 else 1.)
        half = np.sort(np.round(np.abs(z), 9))
        dup = int((half[1:] == half[:-1]).sum())
        if dup > 20 + 3e-9 * len(z) ** 2:                 # the same deviates came back, possibly mirrored
            ps.append(0.0)
        ps.append(stat.any_lag_p(z))
        ps.append(stat.any_lag_p(stats.norm.ppf(np.clip(2 * stats.norm.cdf(np.abs(z)) - 1, 1e-12, 1 - 1e-12))))
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, n, "leaf draws are not independent draws from the conjugate normal conditional", factor=1 if long else 3,
                   n_trees=n_trees, k=model.k)
    case.seen(case.index)


def insitu(case):
    """Draws made during sampling: value against the posterior of that moment."""
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[5, 10, 20, 40])
    n_trees = int(rng.choice([1, 3, 10]))
    hp = gen.hyper(rng)
    model = gen.make_model(rng, X, y, n_trees=n_trees, **hp)
    case.describe(n_trees=n_trees, **hp, **d)
    zs = []
    base = np.array(model.data.y.values, float)
    current = [None]

    class L(LeafNodeSampler):
        def step(self, m, leaf):
            rest = base - np.sum([oracle.tree_predict(t, X) for t in m.trees if t is not current[0]], axis=0) if n_trees > 1 else base
            rows = np.asarray(leaf.split.condition())
            mean, sd = posterior(rest[rows], m.sigma.current_value(), m.k, n_trees)
            out = super().step(m, leaf)
            case.check(leaf.current_value == out and np.isfinite(out), "the drawn value did not become the leaf's value")
            zs.append((out - mean) / sd)
            return out
    mon = work.Monitor(gen.real_sampler(0.5), before=lambda m, t: current.__setitem__(0, t))
    ms = gen.model_sampler(mon, L())

    def draw(k):
        del zs[:]
        while len(zs) < k:
            ms.step(model, TraceLogger())
        case.count("insitu_draws", len(zs))
        return np.array(zs)
    stat.confirmed(case, draw, stat.normal_p, 1200, "leaf values drawn while sampling do not follow the conjugate conditional")
    case.seen(case.index)


def parts():
    return [Part("exact", exact, 160, 2000, needs=("exact_draws", "large_leaves")),
            Part("distribution", distribution, 24, 160, needs=("draws",)),
            Part("insitu", insitu, 24, 300, needs=("insitu_draws",))]
