"""C10: sigma is drawn from its conjugate conditional."""
import numpy as np
from scipy import stats

from vf import gen, oracle, stat
from vf.core import Part

RULE = ("one case = many model states (trees, leaf values, prior settings); every sigma draw is mapped through the exact conditional distribution function "
        "computed from an independent evaluation of the trees and the pooled results tested for uniformity and independence; a state is a distinct "
        "(data set, tree structures, prior) combination")
ASSUMPTIONS = ["frequency tests have finite resolution", "sigma_a > 0 and sigma_b > 0"]


def state(case):
    rng = case.rng
    X, y, d = gen.dataset(rng, targets=["signal", "noise", "strong", "constant", "ints", "outlier", "offset", "huge_scale", "tiny_scale"])
    if case.index % 8 == 5:
        from vf import work
        X, y, d = work.bushy_data(rng, n=int(rng.choice([1100, 3000, 8000])))
        case.count("large_data")
    n_trees = int(rng.choice([1, 2, 5, 30, 75, 210], p=[.25, .25, .2, .2, .06, .04]) if len(X) < 1000 else 2)
    a, b = float(rng.choice([0.001, 1., 3., 10.])), float(rng.choice([0.001, 0.1, 1., 5., 1e-6, 1e-9]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, sigma_a=a, sigma_b=b)
    f = gen.forcing_sampler(0.7)
    for t in model.trees:
        for _ in range(rng.randint(0, 5)):
            f.step(model, t)
        for l in t.leaf_nodes:
            l.set_value(rng.normal() * float(rng.choice([0.01, 0.2, 1.])))
    return X, y, model, a, b, d


def u_of(case, model, X, yn, a, b, s):
    ssr = float(np.sum((yn - oracle.model_predict(model, X)) ** 2))
    shape, rate = a + len(X) / 2.0, b + ssr / 2.0
    return float(stats.gamma.cdf(s ** -2, shape, scale=1 / rate))


def uniform_p(u):
    z = stats.norm.ppf(np.clip(u, 1e-15, 1 - 1e-15))
    return min(1., 2 * min(stats.kstest(u, "uniform").pvalue, stat.normal_p(z)))


def draws(case):
    """One state per case, many draws: the conditional distribution itself."""
    from bartpy.samplers.sigma import SigmaSampler
    rng = case.rng
    X, y, model, a, b, d = state(case)
    ss = SigmaSampler()
    yn = np.array(model.data.y.values, float)
    case.describe(sigma_a=a, sigma_b=b, **d)
    rng_y = float(y.max() - y.min())
    ssr = float(np.sum((yn - oracle.model_predict(model, X)) ** 2))
    shape, rate = a + len(X) / 2.0, b + ssr / 2.0

    def draw(k):
        s = np.empty(k)
        for i in range(k):
            out = ss.step(model, model.sigma)
            s[i] = out
            if i < 50:
                case.check(np.isfinite(out) and out > 0, "sigma is not positive and finite", got=out)
                case.equal(float(model.sigma.current_value()), float(out), "the drawn value did not become the model's sigma")
                case.close(model.sigma.current_unnormalized_value(), float(out) * rng_y, "the original-scale sigma is not sigma times the range of the target",
                           rtol=1e-9, atol=0)
        case.check(np.all(np.isfinite(s)) and np.all(s > 0), "sigma is not positive and finite")
        case.count("draws", k)
        return stats.gamma.cdf(s ** -2., shape, scale=1 / rate)

    def test(u):
        z = stats.norm.ppf(np.clip(u, 1e-15, 1 - 1e-15))
        ps = [uniform_p(u)] + [stat.lag_p(z, lag) for lag in (1, 2, 5)]
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, 1500 if not case.thorough else 5000, "sigma draws do not follow the conjugate conditional",
                   rows=len(X), sigma_a=a, sigma_b=b, ssr=ssr)
    case.seen(X, a, b)


def resolution(case):
    """Stumps on 1 to 1500 rows, tens of thousands of draws each: the shape of the conditional, not only its centre."""
    from bartpy.samplers.sigma import SigmaSampler
    rng = case.rng
    n = [1, 2, 3, 10, 50, 150, 401, 450, 700, 1000, 1500][case.index % 11]
    n = n + int(rng.randint(0, max(1, n // 10) + 1))
    X = rng.normal(size=(n, 1))
    y = rng.normal(size=n) * float(rng.choice([1e-6, 1., 1e6]))
    if rng.uniform() < .3:                                  # hardly anything, or nothing at all, left to explain
        y = y[0] * np.ones(n)
    a, b = float(rng.choice([0.001, 1., 3., 40.])), float(rng.choice([0.001, 1., 30., 1e-5, 1e-9]))
    model = gen.make_model(rng, X, y, n_trees=1, sigma_a=a, sigma_b=b)
    model.trees[0].leaf_nodes[0].set_value(float(rng.choice([0., 0., 1e-4, .3, 5.])))
    ssr = float(np.sum((np.array(model.data.y.values, float) - oracle.model_predict(model, X)) ** 2))
    shape, rate = a + n / 2.0, b + ssr / 2.0
    case.describe(n=n, sigma_a=a, sigma_b=b)
    ss = SigmaSampler()

    def draw(k):
        s = np.array([ss.step(model, model.sigma) for _ in range(k)], float)
        case.check(np.all(np.isfinite(s)) and np.all(s > 0), "sigma is not positive and finite")
        case.count("draws", k)
        return stats.gamma.cdf(s ** -2., shape, scale=1 / rate)

    def test(u):
        z = stats.norm.ppf(np.clip(u, 1e-15, 1 - 1e-15))
        skew = abs(np.mean(z ** 3)) / np.sqrt(15. / len(z))
        kurt = abs(np.mean(z ** 4) - 3) / np.sqrt(96. / len(z))
        ps = [uniform_p(u), 2 * stats.norm.sf(skew), stat.lag_p(z, 1), stat.lag_p(z, 2)]
        ps.append(stat.chi2_p(np.histogram(u, 50, (0, 1))[0], np.full(50, len(u) / 50.)))
        ps.append(2 * stats.norm.sf(kurt) if kurt > 8 else 1.)        # its own distribution is heavy-tailed: only gross departures
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, 12000 if not case.thorough else 40000, "sigma draws do not follow the conjugate conditional",
                   factor=3, rows=n, sigma_a=a, sigma_b=b, ssr=ssr)
    case.seen(n, a, b)
    case.count("resolved_states")


def pooled(case):
    """Many states, one draw each, also with changes between draws that a stale cache would miss."""
    from bartpy.samplers.sigma import SigmaSampler
    rng = case.rng
    ss = SigmaSampler()
    keep = [state(case) for _ in range(6)]
    f = gen.forcing_sampler(0.5)

    def draw(k):
        us = []
        for i in range(k):
            X, y, model, a, b, d = keep[rng.randint(len(keep))]
            t = model.trees[rng.randint(len(model.trees))]
            w = rng.randint(6)
            if w == 0:
                t.leaf_nodes[rng.randint(len(t.leaf_nodes))].set_value(rng.normal() * 0.5)
            elif w == 1:
                f.step(model, t)
            elif w == 2:
                t.update_y(rng.normal(size=len(X)))
            elif w == 3:                                  # a sweep over the residuals, complete or left half-way
                stop = rng.randint(len(model.trees) + 1)
                for j, s in enumerate(model.refreshed_trees()):
                    if j == stop:
                        break
                    s.leaf_nodes[rng.randint(len(s.leaf_nodes))].set_value(rng.normal() * 0.5)
                if rng.uniform() < 0.5:
                    t.leaf_nodes[rng.randint(len(t.leaf_nodes))].set_value(rng.normal() * 0.5)
                case.count("sweeps_between_draws")
            out = ss.step(model, model.sigma)
            us.append(u_of(case, model, X, np.asarray(model.data.y.values, float), a, b, out))
            case.seen(a, b, [oracle.structure(oracle.tree_shape(t)) for t in model.trees])
        case.count("draws", k)
        return np.array(us)
    stat.confirmed(case, draw, uniform_p, 800, "sigma draws do not follow the conjugate conditional of the current state")


def insitu(case):
    """Sigma draws made during sampling, and the values stored with the samples of a fit."""
    from bartpy.samplers.sigma import SigmaSampler
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[2, 5, 10, 20, 40])
    n_trees = int(rng.choice([1, 3]))
    a, b = float(rng.choice([0.001, 3.])), float(rng.choice([0.001, 1.]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, sigma_a=a, sigma_b=b)
    yn = np.array(model.data.y.values, float)
    case.describe(n_trees=n_trees, **d)
    us = []

    class S(SigmaSampler):
        def step(self, m, sigma):
            out = super().step(m, sigma)
            case.check(sigma is m.sigma and m.sigma.current_value() == out, "the drawn value did not become the model's sigma")
            us.append(u_of(case, m, X, yn, a, b, out))
            return out
    ms = gen.model_sampler(gen.real_sampler(0.5), None, S())

    def draw(k):
        del us[:]
        for _ in range(k):
            ms.step(model, TraceLogger())
        case.count("insitu_draws", len(us))
        return np.array(us)
    stat.confirmed(case, draw, uniform_p, 250, "sigma drawn while sampling does not follow its conjugate conditional")
    case.seen(case.index)


def fitted(case):
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[2, 5, 20])
    m = gen.est(n_samples=5, n_trees=int(rng.choice([1, 4])), sigma_a=float(rng.choice([0.001, 2.])), sigma_b=float(rng.choice([0.001, 2.])))
    m.fit(X, y)
    for s in m.model_samples:
        v = float(s.sigma.current_value())
        case.check(np.isfinite(v) and v > 0, "a stored sigma is not positive and finite")
        case.close(s.sigma.current_unnormalized_value(), v * float(y.max() - y.min()), "a stored original-scale sigma is not sigma times the range of the target", rtol=1e-9, atol=0)
        case.equal((s.sigma.alpha, s.sigma.beta), (m.sigma_a, m.sigma_b), "the sigma prior is not the configured one")
        case.count("stored_sigmas")
    case.describe(**d)


def parts():
    return [Part("draws", draws, 64, 600, needs=("draws", "large_data")),
            Part("resolution", resolution, 44, 330, needs=("draws", "resolved_states")),
            Part("pooled", pooled, 16, 160, needs=("draws", "sweeps_between_draws")),
            Part("insitu", insitu, 32, 300, needs=("insitu_draws",)),
            Part("fitted", fitted, 24, 200, needs=("stored_sigmas",))]
