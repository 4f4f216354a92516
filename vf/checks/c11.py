"""C11: a full Gibbs sweep leaves the BART posterior invariant."""
import numpy as np
from scipy import stats

from vf import gen, oracle, stat
from vf.core import Part

RULE = ("geweke: one case = one design, prior and number of sweeps; trees, leaf values, sigma and data are drawn from the model, the real sampler runs on the data and "
        "the state afterwards is tested against the model again over thousands of independent replicates.  kernel: one case = one tiny data set whose trees are all "
        "enumerated; the frequency of every tree after s real steps is tested against the exactly computed distribution.  A state is a distinct tree structure reached")
ASSUMPTIONS = ["default tree sampler", "tests have finite resolution (about 1500 to 6000 independent replicates per design)",
               "the tree prior is the product of alpha(1+depth)^-beta per split, one minus it per leaf and the uniform rule probabilities, over the trees the data allow"]


# ---- joint invariance -----------------------------------------------------------------------------

def geweke(case):
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    from bartpy.trace import TraceLogger
    rng = case.rng
    n = int(rng.choice([3, 5, 8, 12, 20]))
    p = int(rng.choice([1, 2, 3]))
    X, names = gen.covariates(rng, n, p, ["normal", "ints", "few_dups", "binary", "minmax_ties", "constant"])
    if not gen.usable(X):
        X[:, 0] = rng.normal(size=n)
    m = int(rng.choice([1, 2, 3, 5]))
    alpha, beta, k = float(rng.choice([0.5, 0.8, 0.95])), float(rng.choice([0.5, 1., 2.])), float(rng.choice([1., 2., 0.7]))
    pg = float(rng.choice([0.5, 0.5, 0.3, 0.7]))
    a = float(rng.choice([3., 5.]))
    scale = 0.5 / k * float(rng.choice([0.3, 0.7, 1.]))
    b = (a - 1) * scale ** 2
    sweeps = int(rng.choice([1, 2, 4]))
    tau = 0.5 / (k * np.sqrt(m))
    reps = 900 if not case.thorough else 2500
    case.describe(n=n, p=p, columns=names, n_trees=m, alpha=alpha, beta=beta, k=k, p_grow=pg, sweeps=sweeps, sigma_a=a, sigma_b=b, replicates=reps)
    sampler = gen.model_sampler(gen.real_sampler(pg))
    probe = int(rng.randint(n))

    def one():
        structs = [oracle.draw_prior_tree(rng, X, alpha, beta) for _ in range(m)]
        trees = []
        for s in structs:
            trees.append(oracle.build_tree(X, np.zeros(n), s, iter(rng.normal(size=200) * tau)))
        sig = float((b / rng.gamma(a)) ** 0.5)
        f = np.sum([oracle.tree_predict(t, X) for t in trees], axis=0)
        y = f + sig * rng.normal(size=n)
        sigma = Sigma(a, b, 1.0)
        sigma.set_value(sig)
        model = Model(gen.make_data(X, y, normalize=False), sigma, trees=trees, alpha=alpha, beta=beta, k=k)
        for _ in range(sweeps):
            sampler.step(model, TraceLogger())
        after = [oracle.structure(oracle.tree_shape(t)) for t in model.trees]
        f2 = oracle.model_predict(model, X)
        s2 = float(model.sigma.current_value())
        fresh = [oracle.draw_prior_tree(rng, X, alpha, beta) for _ in range(m)]
        case.count("sweeps", sweeps)
        for t in after[:2]:
            case.seen(t)
        z = (y - f2) / s2
        return {"sigma": stats.invgamma.cdf(s2 ** 2, a, scale=b), "f": f2[probe] / (0.5 / k), "chi2": stats.chi2.cdf((z ** 2).sum(), n),
                "z": z[probe], "cross": z[probe] * f2[probe] / (0.5 / k), "zsum": z.sum() / np.sqrt(n),
                "leaves": [leaves_of(t) for t in after], "depth": [depth_of(t) for t in after], "root": [t[1] if t[0] == "D" else -1 for t in after],
                "p_leaves": [leaves_of(t) for t in fresh], "p_depth": [depth_of(t) for t in fresh], "p_root": [t[1] if t[0] == "D" else -1 for t in fresh],
                "first_leaf": shape_first(model.trees[0]) / tau}

    def draw(kk):
        out = [one() for _ in range(kk)]
        case.count("replicates", kk)
        return out

    def two_sample(x, q):
        """Homogeneity of per-tree counts; x, q: lists of per-replicate lists.  Trees of one replicate are nearly independent; use tree 0 and the last."""
        ps = []
        for j in {0, m - 1}:
            u, v = np.array([r[j] for r in x]), np.array([r[j] for r in q])
            cats = np.unique(np.concatenate([u, v]))
            tab = np.array([[np.sum(u == c), np.sum(v == c)] for c in cats], float)
            big = tab.sum(axis=1) >= 16
            rows = list(tab[big])
            if (~big).any():
                rest = tab[~big].sum(axis=0)
                if rest.sum() >= 16:
                    rows.append(rest)
            if len(rows) > 1:
                ps.append(stats.chi2_contingency(np.array(rows), correction=False)[1])
        return min(1., min(ps) * len(ps)) if ps else 1.

    def test(rs):
        g = {key: [r[key] for r in rs] for key in rs[0]}
        ps = [stats.kstest(g["sigma"], "uniform").pvalue, stats.kstest(g["chi2"], "uniform").pvalue,
              stat.normal_p(stats.norm.ppf(np.clip(g["chi2"], 1e-12, 1 - 1e-12))),
              stat.normal_p(stats.norm.ppf(np.clip(g["sigma"], 1e-12, 1 - 1e-12))),
              stat.normal_p(g["f"]), stat.normal_p(g["z"]), stat.normal_p(g["zsum"]), stat.normal_p(g["first_leaf"]),
              2 * stats.norm.sf(abs(np.mean(g["cross"])) / (np.std(g["cross"]) / np.sqrt(len(rs)) + 1e-300)),
              two_sample(g["leaves"], g["p_leaves"]), two_sample(g["depth"], g["p_depth"]), two_sample(g["root"], g["p_root"])]
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, reps, "after sampling, the state no longer follows the model it was drawn from", factor=3,
                   n_trees=m, alpha=alpha, beta=beta, k=k, p_grow=pg, sweeps=sweeps)


def shape_first(tree):
    n = oracle.root_of(tree)
    while not oracle.is_leaf(n):
        n = n.left_child
    return float(n.current_value)


# ---- exact kernel on enumerated trees -------------------------------------------------------------

def neighbours(s, X, pg):
    """[(probability, structure)] of the proposals from s."""
    grows, prunes = [], []

    def go(t, idx, rebuild):
        if t[0] == "L":
            cols = oracle.splittable_columns(X[idx])
            if cols:
                g = []
                for j in cols:
                    vals, probs = oracle.candidates(X[idx, j])
                    g += [(w / len(cols), rebuild(("D", j, float(v), ("L",), ("L",)))) for v, w in zip(vals, probs)]
                grows.append(g)
            return
        if t[3][0] == "L" and t[4][0] == "L":
            prunes.append(rebuild(("L",)))
        left = X[idx, t[1]] <= t[2]
        go(t[3], idx[left], lambda q: rebuild((t[0], t[1], t[2], q, t[4])))
        go(t[4], idx[~left], lambda q: rebuild((t[0], t[1], t[2], t[3], q)))
    go(s, np.arange(len(X)), lambda q: q)
    a, b = (pg, 1 - pg) if grows and prunes else (1., 0.) if grows else (0., 1.)
    out = [(a / len(grows) * w, t) for g in grows for w, t in g] + [(b / len(prunes), t) for t in prunes]
    return out


def tiny(case):
    rng = case.rng
    while True:
        n = int(rng.choice([2, 3, 4, 4, 5]))
        p = int(rng.choice([1, 1, 2]))
        X, names = gen.covariates(rng, n, p, ["normal", "ints", "few_dups", "binary", "minmax_ties", "first_outlier", "last_outlier", "adjacent"])
        if not gen.usable(X):
            continue
        trees = oracle.enumerate_trees(X)
        if 2 <= len(trees) <= 250:
            return X, names, trees


def deep(case):
    """Designs on which trees of four levels and more carry weight: the depth-dependent part of the prior."""
    rng = case.rng
    n = [6, 7, 6, 5][case.index % 4]
    X = rng.permutation(n).astype(float)[:, None]
    if n == 5:
        X = np.column_stack([X, rng.randint(2, size=n)])
    hp = dict(alpha=float(rng.choice([.95, .98, .9])), beta=float(rng.choice([.3, .6, 1., 1.5])), k=2.)
    compare(case, X, ["ranks"], oracle.enumerate_trees(X), hp, [4., 10., 1.][case.index % 3], int(rng.choice([6, 12])), "posterior", False)
    case.count("deep_designs")


def kernel(case):
    rng = case.rng
    X, names, trees = tiny(case)
    hp = dict(alpha=float(rng.choice([0.5, 0.95, 0.8])), beta=float(rng.choice([0., 1., 2.])), k=float(rng.choice([1., 2.])))
    start = "posterior" if case.index % 2 == 0 else "stump"
    compare(case, X, names, trees, hp, float(rng.choice([0.3, 1., 2.])), int(rng.choice([1, 2, 3, 6, 12, 25])), start, True)


def leaves_of(struct):
    return 1 if struct[0] == "L" else leaves_of(struct[3]) + leaves_of(struct[4])


def depth_of(struct):
    return 0 if struct[0] == "L" else 1 + max(depth_of(struct[3]), depth_of(struct[4]))


def compare(case, X, names, trees, hp, noise, steps, start, leaves):
    rng = case.rng
    n = len(X)
    pg = float(rng.choice([0.5, 0.3, 0.7, 0.85]))
    m = int(rng.choice([1, 1, 3]))
    tau = 0.5 / (hp["k"] * np.sqrt(m))
    sig = tau * noise
    r = rng.normal(size=n) * tau * float(rng.choice([0.5, 1.5]))
    structs = [t[0] for t in trees]
    logw = np.array([oracle.log_post_structure(t[0], X, r, sig, tau, hp["alpha"], hp["beta"]) + t[1] for t in trees])
    post = np.exp(logw - logw.max())
    post /= post.sum()
    index = {s: i for i, s in enumerate(structs)}
    Q = np.zeros((len(structs),) * 2)
    for i, s in enumerate(structs):
        for w, t in neighbours(s, X, pg):
            Q[i, index[t]] += w
    P = np.zeros_like(Q)
    for i in range(len(structs)):
        for j in np.nonzero(Q[i])[0]:
            P[i, j] = Q[i, j] * min(1., np.exp(logw[j] - logw[i]) * Q[j, i] / Q[i, j])
        P[i, i] = 1 - P[i].sum()
    case.check(np.allclose(post @ P, post, atol=1e-12), "internal: the reference kernel does not leave the reference posterior invariant")
    p0 = post if start == "posterior" else np.eye(len(structs))[index[("L",)]]
    want = p0 @ np.linalg.matrix_power(P, steps)
    reps = (1500 if leaves else 2500) if not case.thorough else 6000
    groups = [np.array([f(s) for s in structs]) for f in (depth_of, leaves_of)]
    case.describe(n=n, columns=names, trees=len(structs), steps=steps, start=start, p_grow=pg, n_trees=m, sigma=sig, replicates=reps, **hp)
    model = gen.make_model(rng, X, r, n_trees=m, normalize=False, **hp)
    model.sigma.set_value(sig)
    sampler = gen.real_sampler(pg)
    from bartpy.samplers.leafnode import LeafNodeSampler
    ls = LeafNodeSampler()

    def draw(k):
        hits = np.zeros(len(structs))
        for i in rng.choice(len(structs), size=k, p=p0):
            tree = oracle.build_tree(X, r, structs[i], iter(rng.normal(size=50)))
            tree.update_y(r)
            model.trees[0] = tree
            for _ in range(steps):
                sampler.step(model, tree)
                for l in tree.leaf_nodes if leaves else ():
                    ls.step(model, l)
            got = oracle.structure(oracle.tree_shape(tree))
            case.check(got in index, "sampling reached a tree that should be unreachable", tree=got)
            hits[index[got]] += 1
        case.count("replicates", k)
        case.count("tree_steps", k * steps)
        for j in np.nonzero(hits)[0]:
            case.seen(structs[j], X)
        return hits

    def test(h):
        ps = [stat.chi2_p(h, want * h.sum())]
        for g in groups:
            ps.append(stat.chi2_p([h[g == v].sum() for v in np.unique(g)], [want[g == v].sum() * h.sum() for v in np.unique(g)]))
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, reps,
                   "the frequency of trees after %d steps from the %s is not that of the Metropolis-Hastings sampler of the exact posterior" % (steps, start), **hp)


def parts():
    return [Part("geweke", geweke, 24, 160, needs=("replicates", "sweeps"), cpu=900),
            Part("deep", deep, 24, 240, needs=("replicates", "deep_designs"), cpu=900),
            Part("kernel", kernel, 40, 400, needs=("replicates", "tree_steps"), cpu=900)]
