"""C30: cached samplers yield independent draws of the stated distribution."""
import copy
import pickle

import numpy as np
from scipy import stats

from vf.core import Part
from vf.stat import any_lag_p, binom_p, chi2_p, chi2_two_sided, confirmed, ks_p, normal_p

RULE = ("one case = one sampler (normal, uniform or discrete; caches from a single draw to more than is ever drawn) or several used in random interleavings, with copies taken at random moments; "
        "the recorded draws are judged by distribution, independence at every lag and within every cache, absence of replays and identity of the returned values; a state is a distinct "
        "(kind, cache size, schedule)")
ASSUMPTIONS = ["numpy's global generator is the source of randomness and may be seeded by the user; a sampler built after seeding is reproducible"]
CACHES = [1, 2, 3, 5, 8, 17, 50, 100, 333, 1000, 1001, 2500, 60000]


def build(kind, k, values=None, probas=None):
    from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler
    if kind == "normal":
        return NormalScalarSampler(k) if k else NormalScalarSampler()
    if kind == "uniform":
        return UniformScalarSampler(k) if k else UniformScalarSampler()
    kw = {"cache_size": k} if k else {}
    return DiscreteSampler(values, probas, **kw) if probas is not None else DiscreteSampler(values, **kw)


def scores(kind, x, values=None, probas=None):
    """Draws as a sequence with mean 0 and variance 1."""
    x = np.asarray(x, dtype=float)
    if kind == "normal":
        return x
    if kind == "uniform":
        return (x - .5) * np.sqrt(12)
    v, p = np.asarray(values, dtype=float), np.asarray(probas, dtype=float)
    m = (v * p).sum()
    return (x - m) / np.sqrt(((v - m) ** 2 * p).sum())


def discrete(rng, numeric=True):
    n = int(rng.choice([2, 2, 3, 5, 12]))
    p = rng.dirichlet(np.ones(n) * float(rng.choice([.5, 1., 5.]))) * .9 + .1 / n
    if n > 2 and rng.uniform() < .4:
        p[rng.randint(n)] = 0
    p = p / p.sum()
    flat = rng.uniform() < .3
    v = [float(x) for x in np.round(rng.normal(size=n) * 3, 3) + 100 * np.arange(n) * (rng.uniform() < .3)]
    if len(set(v)) < n:
        v = [float(i) for i in range(n)]
    return v, (None if flat else [float(q) for q in p]), (np.ones(n) / n if flat else p)


def distribution_p(kind, x, v, p):
    if kind == "normal":
        z = np.asarray(x, dtype=float)
        ps = [normal_p(z)] + [binom_p((s * z > t).sum(), len(z), stats.norm.sf(t)) for t in (2., 3., 4.) for s in (1, -1)]
        return min(1., len(ps) * min(ps))
    if kind == "uniform":
        z = np.asarray(x, dtype=float)
        if not (np.all(z >= 0) and np.all(z < 1)):
            return 0.
        ps = [ks_p(z, "uniform")] + [binom_p(c, len(z), t) for t in (1e-3, .01) for c in ((z < t).sum(), (z > 1 - t).sum())]
        return min(1., len(ps) * min(ps))
    o = np.array([sum(1 for y in x if y == w) for w in v], dtype=float)
    return 0. if o.sum() != len(x) else chi2_p(o, p * len(x))


def block_p(z, k):
    """Sums over whole caches vary as sums of independent draws do."""
    n = len(z) // k
    if n < 30 or k < 2:
        return 1.
    s = z[:n * k].reshape(n, k).sum(axis=1) / np.sqrt(k)
    centred = (s ** 2).sum()
    kurt = ((z ** 4).mean() - 3) / k        # excess kurtosis of the sums; widens the chi-square
    df = n / max(.1, 1 + kurt / 2)
    return chi2_two_sided(centred * df / n, df) if n >= 200 or abs(kurt) < .1 else 1.


def sequences(case):
    """One sampler on its own."""
    rng = case.rng
    kind = ["normal", "uniform", "discrete"][case.index % 3]
    k = None if rng.uniform() < .1 else int(CACHES[(case.index // 3) % len(CACHES)])
    v, given, p = discrete(rng)
    case.describe(kind=kind, cache=k, values=v if kind == "discrete" else None, probas=given)
    s = build(kind, k, v, given)
    kk = k or 1000
    n = 20000 if kk < 10000 else int(2.2 * kk)

    def draw(n):
        x = [s.sample() for _ in range(n)]
        if kind != "discrete":
            case.check(len(set(float(a) for a in x)) == n, "a draw is returned twice", n=n)
        case.count("draws", n)
        return x
    confirmed(case, draw, lambda x: distribution_p(kind, x, v, p), n, "the draws of a %s sampler do not follow its distribution" % kind, factor=2)
    q = np.asarray(p)
    confirmed(case, draw, lambda x: min(1., 2 * min(any_lag_p(scores(kind, x, v, q)), any_lag_p(scores("normal", np.array(scores(kind, x, v, q)) ** 2)) if kind != "discrete" else 1.)), n,
              "the draws of a %s sampler depend on earlier ones" % kind, factor=2)
    if kk < 1000:
        s = build(kind, k, v, given)        # caches start at draw 0
        confirmed(case, draw, lambda x: block_p(scores(kind, x, v, q), kk), max(n, 250 * kk // kk * kk) // kk * kk, "the draws of one cache of a %s sampler are not independent" % kind, factor=2)
        if kind == "discrete":
            # neighbours within and across caches
            s = build(kind, k, v, given)
            i = {w: j for j, w in enumerate(v)}

            def pairs(x):
                a = np.array([i[w] for w in x])
                lags = [1, kk, 2 * kk - 1] if kk > 1 else [1, 2]
                return min(1., len(lags) * min(chi2_p(np.bincount(a[:-g] * len(v) + a[g:], minlength=len(v) ** 2)[::1], np.outer(p, p).ravel() * (len(a) - g)) for g in lags))
            confirmed(case, draw, pairs, n, "neighbouring draws of a discrete sampler are not independent", factor=2)
    case.seen(kind, k)


def interleaved(case):
    """Several samplers, and copies of them taken at random moments, in one random interleaving."""
    rng = case.rng
    alive, draws, events = [], [], []
    for _ in range(rng.randint(2, 5)):
        kind = "normal" if rng.uniform() < .5 else "uniform"
        alive.append((kind, build(kind, int(rng.choice([1, 2, 3, 10, 100, 1000])))))
        draws.append([])
    case.describe(kinds=[a for a, _ in alive])
    n = 6000 if not case.thorough else 20000
    for step in range(n):
        u = rng.uniform()
        if u < .004 and len(alive) < 40:
            i = rng.randint(len(alive))
            kind, s = alive[i]
            how = int(rng.randint(4))
            if how == 0:
                c = copy.deepcopy(s)
            elif how == 1:
                c = pickle.loads(pickle.dumps(s))
            elif how == 2:
                c = copy.copy(s)
            else:
                c = copy.deepcopy([s, {"a": s}])[1]["a"]
            case.check(type(c) is type(s), "a copy of a sampler is of another kind")
            alive.append((kind, c))
            draws.append([])
            events.append((step, i, how))
            case.count("copies")
        else:
            run = 1 if u < .5 else int(rng.choice([2, 5, 30]))
            i = rng.randint(len(alive))
            for _ in range(run):
                draws[i].append(alive[i][1].sample())
    every = {}
    for i, x in enumerate(draws):
        for a in x:
            a = float(a)
            case.check(a not in every, "a draw is returned twice", samplers=(every.get(a), i), copies=events[:10])
            every[a] = i
    case.count("draws", len(every))
    case.count("oracle_evaluations", len(every))
    for kind in ("normal", "uniform"):
        x = [a for (k, _), l in zip(alive, draws) if k == kind for a in l]
        if len(x) > 500:
            def again(m, x=x, kind=kind):
                if m <= len(x):
                    return x
                mine = [s for k, s in alive if k == kind]
                return [mine[rng.randint(len(mine))].sample() for _ in range(m)]
            confirmed(case, again, lambda x: distribution_p(kind, x, None, None), len(x), "interleaved draws do not follow the distribution", factor=4)
    # samplers used in lockstep are independent of each other
    k = int(rng.choice([1, 3, 10, 100]))
    for kind in ("normal", "uniform"):
        a, b = build(kind, k), build(kind, int(rng.choice([k, 2 * k, 7])))
        c = copy.deepcopy(a)

        def lock(n):
            z = np.array([[a.sample(), b.sample(), c.sample()] for _ in range(n)], dtype=float)
            return scores(kind, z)

        def cross(z):
            ps = []
            for i, j in ((0, 1), (0, 2), (1, 2)):
                for lag in range(0, 6):
                    u, w = z[lag:, i], z[:len(z) - lag, j]
                    ps.append(2 * stats.norm.sf(abs((u * w).sum()) / np.sqrt(len(u))))
            return min(1., len(ps) * min(ps))
        confirmed(case, lock, cross, 4000, "samplers used together are not independent of each other", factor=4)
    case.seen(events)


class Odd:
    """A value that only has an identity."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        raise RuntimeError("values are not for comparing")

    __hash__ = None

    def __call__(self):
        return self.name


def values(case):
    """A discrete sampler hands out the very objects it was given, in the stated proportions."""
    rng = case.rng
    pools = [lambda i: i, lambda i: float(i) + .5, lambda i: "v" * (i + 1), lambda i: (i, i + 1), lambda i: [i], lambda i: {"a": i}, lambda i: None if i == 0 else i, lambda i: bool(i % 2) if i < 2 else i,
             lambda i: Odd(i), lambda i: (lambda: i), lambda i: Odd, lambda i: np.arange(i + 1), lambda i: 10 ** 20 + i, lambda i: b"x" * i, lambda i: frozenset([i])]
    n = int(rng.choice([1, 2, 3, 6]))
    same = rng.uniform() < .5
    f = pools[rng.randint(len(pools))]
    v = [(f if same else pools[rng.randint(len(pools))])(i) for i in range(n)]
    keep = list(v)
    p = rng.dirichlet(np.ones(n)) * .8 + .2 / n
    if n > 2:
        p[rng.randint(n)] = 0
    p = p / p.sum()
    flat = rng.uniform() < .3
    if flat:
        p = np.ones(n) / n
    given = None if flat else ([float(x) for x in p] if rng.uniform() < .7 else p.copy())
    k = int(rng.choice([1, 2, 7, 100, 1000]))
    case.describe(values=[str(type(x)) for x in v], probas=None if flat else list(p), cache=k)
    before = None if given is None else [float(x) for x in given]
    s = build("discrete", k, v, given)

    def draw(m):
        out = []
        for _ in range(m):
            x = s.sample()
            hit = [i for i in range(n) if keep[i] is x]
            if not hit:       # equal immutable values will do
                hit = [i for i in range(n) if type(keep[i]) is type(x) and isinstance(x, (int, float, str, bytes, bool)) and keep[i] == x]
            case.check(len(hit) > 0, "a discrete sampler returned something it was not given", got=str(type(x)), values=[str(type(a)) for a in keep])
            out.append(hit[0])
        case.count("draws", m)
        return np.array(out)

    def test(x):
        exp = np.zeros(n)
        for i in range(n):
            exp[next(j for j in range(n) if keep[j] is keep[i] or (type(keep[j]) is type(keep[i]) and isinstance(keep[i], (int, float, str, bytes, bool)) and keep[j] == keep[i]))] += p[i]
        return chi2_p(np.bincount(x, minlength=n), exp * len(x))
    confirmed(case, draw, test, 3000, "the values of a discrete sampler do not come in the stated proportions")
    c = pickle.loads(pickle.dumps(build("discrete", k, list(range(n)), given)))
    case.check(set(c.sample() for _ in range(50)) <= set(i for i in range(n) if p[i] > 0), "a pickled discrete sampler returns other values")
    case.check(all(a is b for a, b in zip(v, keep)) and len(v) == n, "sampling changed the list of values")
    if before is not None:
        case.equal([float(x) for x in given], before, "sampling changed the probabilities")
    case.seen([str(type(x)) for x in v], k)


def wide(case):
    """Hundreds to tens of thousands of values."""
    rng = case.rng
    n = int([150, 256, 257, 300, 1000, 5000, 40000, 70000][case.index % 8])
    v = [float(x) for x in rng.permutation(n)] if rng.uniform() < .5 else list(range(n))
    flat = rng.uniform() < .5
    p = np.ones(n) / n if flat else rng.dirichlet(np.ones(n))
    k = int(rng.choice([100, 1000, 5000]))
    case.describe(n=n, flat=flat, cache=k)
    s = build("discrete", k, v, None if flat else [float(q) for q in p / p.sum()])
    at = {w: i for i, w in enumerate(v)}
    cell = rng.permutation(n) % 24 if rng.uniform() < .5 else np.arange(n) * 24 // n

    def draw(m):
        x = [s.sample() for _ in range(m)]
        case.check(all(w in at for w in x), "a discrete sampler returned something it was not given")
        case.count("draws", m)
        return np.array([at[w] for w in x])
    confirmed(case, draw, lambda x: chi2_p(np.bincount(cell[x], minlength=24), np.bincount(cell, weights=p, minlength=24) * len(x)), 4000,
              "the values of a discrete sampler do not come in the stated proportions")
    case.seen(n, flat, k)


def seeding(case):
    """What a sampler returns is a function of the seed and of the draws made since."""
    rng = case.rng
    script = [(int(rng.randint(3)), int(rng.choice([1, 2, 5, 40]))) for _ in range(rng.randint(3, 30))]
    k = int(rng.choice([1, 2, 3, 10, 100]))
    v, given, _ = discrete(rng)
    dist = int(rng.choice([0, 1, 2]))

    def play(seed):
        np.random.seed(seed)
        ss = [build("normal", k), build("uniform", k), build("discrete", k, v, given)]
        if dist == 1:
            ss = copy.deepcopy(ss)
        elif dist == 2:
            ss = pickle.loads(pickle.dumps(ss))
        return [float(ss[i].sample()) for i, m in script for _ in range(m)]
    seed = int(rng.randint(2 ** 31))
    a = play(seed)
    np.random.uniform(size=rng.randint(10))
    case.describe(script=script, cache=k)
    case.equal(play(seed), a, "a seed does not reproduce the draws")
    cont = [x for (i, m) in script for x in [i] * m]
    b = play(seed + 1)
    case.check(not any(x == y for x, y, i in zip(a, b, cont) if i < 2), "another seed returns the same draws")
    case.count("draws", 3 * len(a))
    case.seen(script, k)


def inside(case):
    """Caches of any size inside the samplers of a model: leaf draws keep their spread, copies of a model do not repeat each other."""
    from bartpy.samplers.leafnode import LeafNodeSampler
    from vf import gen
    rng = case.rng
    k = int(rng.choice([1, 2, 5, 1000]))
    n = 30
    X, y = rng.normal(size=(n, 2)), rng.normal(size=n)
    model = gen.make_model(rng, X, y, n_trees=2)
    # the state of the model is settled before any draw
    for t in model.refreshed_trees() if hasattr(model, "refreshed_trees") else []:
        pass
    s = LeafNodeSampler(scalar_sampler=build("normal", k))
    tree = model.trees[0]
    leaf = tree.leaf_nodes[0]

    def draw(m):
        return np.array([float(s.sample(model, leaf)) for _ in range(m)])
    case.describe(cache=k)
    c = copy.deepcopy(s)
    a, b = draw(500), np.array([float(c.sample(model, leaf)) for _ in range(500)])
    case.check(len(np.intersect1d(a, b)) == 0, "a copy of a leaf sampler repeats its draws")
    case.check(len(np.unique(a)) == 500, "a leaf sampler repeats its own draws")

    def test(x):
        z = (x - x.mean()) / x.std()
        return min(1., 2 * min(ks_p(z, "norm"), any_lag_p(z)))
    confirmed(case, draw, test, 6000, "draws of a leaf are not independent normal draws")
    case.count("draws", 1000)
    case.seen(k)


def rare(case):
    """Discrete values far rarer than one in a cache of draws."""
    rng = case.rng
    k = int(rng.choice([2, 3, 6, 20]))
    small = 10. ** rng.uniform(-4, -2.3, size=int(rng.randint(1, k)))
    rest = rng.dirichlet(np.ones(k - len(small))) * (1 - small.sum())
    p = np.concatenate([small, rest])
    p = p[rng.permutation(k)]
    p[np.argmax(p)] += 1 - p.sum()
    cache = [None, 1000, 50, 20000][case.index % 4]
    case.describe(values=k, cache=cache, smallest=float(p.min()))
    s = build("discrete", cache, list(range(k)), list(p))

    def draw(n):
        case.count("draws", n)
        return np.bincount([s.sample() for _ in range(n)], minlength=k)

    def test(c):
        ps = [binom_p(c[i], c.sum(), p[i]) for i in range(k)]
        return min(1., k * min(ps))
    confirmed(case, draw, test, 400000, "rare values are not drawn with their probabilities", factor=2)
    case.seen(k, cache, p)


def tails(case):
    """The far tails, for which single samplers return too few draws."""
    kind = ["normal", "uniform", "normal"][case.index % 3]
    k = [None, 100000, 7, 1000][case.index % 4]
    case.describe(kind=kind, cache=k)
    s = build(kind, k)
    if kind == "normal":
        cuts = [(1, t, stats.norm.sf(t)) for t in (3., 4., 4.4)] + [(-1, t, stats.norm.sf(t)) for t in (3., 4., 4.4)]
    else:
        cuts = [(1, 1 - e, e) for e in (1e-5, 1e-4, 1e-3)] + [(-1, -e, e) for e in (1e-5, 1e-4, 1e-3)]

    def draw(n):
        case.count("draws", n)
        return np.array([s.sample() for _ in range(n)], dtype=float)

    def test(x):
        ps = [binom_p((sign * x > t).sum(), len(x), q) for sign, t, q in cuts]
        if kind == "normal":
            ps += [binom_p((np.abs(x) > 4.2).sum(), len(x), 2 * stats.norm.sf(4.2)), binom_p((np.abs(x) < 1e-3).sum(), len(x), 2 * stats.norm.cdf(1e-3) - 1)]
        return min(1., len(ps) * min(ps))
    confirmed(case, draw, test, 2000000, "the tails of a %s sampler are not those of its distribution" % kind, factor=2)
    case.seen(kind, k)


def parts():
    return [Part("sequences", sequences, 78, 600, needs=("draws", "statistical_tests")),
            Part("interleaved", interleaved, 40, 400, needs=("draws", "copies")),
            Part("values", values, 150, 2000, needs=("draws",)),
            Part("wide", wide, 16, 200, needs=("draws", "statistical_tests")),
            Part("seeding", seeding, 200, 3000, needs=("draws",)),
            Part("rare", rare, 12, 100, needs=("draws", "statistical_tests")),
            Part("tails", tails, 6, 40, needs=("draws", "statistical_tests")),
           Part("inside", inside, 24, 200, needs=("draws",))]
