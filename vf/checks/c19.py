"""C19: chains are isolated and independent under every schedule."""
import copy
import os
import random
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import joblib
import numpy as np

from vf import gen, oracle
from vf.core import REPO, Part

RULE = ("one case = one multi-chain fit (sequential, threads with injected delays and a 1 microsecond switch interval, or worker processes); every tree step of every chain is "
        "logged with its thread and model and every stored draw is matched to the states of exactly one chain; a state is a distinct interleaving of chains (threads) or a distinct set of chains")
ASSUMPTIONS = ["joblib backends sequential, threading and loky (the forking 'multiprocessing' backend clones numpy's generator, which is outside the code)",
               "draws count as repeated when at least two leaf or sigma draws agree to 1e-10, or when acceptance patterns of 40 or more fair coin flips agree exactly at some shift"]


class Log:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = []                  # (thread, model key) in global order
        self.models = {}                  # id(model) -> record; keeps the model alive so that ids stay unique

    def __deepcopy__(self, memo):
        return self

    def record(self, model):
        with self.lock:
            r = self.models.get(id(model))
            if r is None:
                r = self.models[id(model)] = {"model": model, "threads": set(), "steps": 0, "states": [], "sigmas": [], "accepted": [], "key": len(self.models), "bad": None}
            return r


class Recorder(gen.TreeSamplerWrapper):
    """Logs every step; delays it now and then."""

    def __init__(self, inner, log, y, delay=0.0, seed=0):
        super().__init__(inner)
        self.log, self.y, self.delay, self.seed = log, y, delay, seed

    def __deepcopy__(self, memo):
        return Recorder(copy.deepcopy(self.inner, memo), self.log, self.y, self.delay, self.seed)

    def node_statistics(self, model, tree, r):
        """The sums, counts and splittable columns the sampler relies on, of every leaf, against the leaf's rows of the chain's own data."""
        X, v = model.data.X.values, np.asarray(node_target(tree))
        for l in tree.leaf_nodes:
            rows = np.asarray(l.split.condition())
            s, n = l.data.y.summed_y(), l.data.X.n_obsv
            if n != rows.sum() or abs(s - v[rows].sum()) > 1e-8 * (1 + np.abs(v).sum()):
                return {"step": r["steps"], "leaf_rows": int(rows.sum()), "count": int(n), "sum": float(s), "expected": float(v[rows].sum())}
            cols = sorted(int(j) for j in l.data.X.splittable_variables())
            if cols != oracle.splittable_columns(X[rows]):
                return {"step": r["steps"], "splittable": cols, "expected": oracle.splittable_columns(X[rows])}
        return None

    def pause(self, r):
        if self.delay:
            u = (hash((self.seed, r["key"], r["steps"])) % 1000) / 1000.
            if u < 0.3:
                time.sleep(self.delay * u)

    def step(self, model, tree):
        log = self.log
        r = log.record(model)
        me = threading.get_ident()
        log.events.append((me, r["key"]))
        r["threads"].add(me)
        if tree is model.trees[0]:
            r["states"].append(tuple(oracle.tree_shape(t) for t in model.trees))
            r["sigmas"].append(float(model.sigma.current_value()))
        self.pause(r)
        others = np.sum([t.predict() for t in model.trees if t is not tree] + [np.zeros(len(self.y))], axis=0)
        want = self.y - others
        got = np.asarray(node_target(tree))
        if r["bad"] is None and not np.allclose(got, want, rtol=0, atol=1e-8):
            r["bad"] = {"step": r["steps"], "got": got[:5], "expected": want[:5]}
        out = self.inner.step(model, tree)
        self.pause(r)
        if r["bad"] is None:
            r["bad"] = self.node_statistics(model, tree, r)
        r["accepted"].append(out is not None)
        r["steps"] += 1
        return out


class Preempt:
    """Gives other threads a turn between lines of the library's code: every thread started while it is active is traced."""

    def __init__(self, seed, p, sleep):
        self.seed, self.p, self.sleep, self.where = seed, p, sleep, os.path.realpath(REPO) + os.sep + "bartpy"
        self.state = threading.local()
        self.known = {}
        self.yields = 0
        self.lines = set()

    def ours(self, code):
        r = self.known.get(code)
        if r is None:
            r = self.known[code] = os.path.realpath(code.co_filename).startswith(self.where)
        return r

    def call(self, frame, event, arg):
        return self.line if self.ours(frame.f_code) else None

    def line(self, frame, event, arg):
        if event == "line":
            rng = getattr(self.state, "rng", None)
            if rng is None:
                rng = self.state.rng = random.Random(self.seed * 1000003 + threading.get_ident())
            if rng.random() < self.p:
                self.yields += 1
                self.lines.add((frame.f_code.co_name, frame.f_lineno))
                time.sleep(self.sleep * rng.random())
        return self.line

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        threading.settrace(self.call)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        sys.setswitchinterval(self.old)


def node_target(tree):
    return oracle.root_of(tree).data.y.values


class SlowInitializer:
    """Initialises nothing, slowly: widens the window between building a model and using it."""

    def __init__(self, delay):
        self.delay = delay

    def initialize_tree(self, tree):
        time.sleep(self.delay)

    def initialize_trees(self, trees):
        for t in trees:
            time.sleep(self.delay)


def norm(y):
    r = y.max() - y.min()
    return (y - y.min()) / r - 0.5 if r > 0 else np.zeros(len(y))


def problem(rng, n=None):
    n = int(n or rng.choice([8, 20, 40]))
    X, names = gen.covariates(rng, n, int(rng.randint(1, 4)), ["normal", "ints", "uniform", "binary", "few_dups"])
    X[0, 0], X[-1, 0] = -4., 4.
    y, _ = gen.target(rng, X, "signal")
    return X, y


def recorded(n_samples, thin):
    return [i for i in range(n_samples) if np.ceil(np.round(thin * (i + 1), 9)) > np.ceil(np.round(thin * i, 9))]


def sample_state(s):
    return tuple(oracle.tree_shape(t) for t in s.trees)


def objects(model):
    out = {}
    for t in model.trees:
        out[id(t)] = "tree"
        for n in t.nodes:
            out[id(n)] = "node"
    out[id(model.sigma)] = "sigma"
    return out


def check_log(case, m, log, args, X, y, threads):
    """The chains that ran, against what the estimator exposes."""
    C, nb, ns, T = args["n_chains"], args["n_burn"], args["n_samples"], args["n_trees"]
    recs = sorted(log.models.values(), key=lambda r: r["key"])
    case.equal(len(recs), C, "the number of models sampled is not the number of chains")
    for r in recs:
        case.equal(r["steps"], T * (nb + ns), "a chain was not sampled for exactly its burn-in and samples")
        case.equal(len(r["threads"]), 1, "one chain's model was sampled by more than one thread")
        case.check(r["bad"] is None, "a tree of a chain was not fitted to the residual of that chain's other trees, or its nodes carry statistics of other rows", **(r["bad"] or {}))
        case.close(np.asarray(r["model"].data.y.values), norm(y), "a chain samples a different target", rtol=0, atol=1e-9)
        case.close(np.asarray(r["model"].data.X.values), X, "a chain samples different covariates", rtol=0, atol=0)
    seen = {}
    for r in recs:
        for i, kind in objects(r["model"]).items():
            case.check(i not in seen, "two chains share a %s" % kind)
            seen[i] = r["key"]
    idx = recorded(ns, args["thin"])
    case.equal(len(m.model_samples), C * len(idx), "the estimator does not hold the draws of every chain")
    chains = [list(m.model_samples[i * len(idx):(i + 1) * len(idx)]) for i in range(C)]
    used = set()
    for c, chain in enumerate(chains):
        st = [sample_state(s) for s in chain]
        sg = [float(s.sigma.current_value()) for s in chain]
        match = []
        for r in recs:
            final = tuple(oracle.tree_shape(t) for t in r["model"].trees)
            states = r["states"] + [final]
            sig = r["sigmas"] + [float(r["model"].sigma.current_value())]
            want = [states[nb + i + 1] for i in idx]
            wsig = [sig[nb + i + 1] for i in idx]
            if want == st and wsig == sg:
                match.append(r["key"])
        case.check(len(match) == 1, "the draws of a chain are not the states of exactly one sampled model", chain=c, matches=match)
        case.check(match[0] not in used, "two chains hold the same draws")
        used.add(match[0])
        if args.get("store_in_sample_predictions"):
            P = m.prediction_samples[c * len(idx):(c + 1) * len(idx)]
            for s, p in zip(chain, P):
                case.close(p, oracle.model_predict(s, X), "an in-sample prediction is not its own draw's", rtol=0, atol=1e-9)
    check_estimator(case, m, X, y)
    case.count("chains", C)
    case.count("steps_logged", sum(r["steps"] for r in recs))
    if threads:
        order = [k for _, k in log.events]
        switches = sum(a != b for a, b in zip(order, order[1:]))
        case.count("chain_switches", switches)
        case.count("threads", len({t for t, _ in log.events}))
        case.seen(order)
    else:
        case.seen([r["states"][-1] for r in recs])


def check_estimator(case, m, X, y):
    t = 1e-9 * (np.abs(y).max() + 1e-300)
    case.close(np.asarray(m.data.y.unnormalized_y), y, "the estimator's data is not the data it was fitted on", rtol=0, atol=t)
    case.close(np.asarray(m.data.X.values), X, "the estimator's data is not the data it was fitted on", rtol=0, atol=0)
    case.close(np.asarray(m.model.data.y.unnormalized_y), y, "the estimator's model is not one of the data it was fitted on", rtol=0, atol=t)
    case.close(np.asarray(m.model.data.X.values), X, "the estimator's model is not one of the data it was fitted on", rtol=0, atol=0)


def random_args(rng, chains=(2, 3, 4)):
    return dict(n_trees=int(rng.choice([1, 2, 4])), n_chains=int(rng.choice(chains)), n_samples=int(rng.choice([2, 5, 12])), n_burn=int(rng.choice([0, 3, 6])),
                thin=float(rng.choice([1., 1., .5, .3])), store_in_sample_predictions=bool(rng.uniform() < 0.5), store_acceptance_trace=bool(rng.uniform() < 0.5),
                n_jobs=1)


def inner_sampler(rng):
    pg = float(rng.choice([0.5, 0.7]))
    return gen.forcing_sampler(pg) if rng.uniform() < 0.4 else gen.real_sampler(pg)


def sequential(case):
    rng = case.rng
    X, y = problem(rng, None if case.index % 8 else int(rng.choice([1500, 5000])))
    args = random_args(rng, (1, 2, 3, 5, 9, 13))
    case.describe(n=len(X), **args)
    log = Log()
    m = gen.est(tree_sampler=Recorder(inner_sampler(rng), log, norm(y)), **args)
    m.fit(X, y)
    check_log(case, m, log, args, X, y, False)


def threaded(case):
    rng = case.rng
    X, y = problem(rng)
    args = random_args(rng, (2, 3, 4, 4, 10))
    args.update(n_samples=int(rng.choice([4, 10])), n_jobs=int(rng.choice([2, 3, 4, -1])))
    delay = float(rng.choice([0., 0.0005, 0.003]))
    init = SlowInitializer(float(rng.choice([0., 0.001, 0.004]))) if rng.uniform() < 0.6 else None
    case.describe(n=len(X), delay=delay, init=None if init is None else init.delay, **args)
    log = Log()
    m = gen.est(tree_sampler=Recorder(inner_sampler(rng), log, norm(y), delay, case.index), initializer=init, **args)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with joblib.parallel_backend("threading", n_jobs=args["n_jobs"] if args["n_jobs"] > 0 else 8):
            m.fit(X, y)
    finally:
        sys.setswitchinterval(old)
    check_log(case, m, log, args, X, y, True)


def many_chains(case):
    """More chains than workers or cores, sequentially and in threads: each one is run, and runs in full."""
    rng = case.rng
    X, y = problem(rng, int(rng.choice([4, 9])))
    args = random_args(rng, (11, 17, 20, 33, 48))
    args.update(n_samples=int(rng.choice([1, 2, 4])), n_burn=int(rng.choice([0, 2])), n_trees=1, n_jobs=[1, 2, -1, 4, 3, 1, 64][case.index % 7])
    case.describe(n=len(X), **args)
    log = Log()
    m = gen.est(tree_sampler=Recorder(inner_sampler(rng), log, norm(y), 0., case.index), **args)
    case.equal(len(m.f_delayed_chains(X, y)), args["n_chains"], "the number of chains prepared is not the number asked for")
    with joblib.parallel_backend("threading", n_jobs=args["n_jobs"] if args["n_jobs"] > 0 else 8):
        m.fit(X, y)
    check_log(case, m, log, args, X, y, args["n_jobs"] != 1)
    case.count("many_chain_fits")


def preempted(case):
    """Chains in threads, switched between single lines of the library."""
    rng = case.rng
    X, y = problem(rng, int(rng.choice([8, 20, 300])))
    args = random_args(rng, (2, 3))
    args.update(n_samples=int(rng.choice([3, 6])), n_burn=int(rng.choice([0, 2])), n_trees=int(rng.choice([1, 2, 3])), n_jobs=3)
    p, sleep = [(0.02, 1e-4), (0.005, 1e-3), (0.1, 0.), (0.5, 0.)][case.index % 4]
    case.describe(n=len(X), p=p, sleep=sleep, **args)
    log = Log()
    m = gen.est(tree_sampler=Recorder(inner_sampler(rng), log, norm(y), 0., case.index), **args)
    with Preempt(case.index, p, sleep) as pre:
        with joblib.parallel_backend("threading", n_jobs=3):
            m.fit(X, y)
    check_log(case, m, log, args, X, y, True)
    case.count("line_yields", pre.yields)
    case.count("lines_preempted", len(pre.lines))
    # prediction and residuals of one estimator from several threads at once
    Z = np.concatenate([X, gen.predict_rows(rng, X, 6)])
    want = [np.mean([oracle.model_predict(s, Z) for s in m.model_samples], axis=0)]
    lo, hi = y.min(), y.max()
    want = lo + (want[0] + .5) * (hi - lo) if hi > lo else None
    with Preempt(case.index + 7, min(p * 3, .5), sleep):
        with ThreadPoolExecutor(3) as ex:
            got = list(ex.map(lambda k: np.asarray(m.predict(Z if k % 2 else Z[:len(X)])), range(6)))
    if want is not None:
        for k, g in enumerate(got):
            case.close(g, want if k % 2 else want[:len(X)], "predictions made at the same time disturb each other", rtol=1e-9, atol=1e-8 * (hi - lo))
        case.count("concurrent_predictions", len(got))


def concurrent_fits(case):
    """Several estimators fitted at the same time in threads, sharing one tree sampler object."""
    rng = case.rng
    k = int(rng.choice([2, 3]))
    shared = inner_sampler(rng)
    jobs = []
    for i in range(k):
        X, y = problem(rng)
        args = random_args(rng, (1, 2))
        log = Log()
        jobs.append((gen.est(tree_sampler=Recorder(shared, log, norm(y), 0.001, i), **args), X, y, args, log))
    case.describe(fits=k)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(k)

    def go(j):
        gate.wait()
        j[0].fit(j[1], j[2])
    try:
        with ThreadPoolExecutor(k) as ex:
            list(ex.map(go, jobs))
    finally:
        sys.setswitchinterval(old)
    for m, X, y, args, log in jobs:
        check_log(case, m, log, args, X, y, True)
    case.count("concurrent_fits", k)


def same_estimator_again(case):
    """Refitting one estimator on other data, chains in threads: it ends up describing the last data."""
    rng = case.rng
    X, y = problem(rng)
    m = gen.est(n_chains=3, n_trees=2, n_samples=4, initializer=SlowInitializer(0.0005))
    with joblib.parallel_backend("threading", n_jobs=3):
        m.fit(X, y)
        check_estimator(case, m, X, y)
        X2, y2 = problem(rng, len(X) + 3)
        y2 = y2 * 7 - 100
        m.fit(X2, y2)
    check_estimator(case, m, X2, y2)
    case.check(all(len(s.trees) == 2 for s in m.model_samples) and len(m.model_samples) == 3 * 4, "a refit keeps draws of an earlier fit")
    case.count("refits")


# ---- draws ----------------------------------------------------------------------------------------

class FairCoin:
    """A likelihood ratio of one half: acceptance is a fair coin flip (picklable, for worker processes)."""

    def log_probability_ratio(self, model, tree, mutation):
        return float(np.log(0.5))


def coin_sampler(pg=0.5):
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    return UnconstrainedTreeMutationSampler(gen.proposer(pg), FairCoin())


def standardised_draws(m, y, args):
    """Per chain, the standard normal and gamma variates behind the stored draws of a one-leaf one-tree model."""
    v = norm(y)
    n = len(v)
    k = args["n_samples"]
    sm = 0.5 / 2.0
    out = []
    for c in range(args["n_chains"]):
        chain = list(m.model_samples[c * k:(c + 1) * k])
        z, g = [], []
        for prev, cur in zip(chain, chain[1:]):
            s2 = float(prev.sigma.current_value()) ** 2
            mu = sample_state(cur)[0][1]
            var = 1. / (n / s2 + 1. / sm ** 2)
            z.append((mu - var * v.sum() / s2) / np.sqrt(var))
            g.append((0.001 + 0.5 * np.sum((v - mu) ** 2)) / float(cur.sigma.current_value()) ** 2)
        out.append((np.array(z), np.array(g)))
    return out


def check_distinct(case, draws, what):
    for kind in (0, 1):
        for i in range(len(draws)):
            for j in range(i):
                a, b = draws[i][kind], draws[j][kind]
                dup = int((np.abs(a[:, None] - b[None, :]) < 1e-10 * np.maximum(1, np.abs(b[None, :]))).sum())
                case.check(dup < 2, "%s repeat each other's %s draws" % (what, ("leaf", "sigma")[kind]), pair=(i, j), repeated=dup, of=len(a))
                case.count("draw_sets_compared")
    case.count("draws", sum(len(d[0]) + len(d[1]) for d in draws))


def check_patterns(case, pats, what):
    """No two 0/1 patterns may agree exactly at any shift over 40 or more flips."""
    for i in range(len(pats)):
        for j in range(i):
            a, b = np.asarray(pats[i], dtype=int), np.asarray(pats[j], dtype=int)
            for s in range(-(len(b) - 40), len(a) - 40 + 1):
                lo, hi = max(0, s), min(len(a), len(b) + s)
                if hi - lo >= 40:
                    case.check(not np.array_equal(a[lo:hi], b[lo - s:hi - s]), "%s repeat each other's acceptance decisions" % what, pair=(i, j), shift=s, length=hi - lo)
            case.count("patterns_compared")


def fit_backend(m, X, y, backend):
    if backend == "threading":
        with joblib.parallel_backend("threading", n_jobs=3):
            return m.fit(X, y)
    return m.fit(X, y)


def warm(case, sampler):
    """Use the sampler object directly, so that whatever it keeps between draws is part-used when it is copied."""
    rng = case.rng
    X, y = problem(rng, 12)
    model = gen.make_model(rng, X, y, n_trees=1)
    for _ in range(int(rng.choice([1, 3, 20]))):
        sampler.step(model, model.trees[0])


def draws(case, backend=None):
    """Leaf, sigma, acceptance and proposal draws of chains and of successive fits, with sampler objects already in use."""
    rng = case.rng
    backend = backend or ["sequential", "threading"][case.index % 2]
    C = int(rng.choice([2, 3]))
    n_jobs = 2 if backend == "loky" else 1
    sampler = gen.real_sampler(0.5) if rng.uniform() < 0.7 else None
    # leaf and sigma draws
    n = int(rng.choice([5, 20]))
    X = np.ones((n, 2))
    y = rng.normal(size=n) * 3
    args = dict(n_trees=1, n_chains=C, n_samples=40, n_burn=int(rng.choice([0, 2])), thin=1., n_jobs=n_jobs)
    case.describe(backend=backend, n_chains=C)
    all_draws = []
    kw = {} if sampler is None else {"tree_sampler": sampler}
    if sampler is not None:
        warm(case, sampler)
    m = gen.est(**args, **kw)
    if rng.uniform() < 0.5:                                  # use the estimator's own sampler outside a fit first
        md = gen.make_model(rng, X, y, n_trees=1)
        m.sampler.samples(md, 3, 2, 1.)
    all_draws += standardised_draws(fit_backend(m, X, y, backend), y, args)
    all_draws += standardised_draws(fit_backend(m, X, y, backend), y, args)
    if backend != "loky":
        other = gen.est(**args, **kw)
        all_draws += standardised_draws(fit_backend(other, X, y, backend), y, args)
    check_distinct(case, all_draws, "chains")
    # acceptance decisions
    X, y = problem(rng, 30)
    flips = coin_sampler(0.5)
    warm(case, flips)
    args = dict(n_trees=1, n_chains=C, n_samples=80, n_burn=0, thin=1., n_jobs=n_jobs, store_acceptance_trace=True, tree_sampler=flips)
    pats, paths = [], []
    m = gen.est(**args)
    for _ in range(1 if backend == "loky" else 2):
        fit_backend(m, X, y, backend)
        acc = [a["Tree"] for a in m.acceptance_trace]
        case.equal(len(acc), C * 80, "the acceptance trace is not that of all chains")
        pats += [acc[c * 80:(c + 1) * 80] for c in range(C)]
        paths += [[oracle.structure(sample_state(s)[0]) for s in m.model_samples[c * 80:(c + 1) * 80]] for c in range(C)]
    check_patterns(case, pats, "chains")
    for i in range(len(paths)):
        for j in range(i):
            case.check(paths[i] != paths[j], "two chains take the same path through the trees", pair=(i, j))
    # proposals: every one accepted, so the leaf count going up or down shows the kind of move drawn
    force = gen.forcing_sampler(0.5)
    warm(case, force)
    m = gen.est(**dict(args, tree_sampler=force))
    ups = []
    for _ in range(1 if backend == "loky" else 2):
        fit_backend(m, X, y, backend)
        for c in range(C):
            counts = [oracle.n_leaves(sample_state(s)[0]) for s in m.model_samples[c * 80:(c + 1) * 80]]
            up = [(int(b > a), a) for a, b in zip([1] + counts, counts)]
            ups.append([u for u, a in up])
    check_patterns(case, ups, "chains (kind of move)")
    case.seen(pats, ups)
    case.count("independent_fits")


def processes(case):
    """Worker processes: same number and length of chains as sequentially, each a coherent chain of its own."""
    rng = case.rng
    X, y = problem(rng)
    args = random_args(rng, [(2, 3, 4), (7, 10)][case.index % 2])
    args["n_jobs"] = int(rng.choice([2, 3]))
    case.describe(n=len(X), **args)
    # a fit in this process first, so that a generator state inherited by the workers would show
    gen.est(n_trees=1, n_samples=2).fit(X, y)
    m = gen.est(**args).fit(X, y)
    idx = recorded(args["n_samples"], args["thin"])
    case.equal(len(m.model_samples), args["n_chains"] * len(idx), "the number of draws depends on n_jobs")
    chains = [[(sample_state(s), float(s.sigma.current_value())) for s in m.model_samples[c * len(idx):(c + 1) * len(idx)]] for c in range(args["n_chains"])]
    for i in range(len(chains)):
        for j in range(i):
            case.check(all(a[1] != b[1] for a in chains[i] for b in chains[j]), "two chains hold the same sigma")
    if args["store_in_sample_predictions"]:
        for s, p in zip(m.model_samples, m.prediction_samples):
            case.close(p, oracle.model_predict(s, X), "an in-sample prediction is not its own draw's", rtol=0, atol=1e-9)
    if args["store_acceptance_trace"]:
        case.equal(len(m.acceptance_trace), len(m.model_samples), "the acceptance trace is not that of all chains")
    check_estimator(case, m, X, y)
    case.count("process_fits")
    case.seen(chains)


def process_draws(case):
    draws(case, "loky")


def parts():
    return [Part("sequential", sequential, 64, 800, needs=("chains", "steps_logged")),
            Part("threaded", threaded, 48, 500, needs=("chains", "chain_switches", "threads")),
            Part("many_chains", many_chains, 21, 140, needs=("chains", "many_chain_fits")),
            Part("preempted", preempted, 24, 300, needs=("chains", "chain_switches", "line_yields", "concurrent_predictions")),
            Part("concurrent_fits", concurrent_fits, 16, 200, needs=("concurrent_fits", "chain_switches")),
            Part("same_estimator_again", same_estimator_again, 12, 100, needs=("refits",)),
            Part("draws", draws, 24, 200, needs=("draws", "patterns_compared", "independent_fits")),
            Part("processes", processes, 4, 20, needs=("process_fits",), serial=True),
            Part("process_draws", process_draws, 2, 8, needs=("draws", "patterns_compared"), serial=True)]
