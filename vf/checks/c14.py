"""C14: stored samples are frozen, complete and self-contained."""
import gc
import types

import numpy as np

from vf import gen, oracle, work
from vf.core import Part, digest

RULE = ("one case = one model sampled for a while; samples are stored at random points, fingerprinted (structure, links, conditions, values, sigma, prior settings, predictions) "
        "against the live model at once and again after further sampling, mutation, tampering and refitting; a state is a distinct fingerprint of a stored sample with a split")
ASSUMPTIONS = ["leaf values and thresholds are compared exactly"]


def fingerprint(model, Z):
    return {"trees": [oracle.tree_shape(t) for t in model.trees],
            "n_nodes": [len(t.nodes) for t in model.trees],
            "conditions": [sorted(np.asarray(n.split.condition(Z)).tobytes() for n in t.nodes) for t in model.trees],
            "prediction": np.asarray(model.predict(Z)).tolist(),
            "sigma": (float(model.sigma.current_value()), float(model.sigma.current_unnormalized_value()), float(model.sigma.alpha), float(model.sigma.beta)),
            "prior": (float(model.alpha), float(model.beta), float(model.k), int(model.n_trees), round(float(model.sigma_m), 12))}


def same(case, got, want, what):
    for k in want:
        case.equal(got[k], want[k], what + ": " + k)


def self_contained(case, sample, X, others):
    for t in sample.trees:
        ids = {id(n) for n in t.nodes}
        root = oracle.root_of(t)
        case.check({id(n) for n in oracle.reachable(root)} == ids, "a stored tree cannot be walked through its own nodes")
        for o in others:
            case.check(not (ids & {id(n) for tt in o.trees for n in tt.nodes}), "a stored sample shares nodes with another model")
        case.equal(sorted(id(n) for n in t.leaf_nodes), sorted(id(n) for n in oracle.reachable(root) if oracle.is_leaf(n)), "the leaf view of a stored tree is wrong")
        case.equal(sorted(id(n) for n in t.decision_nodes), sorted(id(n) for n in oracle.reachable(root) if not oracle.is_leaf(n)), "the decision view of a stored tree is wrong")
        case.equal(sorted(id(n) for n in t.prunable_decision_nodes),
                   sorted(id(n) for n in oracle.reachable(root) if not oracle.is_leaf(n) and oracle.is_leaf(n.left_child) and oracle.is_leaf(n.right_child)),
                   "the prunable view of a stored tree is wrong")


def heap(sample):
    """Everything reachable from a stored sample, without classes, modules and functions."""
    skip = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.GetSetDescriptorType)
    seen, stack, out = set(), [sample], []
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, skip):
            continue
        seen.add(id(o))
        out.append(o)
        stack.extend(gc.get_referents(o))
    return out


def no_data(case, sample, X):
    from bartpy.data import CovariateMatrix, Data, Target
    for o in heap(sample):
        case.check(not isinstance(o, (Data, CovariateMatrix, Target)), "a stored sample holds on to the training data", kind=type(o).__name__)
        if isinstance(o, np.ndarray):
            case.check(len(X) < 50 or o.size < len(X) or o.size <= 4 * X.shape[1], "a stored sample holds on to an array as large as the training data", shape=o.shape)
    case.count("heap_walks")


def live(case):
    from bartpy.model import deep_copy_model
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.dataset(rng)
    if len(X) > 300:
        X, y = X[:300], y[:300]
    hp = gen.hyper(rng)
    n_trees = gen.n_trees(rng, [1, 2, 4, 10])
    init = None
    if rng.uniform() < 0.2:
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        X = X.astype(np.float32).astype(float)
        X[~np.isfinite(X)] = 0.
        init = SklearnTreeInitializer(max_depth=3)
    model = gen.make_model(rng, X, y, n_trees=n_trees, initializer=init, sigma_a=float(rng.choice([0.001, 2.])), **hp)
    case.describe(n_trees=n_trees, **hp, **d)
    Z = np.concatenate([X[:40], gen.predict_rows(rng, X, 20)])
    f, r = gen.forcing_sampler(0.65), gen.real_sampler(0.5)
    ms = gen.model_sampler(f if rng.uniform() < 0.5 else r)
    stored = []

    def store():
        want = fingerprint(model, Z)
        via = (lambda m: TraceLogger()["Model"](m)) if rng.uniform() < 0.5 else deep_copy_model
        s = via(model)
        same(case, fingerprint(s, Z), want, "a stored sample differs from the model it was taken from")
        self_contained(case, s, X, [model] + [o for o, _ in stored[-3:]])
        if rng.uniform() < 0.4:
            no_data(case, s, X)
        same(case, fingerprint(model, Z), want, "storing changed the live model")
        stored.append((s, want))
        case.count("stored")
        if any(t[0] == "D" for t in want["trees"]):
            case.seen(want["trees"], want["sigma"])

    def tamper():
        i = rng.randint(len(stored))
        s, _ = stored.pop(i)
        before = fingerprint(model, Z)
        rest = [(o, w) for o, w in stored]
        t = s.trees[rng.randint(len(s.trees))]
        for l in t.leaf_nodes:
            l.set_value(99.)
        s.sigma.set_value(123.)
        pr = list(t.prunable_decision_nodes)
        if pr:
            gen.prune_at(t, pr[rng.randint(len(pr))])
        s.trees.append(t)
        same(case, fingerprint(model, Z), before, "altering a stored sample changed the live model")
        for o, w in rest:
            same(case, fingerprint(o, Z), w, "altering a stored sample changed another one")
        case.count("tampered")
    for _ in range(int(rng.choice([6, 14]))):
        u = rng.uniform()
        if u < 0.4:
            ms.step(model, TraceLogger())
        elif u < 0.6:
            for t in model.trees:
                f.step(model, t)
                for l in t.leaf_nodes:
                    l.set_value(rng.normal())
        elif u < 0.7:
            model.sigma.set_value(float(rng.uniform(0.1, 2)))
        elif u < 0.8 and stored:
            tamper()
        if rng.uniform() < 0.6:
            store()
    store()
    ms.step(model, TraceLogger())
    for s, w in stored:
        same(case, fingerprint(s, Z), w, "a stored sample changed after it was stored")


def fitted(case):
    """Samples of a fit: fixed under predictions, refits and another estimator's fit."""
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[3, 8, 20, 60])
    m = gen.est(n_trees=gen.n_trees(rng, [1, 3]), n_samples=int(rng.choice([3, 6])), n_chains=int(rng.choice([1, 2])), alpha=0.95, beta=float(rng.choice([0.5, 2.])),
                sigma_a=float(rng.choice([0.001, 2.])))
    m.fit(X, y)
    case.describe(**d)
    Z = np.concatenate([X[:40], gen.predict_rows(rng, X, 20)])
    samples = list(m.model_samples)
    prints = [fingerprint(s, Z) for s in samples]
    for s, p in zip(samples, prints):
        self_contained(case, s, X, [o for o in samples if o is not s] + [m.model])
        no_data(case, s, X)
        case.equal(p["prior"][:2] + p["prior"][3:4], (float(m.alpha), float(m.beta), m.n_trees), "a stored sample does not keep the prior settings")
        case.count("stored")
        case.seen(p["trees"], p["sigma"])
    m.predict(Z)
    X2, y2, _ = gen.dataset(rng, sizes=[5, 15])
    gen.est().fit(X2, y2)
    m.fit(X2, y2)
    for s, p in zip(samples, prints):
        same(case, fingerprint(s, Z), p, "a stored sample changed after refitting")


def bushy(case):
    """Trees with dozens to hundreds of leaves, some very deep, stored and walked."""
    from bartpy.model import deep_copy_model
    rng = case.rng
    X, y, d = work.bushy_data(rng)
    model = gen.make_model(rng, X, y, n_trees=2)
    work.grow_bushy(case, model.trees[0], int(rng.choice([30, 70, 120])), model)
    work.deep_history(case, model.trees[1], X, lambda *a: None)
    for l in model.trees[1].leaf_nodes:
        l.set_value(rng.normal())
    Z = np.concatenate([X[:60], gen.predict_rows(rng, X, 20)])
    case.describe(leaves=[len(t.leaf_nodes) for t in model.trees], **d)
    want = fingerprint(model, Z)
    s = deep_copy_model(model)
    same(case, fingerprint(s, Z), want, "a stored sample differs from the model it was taken from")
    self_contained(case, s, X, [model])
    no_data(case, s, X)
    f = gen.forcing_sampler(0.4)
    for _ in range(20):
        for t in model.trees:
            f.step(model, t)
            for l in t.leaf_nodes:
                l.set_value(rng.normal())
    same(case, fingerprint(s, Z), want, "a stored sample changed after it was stored")
    again = fingerprint(model, Z)
    for t in s.trees:
        for l in t.leaf_nodes:
            l.set_value(7.)
        pr = list(t.prunable_decision_nodes)
        gen.prune_at(t, pr[rng.randint(len(pr))])
    same(case, fingerprint(model, Z), again, "altering a stored sample changed the live model")
    case.count("stored")
    case.count("bushy_models")
    case.seen(want["trees"])


def parts():
    return [Part("live", live, 160, 2000, needs=("stored", "tampered", "heap_walks")),
            Part("bushy", bushy, 12, 120, needs=("stored", "bushy_models")),
            Part("fitted", fitted, 60, 700, needs=("stored",))]
