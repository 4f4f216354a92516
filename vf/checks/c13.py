"""C13: a chain records exactly the requested draws."""
import math

import numpy as np

from vf import gen, oracle
from vf.core import Part, digest

RULE = ("one case = one chain or fit with random burn, samples, thin, storage flags and number of chains; the log of all sweeps (state at the end of each) is compared with "
        "what was recorded; a state is a distinct (n_burn, n_samples, thin, flags) combination with at least one recorded draw")
ASSUMPTIONS = ["0 < thin <= 1"]


def state(model):
    return digest([oracle.tree_shape(t) for t in model.trees], float(model.sigma.current_value()))


class SweepLog:
    """A tree sampler that notes the state at the beginning of every sweep (= the end of the previous one)."""

    def __init__(self, inner, log=None):
        self.inner, self.log = inner, log if log is not None else {"sweeps": [], "rates": []}

    def __deepcopy__(self, memo):
        from copy import deepcopy
        return SweepLog(deepcopy(self.inner, memo), self.log)

    def step(self, model, tree):
        if tree is model.trees[0]:
            self.log["sweeps"].append((model, state(model), np.array(oracle.model_predict(model, model.data.X.values))))
            self.log["rates"].append([])
        b = oracle.structure(oracle.tree_shape(tree))
        out = self.inner.step(model, tree)
        self.log["rates"][-1].append(b != oracle.structure(oracle.tree_shape(tree)))
        return out


def settings(rng):
    n_samples = int(rng.choice([1, 2, 3, 5, 7, 10, 13, 20, 37, 50]))
    n_burn = int(rng.choice([0, 0, 1, 2, 5, 11]))
    thin = float(rng.choice([1., 1., 0.5, 0.1, 0.2, 0.25, 0.3, 0.7, 1 / 3., 0.9, 2 / 3., 0.05, 0.01, rng.uniform(0.02, 1.)]))
    return n_samples, n_burn, thin


def check_indices(case, idx, n_samples, thin):
    want = math.ceil(round(n_samples * thin, 9))
    case.equal(len(idx), want, "the number of recorded draws is not ceil(n_samples*thin)", n_samples=n_samples, thin=thin)
    case.check(idx[0] == 0, "the first draw after burn-in is not recorded", first=idx[0])
    gaps = np.diff(idx)
    case.check(np.all(gaps >= 1), "recorded draws are not in sweep order")
    inv = 1. / thin
    case.check(np.all((gaps >= math.floor(inv + 1e-9)) & (gaps <= math.ceil(inv - 1e-9))), "recorded draws are not evenly spread",
               gaps=gaps, thin=thin)


def find(case, states, wanted):
    """Indices of the sweeps whose end state was recorded, in order."""
    out, pos = [], 0
    for w in wanted:
        while pos < len(states) and states[pos] != w:
            pos += 1
        if pos == len(states):
            return None
        out.append(pos)
        pos += 1
    return out


def chain(case):
    """ModelSampler.samples directly, with the end state of every sweep logged by the sigma step."""
    from bartpy.samplers.sigma import SigmaSampler
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 5, 10])
    n_trees = int(rng.choice([1, 2, 4, 8]))
    n_samples, n_burn, thin = settings(rng)
    pred, acc = bool(rng.uniform() < 0.7), bool(rng.uniform() < 0.7)
    case.describe(n_trees=n_trees, n_samples=n_samples, n_burn=n_burn, thin=thin, predictions=pred, acceptance=acc, **d)
    model = gen.make_model(rng, X, y, n_trees=n_trees)
    log, rates = [], []

    class S(SigmaSampler):
        def step(self, m, sigma):
            out = super().step(m, sigma)
            log.append((state(m), oracle.model_predict(m, X)))
            return out
    sl = SweepLog(gen.real_sampler(0.5))
    ms = gen.model_sampler(sl, None, S())
    out = ms.samples(model, n_samples, n_burn, thin, pred, acc)
    case.equal(len(log), n_burn + n_samples, "the chain does not run n_burn + n_samples sweeps")
    after = log[n_burn:]
    idx = find(case, [s for s, _ in after], [state(m) for m in out["model"]])
    case.check(idx is not None, "a recorded model is not the state right after a sampling sweep, in order")
    check_indices(case, idx, n_samples, thin)
    if pred:
        case.equal(len(out["in_sample_predictions"]), len(idx), "predictions and models are not recorded together")
        for p, i in zip(out["in_sample_predictions"], idx):
            case.close(p, after[i][1], "a recorded in-sample prediction is not that of its sweep", rtol=0, atol=1e-10)
    else:
        case.equal(len(out["in_sample_predictions"]), 0, "in-sample predictions are stored although not asked for")
    if acc:
        case.equal(len(out["acceptance"]), len(idx), "acceptance rates and models are not recorded together")
        for a, i in zip(out["acceptance"], idx):
            case.close(a["Tree"], np.mean(sl.log["rates"][n_burn + i]), "a recorded acceptance rate is not that of its sweep", rtol=1e-12, atol=1e-12)
    else:
        case.equal(len(out["acceptance"]), 0, "acceptance rates are stored although not asked for")
    case.count("recorded_draws", len(idx))
    case.seen(n_samples, n_burn, round(thin, 6), pred, acc)


def many(case):
    """Chains with hundreds of recorded draws keep models, predictions and acceptance rates together, to the last one."""
    from bartpy.samplers.sigma import SigmaSampler
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 6])
    model = gen.make_model(rng, X, y, n_trees=1)
    log = []

    class S(SigmaSampler):
        def step(self, m, sigma):
            out = super().step(m, sigma)
            log.append((state(m), oracle.model_predict(m, X)))
            return out
    sl = SweepLog(gen.real_sampler(0.5))
    n_samples, n_burn, thin = int(rng.choice([130, 260, 520, 1100])), int(rng.choice([0, 150])), float(rng.choice([1., 1., .5, .3]))
    case.describe(n_samples=n_samples, n_burn=n_burn, thin=thin, **d)
    out = gen.model_sampler(sl, None, S()).samples(model, n_samples, n_burn, thin, True, True)
    case.equal(len(log), n_burn + n_samples, "the chain does not run n_burn + n_samples sweeps")
    after = log[n_burn:]
    idx = find(case, [s for s, _ in after], [state(m) for m in out["model"]])
    case.check(idx is not None, "a recorded model is not the state right after a sampling sweep, in order")
    check_indices(case, idx, n_samples, thin)
    case.equal((len(out["in_sample_predictions"]), len(out["acceptance"])), (len(idx), len(idx)), "predictions, acceptance rates and models are not recorded together")
    for p, a, i in zip(out["in_sample_predictions"], out["acceptance"], idx):
        case.close(p, after[i][1], "a recorded in-sample prediction is not that of its sweep", rtol=0, atol=1e-10)
        case.close(a["Tree"], np.mean(sl.log["rates"][n_burn + i]), "a recorded acceptance rate is not that of its sweep", rtol=1e-12, atol=1e-12)
    case.count("recorded_draws", len(idx))


def fit(case):
    """Through the estimator, several chains."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 5, 10])
    n_samples, n_burn, thin = settings(rng)
    if case.index % 12 == 7:                               # thousands of rows or dozens of columns, few sweeps
        X, y, d = gen.splittable_dataset(rng, sizes=[1600, 4000]) if rng.uniform() < .6 else gen.splittable_dataset(rng, sizes=[40], pmax=60)
        n_samples, n_burn = min(n_samples, 3), min(n_burn, 1)
        case.count("large_data")
    n_chains = int(rng.choice([1, 2, 3, 5]))
    pred, acc = bool(rng.uniform() < 0.6), bool(rng.uniform() < 0.6)
    case.describe(n_samples=n_samples, n_burn=n_burn, thin=thin, n_chains=n_chains, **d)
    sl = SweepLog(gen.real_sampler(0.5))
    m = gen.est(n_trees=int(rng.choice([1, 3])), n_samples=n_samples, n_burn=n_burn, thin=thin, n_chains=n_chains,
                store_in_sample_predictions=pred, store_acceptance_trace=acc, tree_sampler=sl)
    m.fit(X, y)
    sweeps, rates = sl.log["sweeps"], sl.log["rates"]
    case.equal(len(sweeps), n_chains * (n_burn + n_samples), "the chains do not run n_burn + n_samples sweeps each")
    want = math.ceil(round(n_samples * thin, 9))
    case.equal(len(m.model_samples), want * n_chains, "the estimator does not expose the draws of all chains")
    case.equal(len(m.extract), n_chains, "the extract does not hold one entry per chain")
    per = n_burn + n_samples
    chains = [sweeps[c * per:(c + 1) * per] for c in range(n_chains)]
    seen_models = []
    for c, ch in enumerate(chains):
        case.check(len({id(s[0]) for s in ch}) == 1, "a chain mixes models")
        seen_models.append(id(ch[0][0]))
        live = ch[0][0]
        ends = [s[1] for s in ch[1:]] + [state(live)]
        preds = [s[2] for s in ch[1:]] + [oracle.model_predict(live, live.data.X.values)]
        mine = list(m.model_samples[c * want:(c + 1) * want])
        idx = find(case, ends[n_burn:], [state(x) for x in mine])
        case.check(idx is not None, "the draws of a chain are not the states after its sampling sweeps, in order", chain=c)
        check_indices(case, idx, n_samples, thin)
        if pred:
            got = np.asarray(m.prediction_samples)[c * want:(c + 1) * want]
            for g, i in zip(got, idx):
                case.close(g, preds[n_burn + i], "a recorded in-sample prediction is not that of its draw", rtol=0, atol=1e-10)
        if acc:
            for a, i in zip(list(m.acceptance_trace)[c * want:(c + 1) * want], idx):
                case.close(a["Tree"], np.mean(rates[c * per + n_burn + i]), "a recorded acceptance rate is not that of its draw", rtol=1e-12, atol=1e-12)
        case.count("recorded_draws", len(idx))
    case.check(len(set(seen_models)) == n_chains, "two chains sample the same model")
    case.equal(len(m.prediction_samples) if m.prediction_samples is not None else 0, want * n_chains if pred else 0, "prediction samples are stored exactly when asked for")
    case.equal(len(m.acceptance_trace), want * n_chains if acc else 0, "acceptance rates are stored exactly when asked for")
    case.seen(n_samples, n_burn, round(thin, 6), pred, acc, n_chains)


def long(case):
    """Long chains: the fraction stays right over hundreds of sweeps (accumulated rounding of thin)."""
    from bartpy.samplers.modelsampler import ModelSampler
    rng = case.rng
    X, y = np.array([[0.], [1.]]), np.array([0., 1.])
    model = gen.make_model(rng, X, y, n_trees=1)
    thin = float([0.1, 0.2, 0.3, 0.7, 1 / 3., 0.05, 0.15, 0.35][case.index % 8])
    n_samples = int(rng.choice([300, 700, 1000, 2500]))
    count = [0]
    marks = []

    class Sched:
        def steps(self, m):
            count[0] += 1
            yield "Node", lambda: m.sigma.set_value(float(count[0]))
    ms = ModelSampler(Sched())
    n_burn = int(rng.choice([0, 7, 300, 1500]))
    out = ms.samples(model, n_samples, n_burn, thin, False, False)
    idx = [int(s.sigma.current_value()) - n_burn - 1 for s in out["model"]]
    case.describe(thin=thin, n_samples=n_samples)
    check_indices(case, idx, n_samples, thin)
    case.count("recorded_draws", len(idx))


def parts():
    return [Part("chain", chain, 240, 3000, needs=("recorded_draws",)),
            Part("fit", fit, 160, 2000, needs=("recorded_draws", "large_data")),
            Part("many", many, 16, 160, needs=("recorded_draws",)),
            Part("long", long, 16, 64, needs=("recorded_draws",))]
