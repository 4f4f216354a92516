"""C29: components plugged in through the low-level API are honoured exactly."""
from collections import Counter

import numpy as np

from vf import gen, oracle, stat
from vf.core import Part

RULE = ("one case = one set of user-supplied components (tree moves, proposer, ratio, samplers, schedule, trace logger, initializer) plugged into the real machinery and run; each component "
        "records when, with what and how often it was called and what it returned, and the run is compared with that record; a state is a distinct (components, recorded call sequence)")
ASSUMPTIONS = ["custom moves return GrowMutation / PruneMutation objects on nodes of the tree they are given or raise one of the two no-move exceptions",
               "acceptance is reported per kind of step as the share of truthy log entries that are not None"]


# ---- moves ----------------------------------------------------------------------------------------------------------

def moves(rng, X):
    """Custom tree moves, each recognisable by what it returns."""
    from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    made = []

    def grow(pick, name):
        def f(tree):
            leaves = [l for l in tree.leaf_nodes if l.is_splittable()]
            if not leaves:
                raise NoSplittableVariableException()
            l = leaves[pick if pick == 0 else -1]
            R = X[np.asarray(l.split.condition())]
            j = oracle.splittable_columns(R)[0]
            v = float(np.unique(R[:, j])[0])
            m = GrowMutation(l, split_node(l, gen.conditions(j, v)))
            made.append((name, m))
            return m
        return f

    def prune(pick, name):
        def f(tree):
            d = tree.prunable_decision_nodes
            if not d:
                raise NoPrunableNodeException()
            d = d[pick]
            m = PruneMutation(d, LeafNode(d.split, depth=d.depth))
            made.append((name, m))
            return m
        return f

    def never(name, exc):
        def f(tree):
            made.append((name, None))
            raise exc()
        return f
    all_ = {"grow first": grow(0, "grow first"), "grow last": grow(-1, "grow last"), "prune first": prune(0, "prune first"), "prune last": prune(-1, "prune last"),
            "refuses": never("refuses", NoPrunableNodeException), "refuses too": never("refuses too", NoSplittableVariableException)}
    names = list(rng.permutation(list(all_)))[:int(rng.randint(2, 7))]
    if all(n.startswith("refuses") for n in names):
        names.append("grow last")
    return {n: dressed(rng, all_[n]) for n in names}, made


class Move:
    """A move that is an object rather than a function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, tree):
        return self.f(tree)


def dressed(rng, f):
    """The same move under an arbitrary name, as a partial, a callable object or a bound method."""
    from functools import partial
    u = rng.randint(6)
    if u == 0:
        return partial(f)
    if u == 1:
        return Move(f)
    if u == 2:
        return Move(f).__call__
    if u < 5:
        f.__name__ = f.__qualname__ = str(rng.choice(["a", "zz", "move", "prune_this", "grow_that", "uniformly_sample_grow_mutation", "uniformly_sample_prune_mutation", "B", "_x"]))
    return f


def custom_moves(case):
    """prob_method_lookup: the given moves, with the given probabilities, and nothing else."""
    from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[5, 10, 30])
    tree = gen.single_tree(X, y)
    f = gen.forcing_sampler(.8)
    for _ in range(int(rng.choice([1, 2, 5]))):
        f.step(None, tree)
    if not tree.splittable_leaf_nodes or not tree.prunable_decision_nodes:
        f = gen.forcing_sampler(.999)
        tree = gen.single_tree(X, y)
        f.step(None, tree)
    ms, made = moves(rng, X)
    w = rng.dirichlet(np.ones(len(ms)) * 2) if rng.uniform() < .8 else np.ones(len(ms)) / len(ms)
    lookup = {ms[n]: float(p) for n, p in zip(ms, w)}
    prop = UniformMutationProposer(prob_method_lookup=lookup)
    prob = dict(zip(ms, w))
    able = {n: not n.startswith("refuses") and bool(tree.splittable_leaf_nodes if n.startswith("grow") else tree.prunable_decision_nodes) for n in ms}
    case.describe(moves={n: round(float(p), 3) for n, p in prob.items()}, able=able, **d)
    if not any(able.values()):
        case.count("no_move")
        return
    before = oracle.tree_shape(tree)

    def draw(k):
        out = []
        for _ in range(k):
            del made[:]
            m = prop.propose(tree)
            case.check(len(made) > 0 and made[-1][1] is m, "the proposal is not the one the chosen move returned")
            case.check(all(r is None for _, r in made[:-1]), "a move that was returned is dropped")
            out.append(made[-1][0])
        case.count("proposals", k)
        return out

    def test(names):
        total = sum(p for n, p in prob.items() if able[n])
        c = Counter(names)
        case.check(set(c) <= {n for n in ms if able[n]}, "a move was used that cannot be made")
        cells = [n for n in ms if able[n]]
        lag = [stat.lag_p(np.array([float(n == cells[0]) for n in names]), k) for k in (1, 2, 1000)] if len(cells) > 1 else [1.]
        return min(1., 4 * min([stat.chi2_p([c[n] for n in cells], [len(names) * prob[n] / total for n in cells])] + lag))
    stat.confirmed(case, draw, test, 1500, "the moves are not chosen with the given probabilities")
    case.equal(oracle.tree_shape(tree), before, "proposing changed the tree")
    case.seen(sorted(ms), before)


class Recorder:
    """Base of the recording components: deep copies keep recording into the same place."""

    def __init__(self, log):
        self.log = log

    def __deepcopy__(self, memo):
        return self


class Proposer(Recorder):
    def __init__(self, log, f):
        super().__init__(log)
        self.f = f

    def propose(self, tree):
        m = self.f(tree)
        self.log.append(("propose", tree, m))
        return m


class Ratio(Recorder):
    def __init__(self, log, f):
        super().__init__(log)
        self.f = f

    def log_probability_ratio(self, model, tree, m):
        r = self.f(m)
        self.log.append(("ratio", model, tree, m, r))
        return r


def custom_proposer(case):
    """Proposer and ratio of the user's own in the tree sampler: asked once each, obeyed exactly."""
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 30])
    model = gen.make_model(rng, X, y, n_trees=int(rng.choice([1, 3])))
    log = []
    inner = gen.proposer(float(rng.choice([.5, .7])))
    s = UnconstrainedTreeMutationSampler(Proposer(log, lambda t: inner.propose(t) if rng.uniform() < .8 else None),
                                         Ratio(log, lambda m: float(rng.choice([np.inf, -np.inf]))))
    case.describe(**d)
    for _ in range(60):
        t = model.trees[int(rng.randint(len(model.trees)))]
        del log[:]
        ids = [id(n) for n in t.nodes]
        keep = list(t.nodes)
        out = s.step(model, t) if rng.uniform() < .7 else None
        if not log:
            out = s.sample(model, t)
            case.equal([id(n) for n in t.nodes], ids, "sample() changes the tree")
            sampled = True
        else:
            sampled = False
        case.check(log[0][0] == "propose" and log[0][1] is t, "the proposer is not asked about the tree")
        m = log[0][2]
        if m is None:
            case.equal(len(log), 1, "the proposer or ratio is asked again although no move was proposed")
            case.check(out is None, "a move is reported although none was proposed")
            case.count("no_proposal")
            continue
        case.equal([e[0] for e in log], ["propose", "ratio"], "the proposer and the ratio are not asked exactly once")
        case.check(log[1][1] is model and log[1][2] is t and log[1][3] is m, "the ratio is not asked about the proposed move")
        if log[1][4] > 0:
            case.check(out is m, "an accepted move is not the proposed one")
            if not sampled:
                case.check(any(n is m.updated_node for n in t.nodes) and not any(n is m.existing_node for n in t.nodes), "an accepted move is not applied")
        else:
            case.check(out is None, "a rejected move is reported")
            case.equal([id(n) for n in t.nodes], ids, "a rejected move changes the tree")
        case.count("asked")
        case.seen(oracle.structure(oracle.tree_shape(t)), m.kind, log[1][4])
        del keep


# ---- schedules and loggers ---------------------------------------------------------------------------------------

def logger_class(rng, log, kinds):
    """A TraceLogger of the user's own: logs every call and returns entries of many sorts."""
    from bartpy.trace import TraceLogger
    entries = [True, False, 0, 1, 3.5, "text", "", None, (1, 2)]

    class Logger(TraceLogger):
        def __init__(self):
            log.append(("logger", self))
            super().__init__(lambda x: self.note("Tree", x), lambda x: self.note("Model", x), lambda x: self.note("In Sample Prediction", x))

        def note(self, kind, x):
            r = entries[rng.randint(len(entries))]
            if kind == "Model":
                u = rng.uniform()
                r = None if u < .2 else ("model", len(log)) if u < .6 else [0, "", False, 0., (), {}, 7, "draw"][rng.randint(8)]
            elif kind == "In Sample Prediction":
                u = rng.uniform()
                r = None if u < .2 else np.array(x) * 1. if u < .6 else [0, "", False, np.zeros(0), [], np.zeros(3)][rng.randint(6)]
            log.append(("log", kind, x, r, self))
            return r

        def __getitem__(self, item):
            if item in kinds:
                return lambda x: self.note(item, x)
            return super().__getitem__(item)
    return Logger


def custom_schedule(case):
    """Steps of any kind in any number: run in order, once per sweep, logged under their kind."""
    from bartpy.samplers.modelsampler import ModelSampler
    from bartpy.samplers.schedule import SampleSchedule
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10])
    model = gen.make_model(rng, X, y, n_trees=2)
    log = []
    kinds = ["Extra", "Hyper", "Split"][:int(rng.randint(1, 4))]
    plan = []
    standard = rng.uniform() < .5

    class Schedule(SampleSchedule):
        def steps(self, m):
            case.check(m is model, "the schedule is asked about another model")
            log.append(("sweep",))
            own = [(k, int(rng.randint(1000))) for k in rng.choice(kinds, size=int(rng.randint(0, 6)))]
            own += [("Node", -1)] if rng.uniform() < .3 else []
            plan.append(own)
            if standard:
                for i, (kind, f) in enumerate(super().steps(m)):
                    log.append(("standard", kind, i))
                    yield kind, f
            for k, v in own:
                log.append(("yield", str(k), v))
                yield str(k), (lambda k=k, v=v: log.append(("run", str(k), v)) or v)
    Logger = logger_class(rng, log, kinds)
    ms = ModelSampler(Schedule(gen.real_sampler(.5), None, None) if not standard else
                      Schedule(gen.real_sampler(.5), gen.schedule(None).leaf_sampler, gen.schedule(None).sigma_sampler), trace_logger_class=Logger)
    n_samples, n_burn, thin = int(rng.choice([1, 3, 8])), int(rng.choice([0, 1, 4])), float(rng.choice([1., .5]))
    flags = bool(rng.randint(2)), bool(rng.randint(2))
    case.describe(kinds=kinds, standard=standard, n_samples=n_samples, n_burn=n_burn, thin=thin, flags=flags, **d)
    out = ms.samples(model, n_samples, n_burn, thin, *flags)
    loggers = [e for e in log if e[0] == "logger"]
    case.equal(len(loggers), 1, "a chain does not use one logger of the given class")
    # split into sweeps
    sweeps, current = [], None
    for e in log[1:] if log[0][0] == "logger" else log:
        if e[0] == "sweep":
            current = []
            sweeps.append(current)
        elif current is not None:
            current.append(e)
    case.equal(len(sweeps), n_samples + n_burn, "the schedule is not run once per sweep")
    rates, models, preds = [], [], []
    for s, own in zip(sweeps, plan):
        case.equal([(e[1], e[2]) for e in s if e[0] == "run"], [(str(k), v) for k, v in own], "the custom steps are not run once each, in order")
        seen, i = {}, 0
        while i < len(s):
            e = s[i]
            if e[0] == "yield":
                case.check(i + 1 < len(s) and s[i + 1] == ("run", e[1], e[2]), "a step is not run before the next one is asked for")
                if e[1] in kinds:
                    case.check(i + 2 < len(s) and s[i + 2][:3] == ("log", e[1], e[2]), "the result of a step is not logged under its kind")
                    if s[i + 2][3] is not None:
                        seen.setdefault(e[1], []).append(bool(s[i + 2][3]))
                    i += 1
                i += 1
            elif e[0] == "standard" and e[1] == "Tree":
                case.check(i + 1 < len(s) and s[i + 1][:2] == ("log", "Tree"), "a tree step is not logged")
                if s[i + 1][3] is not None:
                    seen.setdefault("Tree", []).append(bool(s[i + 1][3]))
                i += 1
            i += 1
        rates.append({k: float(np.mean(v)) for k, v in seen.items()})
        ml = [e for e in s if e[0] == "log" and e[1] == "Model"]
        pl = [e for e in s if e[0] == "log" and e[1] == "In Sample Prediction"]
        models.append(ml)
        preds.append(pl)
    stored = [i for i, m in enumerate(models) if m]
    case.check(all(len(m) <= 1 for m in models) and all(m[0][2] is model for m in models if m), "the model is not logged once per stored draw")
    case.equal([i - n_burn for i in stored], [i for i in range(n_samples) if thin == 1. or i % 2 == 0], "the model is logged for other sweeps than the stored ones")
    case.equal([i for i, p in enumerate(preds) if p], stored if flags[0] else [], "in-sample predictions are logged for other sweeps than the stored ones")
    want = [models[i][0][3] for i in stored if models[i][0][3] is not None]
    case.equal(len(out["model"]), len(want), "the recorded models are not what the logger returned")
    case.check(all(a is b for a, b in zip(out["model"], want)), "the recorded models are not what the logger returned")
    if flags[0]:
        want = [preds[i][0][3] for i in stored if preds[i][0][3] is not None]
        case.equal(len(out["in_sample_predictions"]), len(want), "the recorded predictions are not what the logger returned")
        for a, b in zip(out["in_sample_predictions"], want):
            case.check(a is b or np.array_equal(a, b), "the recorded predictions are not what the logger returned")
    case.equal([{k: float(v) for k, v in a.items()} for a in out["acceptance"]], [rates[i] for i in stored] if flags[1] else [],
               "the acceptance rates are not the share of truthy log entries of each kind of step")
    case.count("sweeps", len(sweeps))
    case.count("custom_steps", sum(len(p) for p in plan))
    case.seen([[e[0] for e in s] for s in sweeps])
    again = len(log)                                # another run of the same sampler logs to a logger of its own
    ms.samples(model, n_samples, n_burn, thin, *flags)
    loggers += [e for e in log[again:] if e[0] == "logger"]
    case.equal(len(loggers), 2, "two runs do not use one logger of the given class each")
    case.check(all(e[4] is loggers[1][1] for e in log[again:] if e[0] == "log"), "a run logs to the logger of another run")


# ---- samplers of the user's own, through the estimator ---------------------------------------------------------------

def custom_samplers(case):
    """Tree, leaf and sigma samplers of the user's own: everything a fit holds came from them."""
    from bartpy.samplers.modelsampler import ModelSampler
    from bartpy.samplers.schedule import SampleSchedule
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 30])
    n_trees = int(rng.choice([1, 3]))
    model = gen.make_model(rng, X, y, n_trees=n_trees, normalize=True)
    leaf_values, sigmas, trees, sweep_preds = set(), [], [], []
    size = float(rng.choice([.1, .1, 3., 70., 1e6, 1e-9]))
    offset = float(rng.choice([0., 0., 50., -1e4]))
    inner = gen.forcing_sampler(.6) if rng.uniform() < .5 else gen.real_sampler(.5)

    class T(Recorder):
        def step(self, m, tree):
            case.check(m is model and any(t is tree for t in model.trees), "the tree sampler is given something else than a tree of the model")
            trees.append(tree)
            return inner.step(m, tree)

    class L(Recorder):
        def step(self, m, leaf):
            case.check(m is model and any(n is leaf for n in trees[-1].leaf_nodes), "the leaf sampler is given something else than a leaf of the current tree")
            v = float(rng.normal() * size + offset)
            while v in leaf_values:
                v = float(np.nextafter(v, np.inf))
            leaf_values.add(v)
            leaf.set_value(v)
            return v

    class S(Recorder):
        def step(self, m, sigma):
            case.check(m is model and sigma is model.sigma, "the sigma sampler is not given the model's sigma")
            v = float(rng.uniform(.1, 2) * 10. ** rng.randint(-3, 4))
            sigmas.append(v)
            sweep_preds.append(oracle.model_predict(m, X))
            sigma.set_value(v)
            return v
    ms = ModelSampler(SampleSchedule(T(None), L(None), S(None)))
    n, burn = int(rng.choice([2, 5])), int(rng.choice([0, 3]))
    case.describe(n_trees=n_trees, n_samples=n, n_burn=burn, **d)
    case.describe(size=size, offset=offset)
    out = ms.samples(model, n, burn, 1.)
    scale = n_trees * (abs(offset) + 5 * size)
    for p, want, s in zip(out["in_sample_predictions"], sweep_preds[burn:], out["model"]):
        case.close(p, want, "in-sample predictions are not the sum of the values the leaf sampler set", rtol=1e-9, atol=1e-12 * scale)
        case.close(s.predict(X), want, "predictions are not the sum of the values the leaf sampler set", rtol=1e-9, atol=1e-12 * scale)
    case.equal(len(sigmas), n + burn, "the sigma sampler is not called once per sweep")
    case.equal([float(s.sigma.current_value()) for s in out["model"]], sigmas[burn:], "a recorded sigma is not the one the sigma sampler set")
    for s in out["model"]:
        vals = [float(l.current_value) for t in s.trees for l in t.leaf_nodes]
        case.check(set(vals) <= leaf_values, "a recorded leaf value was not set by the leaf sampler")
        case.check(len(set(vals)) == len(vals), "two leaves hold the same draw")
    case.check(all(a is b for a, b in zip(trees, list(model.trees) * (n + burn))) and len(trees) == n_trees * (n + burn), "the tree sampler is not called once per tree and sweep, in order")
    case.count("custom_draws", len(leaf_values))
    case.seen(sigmas)


def initializers(case):
    """An initializer of the user's own: given every tree once, its work is what sampling starts from."""
    from bartpy.initializers.initializer import Initializer
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 30])
    given, first, runs = [], [], []
    whole = case.index % 3            # 0: initialize_tree alone; 1: initialize_trees alone; 2: both, the latter leaving some trees out

    class Mine(Initializer):
        def __deepcopy__(self, memo):
            return self

        def initialize_tree(self, tree):
            case.check(len(tree.nodes) == 1 and not any(t is tree for t, _, _ in given), "an initializer is given a tree that is not new")
            target = np.array(tree.nodes[0].data.y.values)
            if rng.uniform() < .6:
                cols = oracle.splittable_columns(X)
                j = cols[rng.randint(len(cols))]
                gen.grow_at(tree, tree.nodes[0], j, float(np.unique(X[:, j])[0]))
            for l in tree.leaf_nodes:
                l.set_value(float(rng.normal() * .2))
            given.append((tree, oracle.tree_shape(tree), target))

    if whole:
        class Mine(Mine):
            own = Mine.initialize_tree

            def initialize_tree(self, tree):
                raise AssertionError("initialize_trees was overridden")

            def initialize_trees(self, trees):
                runs.append(0)
                for tree in trees:
                    runs[-1] += 1
                    if whole == 2 and runs[-1] % 2 == 0:
                        given.append((tree, oracle.tree_shape(tree), np.array(tree.nodes[0].data.y.values)))
                        case.count("left_out")
                    else:
                        self.own(tree)

    class Look(gen.TreeSamplerWrapper):
        def __deepcopy__(self, memo):
            return self

        def step(self, model, tree):
            if not any(m is model for m, _ in first):
                first.append((model, [oracle.tree_shape(t) for t in model.trees]))
            return None
    n_trees, n_chains = int(rng.choice([1, 2, 5])), int(rng.choice([1, 3]))
    case.describe(n_trees=n_trees, n_chains=n_chains, **d)
    m = gen.est(n_trees=n_trees, n_chains=n_chains, n_burn=0, n_samples=1, initializer=Mine(), tree_sampler=Look(None))
    m.fit(X, y)
    case.equal(len(first), n_chains, "the chains do not have a model each")
    if whole:
        case.check(len(runs) >= n_chains and set(runs) == {n_trees}, "initialize_trees is not called once per model with all its trees")
        case.count("initialize_trees")
    groups = {}
    for t, shape, target in given:
        own = [i for i, (mod, _) in enumerate(first) if any(u is t for u in mod.trees)]
        for i in own:
            groups.setdefault(i, []).append((t, shape, target))
    norm = (y - y.min()) / (y.max() - y.min()) - .5 if y.max() > y.min() else np.zeros(len(y))
    for i, (mod, shapes) in enumerate(first):
        mine = groups.get(i, [])
        case.equal(len(mine), n_trees, "the initializer is not given every tree of a chain once")
        case.check(all(a[0] is b for a, b in zip(mine, mod.trees)), "the trees are not initialised in order")
        case.equal([s for _, s, _ in mine], shapes, "sampling does not start from the initialised trees")
        f = np.zeros(len(y))
        for t, shape, target in mine:
            case.close(target, norm - f, "a tree is not initialised on what the trees before it leave over", rtol=1e-8, atol=1e-8)
            f = f + oracle.shape_predict(shape, X)
        case.count("initialised", n_trees)
    case.seen([s for _, s, _ in given])


class Own(Exception):
    """An error only the user knows."""


def errors(case):
    """A component that fails: its error reaches the caller as it is, and no half-made move is left behind."""
    from bartpy.initializers.initializer import Initializer
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.modelsampler import ModelSampler
    from bartpy.samplers.sampler import Sampler
    from bartpy.samplers.schedule import SampleSchedule
    from bartpy.samplers.sigma import SigmaSampler
    from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer, uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 30])
    where = ["move", "proposer", "ratio", "leaf", "sigma", "model log", "tree log", "step", "initializer", "prediction log"][case.index % 10]
    exc = [Own, ZeroDivisionError, KeyError, ValueError, AttributeError, TypeError, IndexError, ArithmeticError, RuntimeError, NotImplementedError, MemoryError, FloatingPointError,
           AssertionError, OSError, KeyboardInterrupt][int(rng.randint(15))]
    error = exc("raised by the user's %s" % where)
    left = [int(rng.choice([0, 0, 1, 2, 7]))]
    if where in ("initializer", "model log", "prediction log", "sigma"):
        left[0] = min(left[0], 2)
    through = rng.uniform() < .5 or where == "initializer"
    case.describe(where=where, error=exc.__name__, after=left[0], through_estimator=bool(through), **d)
    seen = {}

    def fail(kind, tree=None):
        if kind == where:
            left[0] -= 1
            if left[0] == -1:                       # once: a run that goes on afterwards comes to its end
                if tree is not None:
                    seen["tree"], seen["ids"], seen["shape"] = tree, list(tree.nodes), oracle.tree_shape(tree)
                seen["raised"] = True
                raise error
            if "raised" in seen:
                seen["again"] = True

    class Base:
        def __deepcopy__(self, memo):
            return self

    def failing(move):
        def f(tree):
            fail("move", tree)
            return move(tree)
        return f
    inner = UniformMutationProposer(prob_method_lookup={failing(uniformly_sample_grow_mutation): .6, failing(uniformly_sample_prune_mutation): .4})

    class P(Base):
        def propose(self, tree):
            fail("proposer", tree)
            return inner.propose(tree)

    class R(Base):
        def log_probability_ratio(self, model, tree, m):
            fail("ratio", tree)
            return np.inf

    class L(Base, LeafNodeSampler):
        def step(self, model, node):
            fail("leaf")
            return super().step(model, node)

    class S(Base, SigmaSampler):
        def step(self, model, sigma):
            fail("sigma")
            return super().step(model, sigma)

    class Log(TraceLogger):
        def __getitem__(self, item):
            f = super().__getitem__(item)

            def g(x):
                fail({"Model": "model log", "Tree": "tree log", "In Sample Prediction": "prediction log"}.get(item, ""))
                return f(x)
            return g

    class Schedule(SampleSchedule):
        def steps(self, model):
            for kind, f in super().steps(model):
                yield kind, f
            yield "Node", lambda: fail("step")

    class I(Base, Initializer):
        def initialize_tree(self, tree):
            fail("initializer", tree)
    sampler = UnconstrainedTreeMutationSampler(P(), R())
    caught = None
    try:
        if through and where in ("move", "proposer", "ratio", "initializer"):
            gen.est(n_trees=3, n_chains=1, n_burn=1, n_samples=5, tree_sampler=sampler, initializer=I()).fit(X, y)
        else:
            model = gen.make_model(rng, X, y, n_trees=3)
            ModelSampler(Schedule(sampler, L(), S()), trace_logger_class=Log).samples(model, 5, 1, 1.)
    except BaseException as e:
        if not seen:
            raise
        caught = e
    if not seen:
        case.count("never_reached")
        return
    case.check(caught is not None, "an error of a user's component does not reach the caller")
    case.check(type(caught) is exc and caught.args == error.args, "an error of a user's component reaches the caller as another one", got=repr(caught)[:300])
    case.check("again" not in seen, "the run goes on after an error of a user's component")
    if "tree" in seen:
        t = seen["tree"]
        case.check(len(t.nodes) == len(seen["ids"]) and all(a is b for a, b in zip(t.nodes, seen["ids"])), "an error of a user's component changes the tree")
        case.equal(oracle.tree_shape(t), seen["shape"], "an error of a user's component changes the tree")
    case.count("errors")
    case.seen(where, exc.__name__, case.index)


def parts():
    return [Part("custom_moves", custom_moves, 60, 600, needs=("proposals",)),
            Part("custom_proposer", custom_proposer, 60, 600, needs=("asked", "no_proposal")),
            Part("custom_schedule", custom_schedule, 120, 1500, needs=("sweeps", "custom_steps")),
            Part("custom_samplers", custom_samplers, 80, 900, needs=("custom_draws",)),
            Part("initializers", initializers, 60, 600, needs=("initialised", "initialize_trees", "left_out")),
            Part("errors", errors, 120, 900, needs=("errors",))]
