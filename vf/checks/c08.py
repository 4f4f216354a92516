"""C08: moves are accepted with the stated probability and applied exactly."""
import numpy as np

from vf import gen, oracle, stat, work
from vf.core import Part

RULE = ("one case = one sampler with a prescribed or recorded likelihood ratio, stepped thousands of times; acceptance frequencies and their serial "
        "independence are tested (confirmed on a fresh sample), and around every step the tree is compared node by node with the proposal applied or with "
        "itself; a state is a distinct (structure before, proposed structure, accepted) triple")
ASSUMPTIONS = ["frequency tests have finite resolution"]


class Fixed:
    def __init__(self, f):
        self.f, self.last = f, None

    def log_probability_ratio(self, model, tree, mutation):
        self.last = self.f()
        return self.last


def make(kind, ratio, pg=0.5):
    if kind == "oblivious":
        from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as S
        return S(gen.oblivious_proposer(pg), ratio)
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler as S
    return S(gen.proposer(pg), ratio)


def changed(out):
    return out is not None and out is not False and not (isinstance(out, (list, tuple)) and len(out) == 0)


def probability(case):
    """A prescribed ratio: acceptance frequency and independence, across refreshes of any batch of draws."""
    rng = case.rng
    kind = "oblivious" if case.index % 4 == 3 else "default"
    X = np.array([[0.], [1.]])                           # grow and prune alternate, always one proposal
    tree = gen.single_tree(X, np.array([0.1, 0.3]))
    mode = case.index % 3
    n = 5000 if not case.thorough else 20000
    if mode == 0:                                        # constant ratio
        lr = [-5., -.2, -40., -3., -.7, -7., -.02, -1.5][case.index // 3 % 8]          # also long runs of refusals or acceptances
        ratio = Fixed(lambda: lr)
    elif mode == 1:                                      # arbitrary acceptance probabilities
        ratio = Fixed(lambda: float(np.log(rng.uniform(1e-9, 1.))))
    else:                                                # also ratios above one, and impossible moves
        ratio = Fixed(lambda: float(rng.choice([0., 0.3, 5., 800., np.inf, -np.inf, -800., -0.5, np.log(0.25)])))
    s = make(kind, ratio)
    case.describe(kind=kind, mode=mode)

    def draw(k):
        out = np.empty((k, 2))
        for i in range(k):
            before = len(tree.nodes)
            r = changed(s.step(None, tree))
            case.check((len(tree.nodes) != before) == r, "the reported outcome does not say whether the tree changed")
            p = min(1.0, float(np.exp(min(ratio.last, 0.))))
            if p >= 1.0:
                case.check(r, "a move with ratio >= 1 was rejected", log_ratio=ratio.last)
            if p == 0.0:
                case.check(not r, "a move with ratio 0 was accepted")
            out[i] = p, r
        case.count("steps", k)
        return out

    def test(a):
        a = a[(a[:, 0] > 0) & (a[:, 0] < 1)]
        p, r = a[:, 0], a[:, 1]
        v = p * (1 - p)
        ps = []
        order = np.argsort(p, kind="stable")
        if mode == 0:
            ps.append(stat.binom_p(r.sum(), len(r), p[0]))
        else:
            for block in np.array_split(order, 6):                  # calibration by size of the ratio
                ps.append(two_sided((r[block] - p[block]).sum() / np.sqrt(v[block].sum())))
        z = (r - p) / np.sqrt(v)
        q, rare = np.minimum(p, 1 - p), np.where(p < .5, r, 1 - r)
        for lag in (1, 2, 3, 10, 100, 500, 999, 1000, 1001, 2000, 3000):
            if lag < len(z) - 200:
                m = (v > .05)[:-lag] & (v > .05)[lag:]
                if m.sum() > 300:                                   # products of independent outcomes: mean 0, variance 1
                    ps.append(two_sided((z[:-lag] * z[lag:])[m].sum() / np.sqrt(m.sum())))
                if (~m).sum() > 300:                                # outcomes that are rare: how often two of them meet
                    ps.append(stat.poisson_p((rare[:-lag] * rare[lag:])[~m].sum(), (q[:-lag] * q[lag:])[~m].sum()))
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, n, "moves are not accepted independently with probability min(1, ratio)", kind=kind, mode=mode)
    case.seen(kind, mode, case.index)


def two_sided(z):
    from scipy.stats import norm
    return 2 * norm.sf(abs(z))


def snapshot(tree, X):
    root = oracle.root_of(tree)
    rows = {}

    def go(n, p):
        rows[p] = (np.asarray(n.split.condition()).tobytes(), None if oracle.is_leaf(n) else oracle.rule(n),
                   float(n.current_value) if oracle.is_leaf(n) else None, int(n.depth))
        if not oracle.is_leaf(n):
            go(n.left_child, p + "L")
            go(n.right_child, p + "R")
    go(root, "")
    return rows


class SpyProposer:
    def __init__(self, inner):
        self.inner, self.last = inner, None

    def propose(self, tree):
        self.last = self.inner.propose(tree)
        return self.last


class SpyRatio:
    """Forwards to `inner` and remembers what was evaluated."""

    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def log_probability_ratio(self, model, tree, m):
        r = self.inner.log_probability_ratio(model, tree, m)
        self.seen.append((m, float(r)))
        return r


def watched_step(case, s, model, tree, X):
    """One step of sampler s with the tree compared before and after."""
    before = snapshot(tree, X)
    before_nodes = {id(n) for n in tree.nodes}
    keep, where = list(tree.nodes), mark_paths(tree)      # keeps the nodes alive: ids stay unique
    s.likihood_ratio.seen = []
    s.proposer.last = None
    pred = np.array(tree.predict(X))
    out = s.step(model, tree)
    proposals = s.proposer.last
    proposals = [] if proposals is None else list(proposals) if isinstance(proposals, (list, tuple)) else [proposals]
    after = snapshot(tree, X)
    accepted = changed(out)
    if not accepted:
        case.equal(after, before, "a rejected move changed the tree")
        case.check({id(n) for n in tree.nodes} == before_nodes, "a rejected move replaced nodes")
        case.close(tree.predict(X), pred, "a rejected move changed the predictions", rtol=0, atol=0)
        case.count("rejected")
    else:
        case.check(len(proposals) > 0, "a move was made without a proposal")
        want = dict(before)
        touched = set()
        for m in proposals:
            p = where.get(id(m.existing_node))
            case.check(p is not None, "the changed node was not in the tree")
            touched.add(p)
            if m.kind == "grow":
                new = {}
                u = m.updated_node
                new[p] = (want[p][0], oracle.rule(u), None, want[p][3])
                for side, c in (("L", u.left_child), ("R", u.right_child)):
                    new[p + side] = (np.asarray(c.split.condition()).tobytes(), None, None, want[p][3] + 1)
                want.update(new)
            else:
                for q in list(want):
                    if q != p and q.startswith(p):
                        del want[q]
                want[p] = (before[p][0], None, None, before[p][3])
        case.equal(sorted(after), sorted(want), "the accepted move did not change exactly the proposed nodes", proposed=[m.kind for m in proposals])
        for q in want:
            case.equal((after[q][0], after[q][1], after[q][3]), (want[q][0], want[q][1], want[q][3]),
                       "after an accepted move a node does not hold the proposed rows", path=q)
            if q in before and q not in touched and not any(q.startswith(t) for t in touched):
                case.equal(after[q][2], before[q][2], "an accepted move changed the value of another leaf", path=q)
        case.check(after != before, "the step reports a change but the tree is the same")
        case.count("accepted")
    shape = oracle.structure(oracle.tree_shape(tree))
    case.seen(shape, accepted, [m.kind for m in proposals])
    return accepted, s.likihood_ratio.seen


def mark_paths(tree):
    out = {}

    def go(n, p):
        out[id(n)] = p
        if not oracle.is_leaf(n):
            go(n.left_child, p + "L")
            go(n.right_child, p + "R")
    go(oracle.root_of(tree), "")
    return out


def application(case):
    rng = case.rng
    kind = "oblivious" if case.index % 5 == 4 else "default"
    X, y, d = gen.splittable_dataset(rng, sizes=[2, 3, 5, 10, 20, 40])
    model = gen.make_model(rng, X, y, n_trees=2)
    tree = model.trees[0]
    s = make(kind, Fixed(lambda: float(rng.choice([np.inf, -np.inf, -0.7]))), pg=float(rng.choice([0.5, 0.7])))
    s.proposer, s.likihood_ratio = SpyProposer(s.proposer), SpyRatio(s.likihood_ratio)
    case.describe(kind=kind, **d)
    for _ in range(60):
        for l in tree.leaf_nodes:
            if rng.uniform() < 0.5:
                l.set_value(rng.normal())
        watched_step(case, s, model, tree, X)


def bushy(case):
    """Trees with dozens of leaves: one move, or many simultaneous ones, leaves everything else alone."""
    rng = case.rng
    kind = "oblivious" if case.index % 2 else "default"
    X, y, d = work.bushy_data(rng, n=int(rng.choice([60, 150, 300])))
    model = gen.make_model(rng, X, y, n_trees=2)
    tree = model.trees[1]
    if kind == "default":
        work.grow_bushy(case, tree, int(rng.choice([20, 50, 90])), model)
    verdict = [0.]
    s = make(kind, Fixed(lambda: verdict[0]), pg=float(rng.choice([0.6, 0.8])))
    s.proposer, s.likihood_ratio = SpyProposer(s.proposer), SpyRatio(s.likihood_ratio)
    case.describe(kind=kind, **d)
    for _ in range(25):
        verdict[0] = float(rng.choice([np.inf, np.inf, -np.inf]))
        for l in tree.leaf_nodes:
            l.set_value(rng.normal())
        accepted, _ = watched_step(case, s, model, tree, X)
        if accepted and isinstance(s.proposer.last, (list, tuple)):
            case.count("accepted_moves_of_more_than_8_nodes", len(s.proposer.last) > 8)
    case.count("bushy_trees")


class Dice:
    def __init__(self):
        self.u, self.used = .5, 0

    def sample(self):
        self.used += 1
        return self.u


class One:
    """Always the same proposal."""

    def __init__(self, m):
        self.m = m

    def propose(self, tree):
        return self.m


def tails(case):
    """Acceptance at chosen draws: moves of tiny probability are accepted by tiny draws and by no larger ones."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 10, 40])
    obl = case.index % 2 == 1
    dice = Dice()

    def run(lr, u):
        tree = gen.single_tree(X, y)
        m = (gen.oblivious_proposer(1 - 1e-12) if obl else gen.proposer(1 - 1e-12)).propose(tree)
        lr = float(lr)
        if obl:
            from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as S
        else:
            from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler as S
        dice.u = u
        s = S(One(m), Fixed(lambda: lr), dice)
        before = len(tree.nodes)
        r = changed(s.step(None, tree))
        case.equal(len(tree.nodes) != before, r, "the reported outcome does not say whether the tree changed")
        return r
    # only where the given uniform decides: accepted by a small draw, rejected by a large one
    if not (run(-.5, 1e-6) and run(np.log(.5), .49) and not run(np.log(.5), .51)):
        case.count("undecided")
        return
    for lr in list(-rng.uniform(0, 30, size=25)) + [-1e-9, -25., -10.]:
        p = float(np.exp(lr))
        case.check(run(lr, p * (1 - 1e-6)), "a move is rejected although the draw is below its acceptance probability", log_ratio=lr)
        case.check(not run(lr, p * (1 + 1e-6)), "a move is accepted although the draw is above its acceptance probability", log_ratio=lr)
        case.seen(lr)
    for lr in (0., 1e-9, .5, 40., 710., 1e6):
        case.check(run(lr, 1 - 1e-12), "a move with ratio >= 1 was rejected", log_ratio=lr)
        case.check(run(lr, 1e-12), "a move with ratio >= 1 was rejected", log_ratio=lr)
    for lr in (-45., -800., -1e9):
        case.check(not run(lr, 1e-15), "a move is accepted although the draw is above its acceptance probability", log_ratio=lr)
    case.count("tail_decisions", 2 * 28 + 12 + 3)


def real(case):
    """Real sampling: recorded ratios against recorded decisions, pooled over the whole run."""
    from bartpy.trace import TraceLogger
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[3, 5, 10, 20, 40])
    model = gen.make_model(rng, X, y, n_trees=int(rng.choice([1, 2, 5])), **gen.hyper(rng))
    case.describe(**d)
    s = gen.real_sampler(gen.p_grow(rng))
    s.proposer, s.likihood_ratio = SpyProposer(s.proposer), SpyRatio(s.likihood_ratio)

    log = []

    class W(gen.TreeSamplerWrapper):
        def step(self, m, tree):
            acc, seen = watched_step(case, s, m, tree, X)
            case.check(len(seen) == 1 and seen[0][0] is s.proposer.last, "the ratio was evaluated for another move than the proposed one")
            log.append((seen[0][1], acc))
            return acc or None
    ms = gen.model_sampler(W(s))

    def draw(k):
        del log[:]
        while len(log) < k:
            ms.step(model, TraceLogger())
        case.count("steps", len(log))
        return np.array(log, float)

    def test(a):
        p = np.exp(np.minimum(a[:, 0], 0.))
        case.check(not np.any((p >= 1) & (a[:, 1] == 0)), "a move with ratio >= 1 was rejected")
        v = (p * (1 - p)).sum()
        d = (a[:, 1] - p).sum()
        if v < 5:
            return 1.0
        return two_sided(d / np.sqrt(v))
    stat.confirmed(case, draw, test, 300, "during sampling moves are not accepted with probability min(1, ratio)")


def parts():
    return [Part("probability", probability, 48, 300, needs=("steps",)),
            Part("application", application, 100, 1200, needs=("accepted", "rejected")),
            Part("bushy", bushy, 24, 240, needs=("accepted", "rejected", "bushy_trees", "accepted_moves_of_more_than_8_nodes")),
            Part("tails", tails, 12, 120),
            Part("real", real, 60, 600, needs=("accepted", "rejected"))]
