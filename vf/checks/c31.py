"""C31: the level-wise tree sampler grows or prunes a whole level, with the stated odds."""
import numpy as np
from scipy import stats

from vf import gen, oracle, stat, work
from vf.checks.c04 import key_of, paths, snapshot
from vf.core import Part

RULE = ("one case = one tree on one data set (random histories of level-wise, single-node and direct mutations, saturated and bushy trees); proposals of the real level-wise proposer are compared node by node "
        "with the set of leaves that can be split / nodes that can be merged according to the rules alone, their rules with the exact distribution, their ratios with dense marginal likelihoods, "
        "and the tree after a step with the proposal; a state is a distinct (tree, proposal)")
ASSUMPTIONS = ["the ratio is judged for equal grow and prune probabilities (for others: up to a constant that depends on the probabilities and the number of nodes only)",
               "the move is not reversible when unsplittable leaf pairs exist; detailed balance is not claimed", "frequency tests have the resolution their sample size gives"]


def facts(tree, X):
    root = oracle.root_of(tree)
    path, rows = paths(root), oracle.rows_by_walk(root, X)
    nodes = oracle.reachable(root)
    grow = {path[id(n)] for n in nodes if oracle.is_leaf(n) and oracle.splittable_columns(X[rows[id(n)]])}
    prune = {path[id(n)] for n in nodes if not oracle.is_leaf(n) and oracle.is_leaf(n.left_child) and oracle.is_leaf(n.right_child)}
    return path, rows, grow, prune


def keys_of(case, ms, tree, X, f):
    """Check a proposal node by node and return its kind and rules."""
    path, rows, grow, prune = f
    case.check(isinstance(ms, (list, tuple)), "a level-wise proposal is not a list of moves")
    case.equal(len(ms) == 0, not grow and not prune, "a level-wise proposal is made exactly when a move is possible", can_grow=len(grow), can_prune=len(prune))
    if len(ms) == 0:
        case.count("no_move_possible")
        return None, {}
    ks = [key_of(case, m, tree, path, X, rows) for m in ms]
    kinds = {k[0] for k in ks}
    case.check(len(kinds) == 1, "a level-wise proposal mixes grow and prune")
    kind = kinds.pop()
    case.equal(sorted(k[1] for k in ks), sorted(grow if kind == "grow" else prune), "a level-wise %s does not change exactly the nodes it should" % kind)
    case.count("proposals_" + kind)
    case.count("nodes_proposed", len(ms))
    return kind, {k[1]: (k[2], k[3]) for k in ks}


def tree_for(case, X, y):
    rng = case.rng
    tree = gen.single_tree(X, y)
    mode = rng.randint(6)
    if mode in (1, 2):
        s = gen.forcing_sampler(float(rng.choice([.6, .8])), oblivious=True)
        for _ in range(rng.randint(1, 6)):
            s.step(None, tree)
    elif mode in (3, 4):
        s = gen.forcing_sampler(.75)
        for _ in range(int(rng.choice([1, 3, 8, 20]))):
            s.step(None, tree)
    elif mode == 5:
        work.direct_history(case, tree, X, lambda *a: None, steps=int(rng.choice([3, 10])))
    for l in tree.leaf_nodes:
        l.set_value(rng.normal())
    return tree


def levels(case):
    """Legality and completeness along histories of every kind."""
    rng = case.rng
    obl = gen.oblivious_proposer(gen.p_grow(rng))

    def cb(tree, X, stage, model):
        if len(X) > 200 and rng.uniform() < .6:
            return
        f = facts(tree, X)
        before = snapshot(tree)
        for _ in range(3):
            kind, rules = keys_of(case, obl.propose(tree), tree, X, f)
            if kind:
                case.seen(before[0], rules)
        case.equal(snapshot(tree), before, "proposing changed the tree")
    work.drive(case, cb, regimes=["oblivious", "forced_oblivious", "forced_oblivious", "forced", "direct", "deep", "init"])


def frequencies(case):
    """Kind, variable and threshold of every leaf, and independence between the leaves and between proposals."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[2, 3, 5, 8, 15, 30, 60])
    tree = tree_for(case, X, y)
    pg = float(rng.choice([.5, .5, .3, .7, .9, .1]))
    obl = gen.oblivious_proposer(pg)
    f = facts(tree, X)
    path, rows, grow, prune = f
    by_path = {path[id(n)]: n for n in tree.nodes}
    dist = {}
    for q in grow:
        R = X[rows[id(by_path[q])]]
        cols = oracle.splittable_columns(R)
        cells = {}
        for j in cols:
            for v, w in zip(*oracle.candidates(R[:, j])):
                cells[(j, float(v) + 0.)] = w / len(cols)
        order = sorted(cells)
        cum = np.concatenate([[0.], np.cumsum([cells[c] for c in order])])
        dist[q] = (cells, {c: (cum[i], cum[i + 1]) for i, c in enumerate(order)})
    case.describe(p_grow=pg, leaves=len(tree.leaf_nodes), splittable=len(grow), prunable=len(prune), **d)
    before = snapshot(tree)
    p1 = (pg if prune else 1.) if grow else 0.
    want = sorted(grow)[:8]
    n = int(min(1500, max(200, 12000 // max(1, len(grow)))))

    def draw(k):
        out = []
        for i in range(k):
            ms = obl.propose(tree)
            if i < 100:
                kind, rules = keys_of(case, ms, tree, X, f)
            else:
                kind = ms[0].kind
                rules = {path[id(m.existing_node)]: (oracle.rule(m.updated_node)[0], oracle.rule(m.updated_node)[1] + 0.) for m in ms} if kind == "grow" else {}
            for q, r in rules.items():
                if kind == "grow":
                    case.check(r in dist[q][0], "an impossible rule was proposed", rule=r)
            out.append((kind, rules))
        case.count("proposals", k)
        return out

    def test(out):
        kinds = np.array([1. if k == "grow" else 0. for k, _ in out])
        ps = [stat.binom_p(int(kinds.sum()), len(out), p1)]
        if 0 < p1 < 1 and len(kinds) > 100:
            a = kinds[:-1] * 2 + kinds[1:]
            ps.append(stat.chi2_p(np.bincount(a.astype(int), minlength=4), np.outer([1 - p1, p1], [1 - p1, p1]).ravel() * len(a)))
        gs = [r for k, r in out if k == "grow"]
        if len(gs) > 50:
            u = np.empty((len(gs), len(want)))
            for c, q in enumerate(want):
                cells, cum = dist[q]
                o = {x: 0 for x in cells}
                for g in gs:
                    o[g[q]] += 1
                order = sorted(cells)
                ps.append(stat.chi2_p([o[x] for x in order], [cells[x] * len(gs) for x in order]))
                cols = sorted({x[0] for x in cells})
                ps.append(stat.chi2_p([sum(o[x] for x in order if x[0] == j) for j in cols], [sum(cells[x] for x in order if x[0] == j) * len(gs) for j in cols]))
                lo = np.array([cum[g[q]][0] for g in gs])
                hi = np.array([cum[g[q]][1] for g in gs])
                u[:, c] = lo + (hi - lo) * rng.uniform(size=len(gs))
            z = stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
            pairs = [(a, b) for a in range(len(want)) for b in range(a)]
            for a, b in pairs:
                ps.append(stat.normal_p((z[:, a] + z[:, b]) / np.sqrt(2)))
                ps.append(2 * stats.norm.sf(abs((z[:, a] * z[:, b]).sum()) / np.sqrt(len(z))))
            for a in range(len(want)):
                ps.append(stat.lag_p(z[:, a], 1))
        return min(1., len(ps) * min(ps))
    if grow or prune:
        stat.confirmed(case, draw, test, n, "level-wise proposals do not follow the stated distribution", p_grow=pg, leaves=len(tree.leaf_nodes))
    case.equal(snapshot(tree), before, "proposing changed the tree")
    case.seen(before[0], pg)


def replace(node, new):
    """Shape of the subtree at node with nodes replaced according to new (id -> node)."""
    n = new.get(id(node))
    if n is not None:
        return oracle.shape(n)
    if oracle.is_leaf(node):
        return oracle.shape(node)
    v, t = oracle.rule(node)
    return ("D", v, t, int(node.depth), replace(node.left_child, new), replace(node.right_child, new))


class Coin:
    def __init__(self):
        self.u, self.asked = .5, 0

    def sample(self):
        self.asked += 1
        return self.u


def ratios(case):
    """The ratio of a whole level, the decision taken on it and the tree afterwards."""
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode
    from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio
    from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[2, 3, 5, 8, 15, 30, 80])
    hp = gen.hyper(rng)
    nt = int(rng.choice([1, 2, 10]))
    model = gen.make_model(rng, X, y, n_trees=nt, **hp)
    case.describe(n_trees=nt, **hp, **d)
    tree = model.trees[0]
    pg = .5 if rng.uniform() < .6 else gen.p_grow(rng)
    ratio = UniformTreeMutationLikihoodRatio() if pg == .5 and rng.uniform() < .5 else UniformTreeMutationLikihoodRatio([pg, 1 - pg])
    const = np.log((1 - pg) / pg)
    proposals = gen.oblivious_proposer(float(rng.choice([.5, .5, .75])))
    chosen, asked, state = [], [], {}

    class Fixed:
        def propose(self, t):
            case.check(t is tree, "the proposer is asked about another tree")
            asked.append(t)
            return chosen[0]

    class Spy:
        def log_probability_ratio(self, mo, t, m):
            case.check(mo is model and t is tree, "the ratio is asked about another model or tree")
            v = float(ratio.log_probability_ratio(mo, t, m))
            state[id(m)] = v
            return v
    coin = Coin()
    sampler = UnconstrainedTreeMutationSampler(Fixed(), Spy(), scalar_sampler=coin)
    for step in range(int(rng.choice([5, 12, 25]))):
        if step % 4 == 0:
            r = rng.normal(size=len(X)) * float(rng.choice([.05, .3, 1.])) + float(rng.choice([0., .5]))
            sg = float(np.exp(rng.uniform(np.log(.05), np.log(3))))
            if rng.uniform() < .25:                 # noise far below, or above, the range of the target
                sg = float(10. ** rng.choice([-8., -6., -5., -4., -3., 1.5]))
                r = rng.normal(size=len(X)) * sg * float(rng.choice([.3, 1., 10.]))
                case.count("far_sigmas")
            tree.update_y(r)
            model.sigma.set_value(sg)
        for l in tree.leaf_nodes:
            l.set_value(rng.normal())
        if rng.uniform() < .15 and step:          # leave the level structure
            s = gen.forcing_sampler(.6)
            s.step(None, tree)
        f = facts(tree, X)
        before = snapshot(tree)
        values = {id(l): l.current_value for l in tree.leaf_nodes}
        # a first look at the ratio of this kind of proposal
        ms = proposals.propose(tree)
        kind, rules = keys_of(case, ms, tree, X, f)
        if kind is None:
            break
        root = oracle.root_of(tree)
        sm, s = .5 / (model.k * np.sqrt(nt)), float(model.sigma.current_value())
        b = oracle.shape(root)
        a = replace(root, {id(m.existing_node): m.updated_node for m in ms})
        lik = oracle.log_likelihood(a, X, r, s, sm) - oracle.log_likelihood(b, X, r, s, sm)
        pri = oracle.log_split_prior(a, model.alpha, model.beta) - oracle.log_split_prior(b, model.alpha, model.beta)
        tol = 1e-6 + 1e-11 * float((r * r).sum()) / s ** 2 * len(r)
        got = [float(ratio.log_probability_ratio(model, tree, m)) for m in ms]
        case.close(sum(float(ratio.log_likihood_ratio(model, tree, m)) for m in ms), lik, "the likelihood part of a level-wise %s is not the ratio of the marginal likelihoods" % kind,
                   rtol=1e-7, atol=tol, nodes=len(ms))
        case.close(sum(got), lik + pri + len(ms) * (const if kind == "grow" else -const), "the log ratio of a level-wise %s is not likelihood times prior" % kind, rtol=1e-7, atol=tol + 1e-9 * len(ms), nodes=len(ms), p_grow=pg)
        case.equal(snapshot(tree), before, "asking for a ratio changed the tree")
        case.count("ratios_" + kind)
        # now a step whose coin is just below or just above what its ratio asks for
        accept = rng.uniform() < .7
        tot = sum(got)
        accept = accept or tot > -2e-3                # a uniform draw is below one
        coin.u = min(float(np.exp(max(tot - 1e-3 if accept else tot + 1e-3, -700))), 1 - 1e-9)
        chosen[:], asked[:] = [ms], []
        state.clear()
        out = sampler.step(model, tree)
        case.equal(len(asked), 1, "a step does not ask for exactly one proposal")
        case.equal(sorted(state), sorted(id(m) for m in ms), "not every move of the proposal went into the ratio")
        if tot < -690:
            accept = out is not None      # the coin cannot be placed that finely
        if not accept:
            case.check(out is None, "a level was changed although the coin was above the ratio", ratio=tot)
            case.equal(snapshot(tree), before, "a refused proposal changed the tree")
            case.check(all(values[id(l)] == l.current_value for l in tree.leaf_nodes), "a refused proposal changed leaf values")
            case.count("refused")
            continue
        case.check(out is not None and len(out) == len(ms) and all(x is y for x, y in zip(out, ms)), "an accepted level is not reported", ratio=tot)
        case.count("accepted")
        repl = {id(m.existing_node): m for m in ms}

        def compare(old, now):
            m = repl.get(id(old))
            if m is not None:
                case.check(now is m.updated_node, "a node of an accepted level was not replaced by the proposed one")
                return
            case.check(now is old, "an accepted level replaced a node that was not proposed")
        newroot = oracle.root_of(tree)
        compare(root, newroot)
        live = oracle.reachable(newroot)
        case.equal(sorted(id(n) for n in tree.nodes), sorted(id(n) for n in live), "after a level-wise %s the node list is not the set of reachable nodes" % kind)
        for m in ms:
            case.check(any(n is m.updated_node for n in live), "a proposed node is missing after an accepted level")
            case.check(not any(n is m.existing_node for n in live), "a replaced node is still there after an accepted level")
        case.check(all(values[id(l)] == l.current_value for l in tree.leaf_nodes if id(l) in values), "an accepted level changed the value of an untouched leaf")
        # the way back, when the level can be taken back as a whole
        if kind == "grow":
            rev = [PruneMutation(m.updated_node, LeafNode(m.updated_node.split, depth=m.updated_node.depth)) for m in ms]
        else:
            rev = [GrowMutation(m.updated_node, m.existing_node) for m in ms]
        back = sum(float(ratio.log_probability_ratio(model, tree, m)) for m in rev)
        case.close(back, -tot, "a level-wise move and its reverse do not have opposite log ratios", rtol=1e-7, atol=tol + 1e-9 * len(ms), kind=kind)
        case.count("reversals")
        case.seen(before[0], rules)


def fits(case):
    """What a running estimator does with a level-wise sampler: whole levels or nothing."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[5, 10, 25, 60])
    inner = gen.real_sampler(float(rng.choice([.5, .5, .7, .3])), oblivious=True)
    state = {}

    def before(model, tree):
        state["f"] = facts(tree, X)
        state["s"] = oracle.structure(oracle.tree_shape(tree))
        state["n"] = len(tree.leaf_nodes)

    def after(model, tree, out):
        now = oracle.structure(oracle.tree_shape(tree))
        _, _, grow, prune = state["f"]
        if out is None:
            case.equal(now, state["s"], "a step that reports nothing changed the tree")
            case.count("kept")
            return
        n = len(tree.leaf_nodes)
        grown = n == state["n"] + len(grow) and len(grow) > 0
        pruned = n == state["n"] - len(prune) and len(prune) > 0
        case.check(grown or pruned, "a step changed part of a level", before=state["n"], now=n, splittable=len(grow), prunable=len(prune))
        case.count("levels_changed")
        case.seen(now)

    class Watch(work.Monitor):
        def __deepcopy__(self, memo):
            return self
    kw = dict(n_trees=gen.n_trees(rng, [1, 2, 5]), n_samples=int(rng.choice([5, 15])), n_burn=int(rng.choice([0, 5])), store_in_sample_predictions=True)
    case.describe(**kw, **d)
    m = gen.est(tree_sampler=Watch(inner, before, after), **kw).fit(X, y)
    want = np.array([sum(oracle.tree_predict(t, X) for t in s.trees) for s in m.model_samples])
    case.close(np.array(m.prediction_samples), want, "in-sample predictions are not those of the stored level-wise trees", rtol=1e-9, atol=1e-9)


def parts():
    return [Part("levels", levels, 84, 1000, needs=("proposals_grow", "proposals_prune", "no_move_possible")),
            Part("frequencies", frequencies, 72, 600, needs=("proposals",)),
            Part("ratios", ratios, 120, 1500, needs=("ratios_grow", "ratios_prune", "accepted", "refused", "reversals")),
            Part("fits", fits, 60, 700, needs=("levels_changed", "kept"))]
