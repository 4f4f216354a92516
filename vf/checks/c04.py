"""C04: tree proposals are legal and uniformly drawn."""
from collections import Counter

import numpy as np
from scipy.stats import norm

from vf import gen, oracle, stat, work
from vf.core import Part

RULE = ("one case = one tree on one data set with one grow/prune probability; thousands of proposals are drawn from it, each checked for "
        "legality and against an unchanged tree, and their frequencies tested against the exact proposal distribution (chi-square on the move, "
        "node, variable and threshold marginals, confirmed on a fresh sample); a state is a distinct proposal (move, node, variable, threshold)")
ASSUMPTIONS = ["grow and prune probabilities lie strictly between 0 and 1", "covariates are finite",
               "frequency tests accept a wrong distribution that differs by less than they can resolve at the sample sizes used"]


def paths(root):
    out = {}

    def go(n, p):
        out[id(n)] = p
        if not oracle.is_leaf(n):
            go(n.left_child, p + "L")
            go(n.right_child, p + "R")
    go(root, "")
    return out


def exact(tree, X, pg):
    """{proposal key: probability}"""
    root = oracle.root_of(tree)
    rows = oracle.rows_by_walk(root, X)
    path = paths(root)
    leaves = [(path[id(n)], X[rows[id(n)]]) for n in oracle.reachable(root) if oracle.is_leaf(n)]
    leaves = [(p, R, oracle.splittable_columns(R)) for p, R in leaves]
    leaves = [l for l in leaves if l[2]]
    prunable = [path[id(n)] for n in oracle.reachable(root) if not oracle.is_leaf(n)
                and oracle.is_leaf(n.left_child) and oracle.is_leaf(n.right_child)]
    if leaves and prunable:
        g, q = pg, 1 - pg
    else:
        g, q = (1. if leaves else 0.), (1. if prunable else 0.)
    out = {}
    for p, R, cols in leaves:
        for j in cols:
            vals, probs = oracle.candidates(R[:, j])
            for v, w in zip(vals, probs):
                out[("grow", p, j, float(v) + 0.0)] = g / len(leaves) / len(cols) * w
    for p in prunable:
        out[("prune", p, -1, 0.)] = q / len(prunable)
    return out


def snapshot(tree, full=True):
    out = (oracle.tree_shape(tree), tuple(id(n) for n in tree.nodes))
    if full:
        out += (tuple((int(n.data.X.n_obsv), np.asarray(n.split.condition()).tobytes()) for n in tree.nodes),)
    return out


def key_of(case, m, tree, path, X, rows):
    """Check one proposal is legal and return its key."""
    case.check(m.kind in ("grow", "prune"), "unknown kind of proposal", kind=m.kind)
    case.check(id(m.existing_node) in path, "a proposal changes a node that is not in the tree")
    old, new = m.existing_node, m.updated_node
    mine = rows[id(old)]
    case.equal(new.depth, old.depth, "a proposed node is at another depth than the one it replaces")
    case.check(np.array_equal(np.asarray(new.split.condition()), mine), "a proposed node holds other rows than the one it replaces")
    if m.kind == "prune":
        case.check(not oracle.is_leaf(old) and oracle.is_leaf(old.left_child) and oracle.is_leaf(old.right_child),
                   "a prune is proposed for a node without two leaf children")
        case.check(oracle.is_leaf(new), "a prune does not propose a leaf")
        return ("prune", path[id(old)], -1, 0.)
    case.check(oracle.is_leaf(old), "a grow is proposed for a node that is not a leaf")
    case.check(not oracle.is_leaf(new), "a grow does not propose a decision node")
    v, t = oracle.rule(new)
    col = X[mine, v]
    case.check(np.any(col == t), "the proposed threshold is not an observed value of the leaf", variable=v, value=t)
    case.check(t < col.max(), "the proposed threshold leaves no row on the right", variable=v, value=t)
    l, r = np.asarray(new.left_child.split.condition()), np.asarray(new.right_child.split.condition())
    case.check(np.array_equal(l, mine & (X[:, v] <= t)) and np.array_equal(r, mine & (X[:, v] > t)),
               "the children of a proposed split do not hold the rows on the two sides of its threshold")
    case.check(l.any() and r.any(), "a proposed split has an empty child")
    case.check(oracle.is_leaf(new.left_child) and oracle.is_leaf(new.right_child), "the children of a proposed split are not leaves")
    case.check(new.left_child.depth == old.depth + 1 and new.right_child.depth == old.depth + 1, "proposed children are at the wrong depth")
    return ("grow", path[id(old)], v, t + 0.0)


def group(keys, probs, f):
    """Marginal of f(key) over the exact distribution and the observed keys."""
    cells = {}
    for k, p in probs.items():
        cells.setdefault(f(k), [0., 0])[0] += p
    for k in keys:
        cells.setdefault(f(k), [0., 0])[1] += 1
    a = np.array(list(cells.values()), float)
    return a[:, 1], a[:, 0] * len(keys)


def memory(keys, probs):
    """Successive proposals have nothing to do with each other: move, node and variable repeat as often as they should."""
    ps = []
    for f in (lambda k: k[0], lambda k: k[:2], lambda k: k[:3]):
        for only in (None, "grow", "prune"):
            ks = [f(k) for k in keys if only is None or k[0] == only]
            sub = {}
            for k, p in probs.items():
                if only is None or k[0] == only:
                    sub[f(k)] = sub.get(f(k), 0.) + p
            total = sum(sub.values())
            if len(sub) > 1 and len(ks) > 200:
                sub = {k: p / total for k, p in sub.items()}
                ps += [stat.repeats_p(ks, sub, lag) for lag in (1, 2, 3)]
    return ps or [1.]


def given(keys, probs, cond, f):
    """Chi-square p value of f(key) among the keys with cond(key), minimum over the common conditions."""
    groups = {}
    for k in keys:
        groups.setdefault(cond(k), []).append(k)
    best, m = 1.0, 0
    for c, ks in groups.items():
        if len(ks) < 100:
            continue
        sub = {k: p for k, p in probs.items() if cond(k) == c}
        tot = sum(sub.values())
        o, e = group(ks, {k: p / tot for k, p in sub.items()}, f)
        best, m = min(best, stat.chi2_p(o, e)), m + 1
    return min(1.0, best * max(m, 1))


def tree_for(case, X, y):
    rng = case.rng
    tree = gen.single_tree(X, y)
    mode = rng.randint(5)
    if mode > 0:
        if rng.uniform() < 0.5:
            s = gen.forcing_sampler(0.75)
            for _ in range(int(rng.choice([1, 2, 5, 12, 30]))):
                s.step(None, tree)
        else:
            work.direct_history(case, tree, X, lambda *a: None, steps=int(rng.choice([1, 3, 8, 20])))
    if mode == 4:                                          # saturate: only prunes are left
        for _ in range(80):
            leaves = list(tree.splittable_leaf_nodes)
            if not leaves:
                break
            l = leaves[0]
            R = X[np.asarray(l.split.condition())]
            cols = oracle.splittable_columns(R)
            gen.grow_at(tree, l, cols[0], float(np.unique(R[:, cols[0]])[0]))
    for l in tree.leaf_nodes:
        l.set_value(rng.normal())
    return tree


def frequencies(case):
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[2, 3, 4, 5, 7, 10, 15, 25, 40])
    tree = tree_for(case, X, y)
    pg = float(rng.choice([0.5, 0.5, 0.3, 0.7, 0.9, 0.1, 0.02, 0.98]))
    case.describe(p_grow=pg, leaves=len(tree.leaf_nodes), **d)
    drawn(case, tree, X, pg, 2500 if not case.thorough else 8000)


def drawn(case, tree, X, pg, n):
    """n proposals of one tree against the exact probability of every one."""
    prop = gen.proposer(pg)
    path = paths(oracle.root_of(tree))
    rows = oracle.rows_by_walk(oracle.root_of(tree), X)
    before = snapshot(tree)
    probs = exact(tree, X, pg)
    case.check(abs(sum(probs.values()) - 1) < 1e-9 or not probs, "internal: probabilities")

    def draw(k):
        keys = []
        for i in range(k):
            m = prop.propose(tree)
            case.check(m is not None, "no proposal although a move is possible")
            key = key_of(case, m, tree, path, X, rows)
            case.check(key in probs, "an impossible move was proposed", key=key)
            keys.append(key)
            if i % 50 == 0:
                case.equal(snapshot(tree, False), before[:2], "proposing changed the tree")
        case.count("proposals", k)
        for key in keys[:300]:
            case.seen(key, before[0])
        return keys

    def test(keys):
        ps = [stat.chi2_p(*group(keys, probs, lambda k: k[0])),
              stat.chi2_p(*group(keys, probs, lambda k: k[:2])),
              stat.chi2_p(*group(keys, probs, lambda k: k[:3])),
              stat.chi2_p(*group(keys, probs, lambda k: k)),
              given(keys, probs, lambda k: k[:2], lambda k: k[2]),
              given(keys, probs, lambda k: k[:3], lambda k: k[3])] + memory(keys, probs)
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, n, "proposals do not follow the stated distribution", p_grow=pg,
                   leaves=len(tree.leaf_nodes), prunable=len(tree.prunable_decision_nodes))
    case.equal(snapshot(tree), before, "proposing changed the tree")


def wide(case):
    """Many columns, many rows: uniformity of the variable, the leaf and the quantile of the threshold."""
    rng = case.rng
    n, p = int(rng.choice([50, 400, 1500])), int(rng.choice([1, 3, 15, 40]))
    X, names = gen.covariates(rng, n, p, ["normal", "ints", "constant", "few_dups", "sorted", "first_outlier", "binary"])
    if not gen.usable(X):
        X[:, 0] = rng.normal(size=n)
    tree = gen.single_tree(X, rng.normal(size=n))
    s = gen.forcing_sampler(0.8)
    for _ in range(int(rng.choice([0, 3, 10]))):
        s.step(None, tree)
    pg = gen.p_grow(rng)
    case.describe(n=n, p=p, p_grow=pg, leaves=len(tree.leaf_nodes))
    proposals_of_a_large_tree(case, tree, X, pg, 1500)


def proposals_of_a_large_tree(case, tree, X, pg, n):
    path = paths(oracle.root_of(tree))
    rows = oracle.rows_by_walk(oracle.root_of(tree), X)
    probs = exact(tree, X, pg)
    prop = gen.proposer(pg)
    before = snapshot(tree, False)
    rank, place, of = {}, {}, {p: i for i, p in path.items()}
    for k in sorted(k for k in probs if k[0] == "grow"):
        rank[k] = 1 + rank.get(k[:3], -1)
        rank[k[:3]] = rank[k]
    for q in {k[:3] for k in probs if k[0] == "grow"}:
        column = X[rows[of[q[1]]], q[2]]
        values, first = np.unique(column, return_index=True)
        for v, f in zip(values, first):
            place[q + (float(v) + 0.0,)] = f / len(column)

    def draw(k):
        keys = []
        for _ in range(k):
            m = prop.propose(tree)
            keys.append(key_of(case, m, tree, path, X, rows))
            case.check(keys[-1] in probs, "an impossible move was proposed", key=keys[-1])
        case.count("proposals", k)
        return keys

    def test(keys):
        ps = [stat.chi2_p(*group(keys, probs, lambda k: k[0])),
              stat.chi2_p(*group(keys, probs, lambda k: k[:2])),
              stat.chi2_p(*group(keys, probs, lambda k: k[:3]))] + memory(keys, probs)
        # quantile bins of the threshold within each (leaf, variable)
        cum, bins = {}, {}
        for k in sorted(k for k in probs if k[0] == "grow"):
            c = cum.get(k[:3], 0.)
            bins[k] = c
            cum[k[:3]] = c + probs[k]
        grows = [k for k in keys if k[0] == "grow"]
        if grows:
            tot = sum(cum.values())
            cond = {k: v / tot for k, v in probs.items() if k[0] == "grow"}
            ps.append(stat.chi2_p(*group(grows, cond, lambda k: int(8 * bins[k] / cum[k[:3]]))))
            ps.append(stat.chi2_p(*group(grows, cond, lambda k: rank[k] % 2)))
            ps.append(stat.chi2_p(*group(grows, cond, lambda k: rank[k] % 7)))
            ps.append(stat.chi2_p(*group(grows, cond, lambda k: int(8 * place[k]))))
            # how often two draws coincide: values left out are made up for by the others
            pairs = len(grows) * (len(grows) - 1) / 2
            s2, s3 = sum(v ** 2 for v in cond.values()), sum(v ** 3 for v in cond.values())
            same = sum(c * (c - 1) / 2 for c in Counter(grows).values())
            var = pairs * (s2 - s2 ** 2) + pairs * 2 * (len(grows) - 2) * (s3 - s2 ** 2)
            if pairs * s2 > 30 and s2 < .01:
                ps.append(float(2 * norm.sf(abs(same - pairs * s2) / np.sqrt(var))))
        return min(1., min(ps) * len(ps))
    stat.confirmed(case, draw, test, n, "proposals do not follow the stated distribution", p_grow=pg)
    case.equal(snapshot(tree, False), before, "proposing changed the tree")


def ties(case):
    """Columns where one extreme value fills most rows and the others repeat unevenly: the weight of every value."""
    rng = case.rng
    n = int(rng.choice([12, 25, 60, 200]))
    kinds = [["mostly_max"], ["mostly_max", "mostly_min", "ints", "binary"], ["mostly_min", "minmax_ties"]][case.index % 3]
    X, names = gen.covariates(rng, n, int(rng.choice([1, 1, 2, 3])), kinds)
    if not gen.usable(X):
        X[0, 0] -= 1
    tree = gen.single_tree(X, rng.normal(size=n))
    s = gen.forcing_sampler(0.8)
    for _ in range(int(rng.choice([0, 0, 1, 3]))):
        s.step(None, tree)
    pg = gen.p_grow(rng)
    case.describe(n=n, columns=names, p_grow=pg, leaves=len(tree.leaf_nodes))
    drawn(case, tree, X, pg, 4000 if not case.thorough else 12000)
    case.count("tied_columns", X.shape[1])


def bushy(case):
    """Trees with dozens of leaves and prunable nodes, or leaves with thousands of rows."""
    rng = case.rng
    if case.index % 2:
        X, y, d = work.bushy_data(rng, n=int(rng.choice([1200, 3000, 6000])), p=int(rng.choice([1, 2, 6])))
        leaves = int(rng.choice([1, 1, 2, 4]))
        tree = work.grow_bushy(case, gen.single_tree(X, y), leaves)
    elif case.index % 4:
        X, y, d = work.bushy_data(rng)
        tree = work.grow_bushy(case, gen.single_tree(X, y), int(rng.choice([20, 45, 90])))
    else:
        X, y, d = work.bushy_data(rng, n=int(rng.choice([500, 900])))
        tree = work.grow_balanced(case, gen.single_tree(X, y), X, int(rng.choice([50, 90, 150])))
        case.count("splittable_leaves", len(tree.splittable_leaf_nodes))
    pg = float(rng.choice([0.5, 0.7, 0.2]))
    case.describe(leaves=len(tree.leaf_nodes), p_grow=pg, **d)
    proposals_of_a_large_tree(case, tree, X, pg, 1500)
    case.count("bushy_trees")


def legal(case):
    """Proposals along mutation histories of every kind, with the default and the oblivious proposer."""
    rng = case.rng
    pg = gen.p_grow(rng)
    prop, obl = gen.proposer(pg), gen.oblivious_proposer(pg)

    def cb(tree, X, stage, model):
        if rng.uniform() < 0.5 or (len(X) > 200 and rng.uniform() < 0.7):
            return
        before = snapshot(tree)
        root = oracle.root_of(tree)
        path, rows = paths(root), oracle.rows_by_walk(root, X)
        can_grow = any(oracle.splittable_columns(X[rows[id(n)]]) for n in oracle.reachable(root) if oracle.is_leaf(n))
        can_prune = not oracle.is_leaf(root)
        for _ in range(4):
            m = prop.propose(tree)
            case.equal(m is None, not (can_grow or can_prune), "a proposal is made exactly when a move is possible")
            if m is not None:
                k = key_of(case, m, tree, path, X, rows)
                case.check(k[0] != "grow" or can_grow, "grow proposed although no leaf can be split")
                case.seen(k, before[0])
                case.count("proposals")
            else:
                case.count("no_move_possible")
        ms = obl.propose(tree)
        case.equal(len(ms) == 0, not (can_grow or can_prune), "an oblivious proposal is made exactly when a move is possible")
        ks = [key_of(case, m, tree, path, X, rows) for m in ms]
        case.check(len({k[0] for k in ks}) <= 1, "an oblivious proposal mixes grow and prune")
        case.equal(len({k[1] for k in ks}), len(ks), "an oblivious proposal changes a node twice")
        case.equal(snapshot(tree), before, "proposing changed the tree")
    work.drive(case, cb)


def noop(case):
    """Data without any possible split: proposing and stepping are no-ops and terminate."""
    rng = case.rng
    n, p = int(rng.choice([1, 2, 5, 50])), int(rng.choice([1, 2, 5]))
    X = np.repeat(rng.normal(size=(1, p)), n, axis=0)
    y = rng.normal(size=n)
    model = gen.make_model(rng, X, y, n_trees=int(rng.choice([1, 3])))
    case.describe(n=n, p=p)
    pg = float(rng.choice([0.5, 0.01, 0.99]))
    for t in model.trees:
        for o in (False, True):
            before = snapshot(t)
            for _ in range(20):
                out = gen.real_sampler(pg, o).step(model, t)
                case.check(out is None or len(np.atleast_1d(out)) == 0, "a move was made although none is possible")
            case.equal(snapshot(t), before, "a no-op changed the tree")
            case.count("no_ops")


def parts():
    return [Part("frequencies", frequencies, 96, 600, needs=("proposals",)),
            Part("wide", wide, 32, 200, needs=("proposals",)),
            Part("ties", ties, 24, 200, needs=("proposals", "tied_columns")),
            Part("bushy", bushy, 16, 120, needs=("proposals", "bushy_trees")),
            Part("legal", legal, 120, 1500, needs=("proposals", "no_move_possible")),
            Part("noop", noop, 16, 100, needs=("no_ops",))]
