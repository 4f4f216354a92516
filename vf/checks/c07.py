"""C07: the acceptance ratio is the Metropolis-Hastings ratio."""
import numpy as np

from vf import gen, oracle, work
from vf.core import Part

RULE = ("one case = one data set, tree history, residual, sigma, number of trees, alpha, beta, k and grow/prune probability; the log ratio of every proposed "
        "move is compared with one computed from the definition (dense Gaussian marginal likelihoods, tree prior, proposal counts from the rules alone) and, "
        "after applying the move, with minus the ratio of the reverse move; a state is a distinct (structure before, move, hyperparameters) triple")
ASSUMPTIONS = ["default (unconstrained) tree sampler", "alpha in (0,1), 0 < p_grow < 1", "equality up to floating-point rounding"]


def substitute(root, node, new):
    """Shape of the tree at root with node replaced by new."""
    if root is node:
        return oracle.shape(new)
    if oracle.is_leaf(root):
        return oracle.shape(root)
    v, t = oracle.rule(root)
    return ("D", v, t, int(root.depth), substitute(root.left_child, node, new), substitute(root.right_child, node, new))


def check_move(case, sampler, model, tree, m, X, r, pg, apply):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode
    from bartpy.tree import mutate
    root = oracle.root_of(tree)
    before = oracle.shape(root)
    after = substitute(root, m.existing_node, m.updated_node)
    args = (X, r, float(model.sigma.current_value()), 0.5 / (model.k * np.sqrt(len(model.trees))), model.alpha, model.beta, pg)
    want = oracle.mh_log_ratio(before, after, *args)
    got = float(sampler.likihood_ratio.log_probability_ratio(model, tree, m))
    ss = float(np.sum(r * r)) / args[2] ** 2
    tol = 1e-6 + 1e-11 * ss * len(r)
    case.close(got, want, "the log ratio of a %s is not the Metropolis-Hastings ratio" % m.kind, rtol=1e-7, atol=tol,
               n=len(X), leaves=oracle.n_leaves(before), p_grow=pg, alpha=model.alpha, beta=model.beta, k=model.k,
               sigma=args[2], n_trees=len(model.trees), before=before)
    case.count("ratios_" + m.kind)
    case.seen(oracle.structure(before), oracle.structure(after), [model.alpha, model.beta, model.k, pg])
    if not apply:
        return
    old, new = m.existing_node, m.updated_node
    mutate(tree, m)
    back = PruneMutation(new, LeafNode(new.split, depth=new.depth)) if m.kind == "grow" else None
    if back is None:
        back = GrowMutation(new, old)
    rev = float(sampler.likihood_ratio.log_probability_ratio(model, tree, back))
    case.close(rev, -got, "a move and its reverse do not have opposite log ratios", rtol=1e-7, atol=tol, kind=m.kind)
    case.count("reversals")


def setup(case, X, y, n_trees=None):
    rng = case.rng
    hp = gen.hyper(rng)
    nt = n_trees or int(rng.choice([1, 2, 3, 10, 50]) if len(X) < 120 else rng.choice([1, 3]))
    model = gen.make_model(rng, X, y, n_trees=nt, **hp)
    pg = float(rng.choice([0.5, 0.5, 0.3, 0.7, 0.9, 0.1, 0.02, rng.uniform(0.05, 0.95), 0.999, 0.001]))
    case.describe(n_trees=nt, p_grow=pg, **hp)
    sampler = gen.real_sampler(pg)
    if pg == .5 and rng.uniform() < .3:
        from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
        sampler.likihood_ratio = UniformTreeMutationLikihoodRatio()
    return model, pg, sampler


def new_state(case, model, tree, n):
    rng = case.rng
    s = float(np.exp(rng.uniform(np.log(0.02), np.log(5))))
    r = rng.normal(size=n) * float(rng.choice([0.05, 0.3, 0.3, 1., 4.])) + float(rng.choice([0., 0., 0.5, -1.]))
    if rng.uniform() < .25:                                 # noise far below, or above, the range of the target
        s = float(10. ** rng.choice([-8., -6., -5., -4., -3., 1.5]))
        if rng.uniform() < .7:
            r = rng.normal(size=n) * s * float(rng.choice([.3, 1., 10.]))
        case.count("far_sigmas")
    tree.update_y(r)
    model.sigma.set_value(s)
    return r


def walk(case):
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng)
    case.describe(**d)
    model, pg, sampler = setup(case, X, y)
    tree = model.trees[rng.randint(len(model.trees))]
    r = new_state(case, model, tree, len(X))
    steps = 10 if len(X) > 120 else int(rng.choice([10, 30, 60]))
    pp = gen.proposer(float(rng.choice([0.5, 0.7])))
    for _ in range(steps):
        m = (pp if rng.uniform() < 0.7 else sampler.proposer).propose(tree)
        check_move(case, sampler, model, tree, m, X, r, pg, rng.uniform() < 0.75)
        if rng.uniform() < 0.3:
            r = new_state(case, model, tree, len(X))
        if rng.uniform() < 0.3:
            for l in tree.leaf_nodes:
                l.set_value(rng.normal())


def corners(case):
    """Small trees where one of the moves becomes impossible: saturated trees, stumps, ties, unsplittable children."""
    rng = case.rng
    n = int(rng.choice([2, 2, 3, 3, 4, 5, 6]))
    X, names = gen.covariates(rng, n, int(rng.choice([1, 1, 2, 3])), ["ints", "binary", "normal", "few_dups", "constant", "first_outlier", "last_outlier", "minmax_ties"])
    if not gen.usable(X):
        X[0, 0] += 1.
    y = rng.normal(size=n)
    case.describe(n=n, columns=names)
    model, pg, sampler = setup(case, X, y)
    tree = model.trees[0]
    pp = gen.proposer(float(rng.choice([0.5, 0.85, 0.3])))
    r = new_state(case, model, tree, n)
    for _ in range(40):
        m = pp.propose(tree)
        check_move(case, sampler, model, tree, m, X, r, pg, rng.uniform() < 0.8)
        g, p = oracle.tree_stats(oracle.tree_shape(tree), X)
        if not g:
            case.count("saturated_trees")
        if rng.uniform() < 0.3:
            r = new_state(case, model, tree, n)


def between(case):
    """Trees whose thresholds lie between observed values (as an initializer leaves them) and deep paths."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[5, 10, 20, 40, 60])
    case.describe(**d)
    model, pg, sampler = setup(case, X, y)
    tree = model.trees[0]
    if rng.uniform() < 0.5:
        work.direct_history(case, tree, X, lambda *a: None, steps=int(rng.choice([5, 20])))
    else:
        work.deep_history(case, tree, X, lambda *a: None)
    r = new_state(case, model, tree, len(X))
    pp = gen.proposer(0.4)
    for _ in range(20):
        m = pp.propose(tree)
        check_move(case, sampler, model, tree, m, X, r, pg, rng.uniform() < 0.8)


def insitu(case):
    """Ratios as computed inside real sampling."""
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[5, 10, 20, 40, 60])
    case.describe(**d)
    model, pg, sampler = setup(case, X, y, n_trees=int(rng.choice([1, 2, 5, 20])))
    real = sampler.likihood_ratio

    class Spy:
        def log_probability_ratio(self, mod, tree, m):
            got = real.log_probability_ratio(mod, tree, m)
            root = oracle.root_of(tree)
            before, after = oracle.shape(root), substitute(root, m.existing_node, m.updated_node)
            r = np.asarray(root.data.y.values)
            s = float(mod.sigma.current_value())
            want = oracle.mh_log_ratio(before, after, X, r, s, 0.5 / (mod.k * np.sqrt(len(mod.trees))), mod.alpha, mod.beta, pg)
            tol = 1e-6 + 1e-11 * float(np.sum(r * r)) / s ** 2 * len(r)
            case.close(got, want, "during sampling the log ratio of a %s is not the Metropolis-Hastings ratio" % m.kind, rtol=1e-7, atol=tol, sigma=s, before=before)
            case.count("insitu_ratios")
            case.seen(oracle.structure(before), oracle.structure(after))
            return got
    sampler.likihood_ratio = Spy()
    from bartpy.trace import TraceLogger
    ms = gen.model_sampler(sampler)
    for _ in range(15):
        ms.step(model, TraceLogger())


def bushy(case):
    """Trees with dozens of leaves, deep paths in hundreds of rows, or thousands of rows."""
    rng = case.rng
    mode = case.index % 3
    if mode == 0:
        X, y, d = work.bushy_data(rng, n=int(rng.choice([80, 150, 250])))
    elif mode == 1:
        X, y, d = work.bushy_data(rng, n=int(rng.choice([45, 70, 120])), p=2)
    else:
        X, y, d = work.bushy_data(rng, n=int(rng.choice([1500, 5000, 12000])))
    case.describe(mode=["bushy", "deep", "large"][mode], **d)
    model, pg, sampler = setup(case, X, y)
    tree = model.trees[rng.randint(len(model.trees))]
    if mode == 0:
        work.grow_bushy(case, tree, int(rng.choice([15, 30, 60])), model)
    elif mode == 1:
        work.deep_history(case, tree, X, lambda *a: None)
    r = new_state(case, model, tree, len(X))
    deepest = 0
    pp = gen.proposer(0.6)
    for _ in range(12):
        m = pp.propose(tree)
        check_move(case, sampler, model, tree, m, X, r, pg, rng.uniform() < 0.75)
        deepest = max(deepest, m.existing_node.depth)
        if rng.uniform() < 0.3:
            r = new_state(case, model, tree, len(X))
    case.count("large_or_bushy")
    case.count("moves_deeper_than_10", deepest > 10)


def parts():
    need = ("ratios_grow", "ratios_prune", "reversals")
    return [Part("walk", walk, 160, 2500, needs=need),
            Part("corners", corners, 200, 3000, needs=need + ("saturated_trees",)),
            Part("between", between, 80, 1000, needs=need),
            Part("bushy", bushy, 36, 300, needs=need + ("far_sigmas",) + ("large_or_bushy", "moves_deeper_than_10")),
            Part("insitu", insitu, 60, 600, needs=("insitu_ratios",))]
