"""C25: split proportions and thresholds drive feature selection consistently."""
import numpy as np
import pandas as pd

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one fitted model, null distribution or selector; splits are counted by walking every stored tree from its root, thresholds recomputed from the definition; "
        "a state is a distinct vector of proportions or thresholds")
ASSUMPTIONS = ["quantiles are numpy's default (linear interpolation)"]


def split_counts(samples, p):
    c = np.zeros(p)

    def go(s):
        if s[0] == "D":
            c[s[1]] += 1
            go(s[4])
            go(s[5])
    for smp in samples:
        for t in smp.trees:
            go(oracle.tree_shape(t))
    return c


def shares(samples, p):
    c = split_counts(samples, p)
    return c / c.sum() if c.sum() else c


def data(case, n=None, p=None):
    rng = case.rng
    n = int(n or rng.choice([3, 10, 25, 50]))
    p = int(p or rng.randint(1, 7))
    X, names = gen.covariates(rng, n, p, ["normal", "ints", "binary", "constant", "uniform", "dup", "first_outlier", "few_dups"])
    y, t = gen.target(rng, X, ["signal", "noise", "strong", "constant"][rng.randint(4)] if p > 1 else "signal")
    case.describe(n=n, p=p, columns=names, target=t)
    return np.ascontiguousarray(X), y


def args(rng):
    return dict(n_trees=gen.n_trees(rng, [1, 3, 8]), n_chains=int(rng.choice([1, 2])), n_samples=int(rng.choice([1, 3, 8])), n_burn=int(rng.choice([0, 4])), thin=float(rng.choice([1., .5, .3])), n_jobs=1,
                tree_sampler=[gen.real_sampler(.5), gen.real_sampler(.8), gen.forcing_sampler(.6), gen.forcing_sampler(.7, oblivious=True)][rng.randint(4)])


def proportions(case):
    from bartpy.diagnostics.features import feature_split_proportions
    rng = case.rng
    X, y = data(case) if case.index % 10 != 7 else data(case, n=40, p=int(rng.choice([12, 25, 60])))
    p = X.shape[1]
    a = args(rng)
    if case.index % 20 == 9:
        a.update(n_samples=150, n_trees=10, n_chains=3, thin=1.)
    m = gen.est(**a).fit(X, y)
    want = shares(m.model_samples, p)
    got = feature_split_proportions(m, list(range(p)))
    case.equal(sorted(got), list(range(p)), "the proportions do not have one entry per column asked for")
    case.close([got[j] for j in range(p)], want, "a split proportion is not the feature's share of all splits", rtol=1e-12, atol=1e-12)
    got = feature_split_proportions(m)
    used = [j for j in range(p) if want[j] > 0]
    case.equal(sorted(got), used, "without columns, the proportions are not those of the features used")
    case.close([got[j] for j in used], want[used], "a split proportion is not the feature's share of all splits", rtol=1e-12, atol=1e-12)
    if used:
        case.close(sum(got.values()), 1., "the proportions do not sum to one", rtol=0, atol=1e-9)
        case.count("fits_with_splits")
        case.seen(want)
    else:
        case.count("fits_without_splits")
    case.check(all(0 <= v <= 1 for v in got.values()), "a proportion is outside [0, 1]")
    sub = [int(j) for j in rng.permutation(p)[:rng.randint(1, p + 1)]] + [p + 3]
    got = feature_split_proportions(m, sub)
    case.close([got[j] for j in sub], [want[j] if j < p else 0. for j in sub], "proportions of some columns are not their shares of all splits", rtol=1e-12, atol=1e-12)
    case.count("proportions")


def deep_trees(case):
    """Split counts of hand-driven histories (deep, unbalanced, pruned) reported as one model sample."""
    from bartpy.diagnostics.features import feature_split_proportions
    from vf import work
    rng = case.rng
    X, y, d = gen.splittable_dataset(rng, sizes=[10, 30, 60], pmax=4)
    trees = []
    for _ in range(int(rng.choice([1, 3]))):
        t = gen.single_tree(X, y)
        (work.direct_history if rng.uniform() < .5 else work.deep_history)(case, t, X, lambda *a: None)
        trees.append(t)

    class Sample:
        pass

    class Fitted:
        pass
    s, m = Sample(), Fitted()
    from bartpy.tree import deep_copy_tree
    s.trees = [deep_copy_tree(t) for t in trees]
    m.model_samples = [s]
    p = X.shape[1]
    got = feature_split_proportions(m, list(range(p)))
    case.close([got[j] for j in range(p)], shares([s], p), "a split proportion is not the feature's share of all splits", rtol=1e-12, atol=1e-12)
    case.count("histories")
    if split_counts([s], p).sum():
        case.seen(split_counts([s], p))


def null_distribution(case):
    from bartpy.diagnostics.features import null_feature_split_proportions_distribution
    from bartpy.sklearnmodel import SklearnModel
    rng = case.rng
    X, y = data(case, n=int(rng.choice([6, 20])), p=int(rng.randint(1, 5)))
    y = y + rng.normal(size=len(y)) * 1e-3              # distinct values
    p = X.shape[1]
    k = int(rng.choice([1, 2, 5, 5, 14]))
    a = args(rng)
    template = gen.est(**a)
    fitted = rng.uniform() < .5
    if fitted:
        template.fit(X, y)
        was = [tuple(oracle.tree_shape(t) for t in s.trees) for s in template.model_samples]
    frame = rng.uniform() < .4
    Xin = pd.DataFrame(X, columns=["f%d" % j for j in range(p)]) if frame else X
    case.describe(permutations=k, fitted=fitted, frame=frame)
    xc, yc = X.copy(), y.copy()
    log = []

    class Watch(gen.TreeSamplerWrapper):
        def __deepcopy__(self, memo):
            return self

        def step(self, model, tree):
            if not any(m is model for m in log):
                log.append(model)
            return self.inner.step(model, tree)
    template.set_params(tree_sampler=Watch(a["tree_sampler"]))
    saved = template.get_params()
    d = null_feature_split_proportions_distribution(template, Xin, y, k)
    case.equal(sorted(d), list(range(p)), "the null distribution does not have one entry per column")
    case.check(all(len(d[j]) == k for j in range(p)), "the null distribution does not hold one proportion per permuted fit", sizes=[len(d[j]) for j in d])
    A = np.array([d[j] for j in range(p)], dtype=float)
    case.check(np.all((A >= 0) & (A <= 1)), "a null proportion is outside [0, 1]")
    tot = A.sum(axis=0)
    case.check(np.all((np.abs(tot - 1) < 1e-9) | (tot == 0)), "null proportions of one fit do not sum to one", totals=tot)
    case.equal(len(log), k * a["n_chains"], "the null distribution does not come from one fit per permutation")
    v = np.sort((y - y.min()) / (y.max() - y.min()) - .5)
    perms = []
    for m in log:
        case.close(np.asarray(m.data.X.values), X, "a null fit does not use the covariates as they are", rtol=0, atol=0)
        case.close(np.sort(np.asarray(m.data.y.values)), v, "a null fit's target is not a permutation of the target", rtol=0, atol=1e-9)
        perms.append(tuple(np.round(np.asarray(m.data.y.values), 9)))
    if len(y) >= 20:
        case.check(len(set(perms)) == k, "the null fits do not each use a permutation of their own", distinct=len(set(perms)))
        orig = tuple(np.round((y - y.min()) / (y.max() - y.min()) - .5, 9))
        case.check(orig not in perms, "a null fit uses the target unpermuted")
        case.count("permutations_checked", k)
        del log[:]                                      # another null distribution has permutations of its own
        null_feature_split_proportions_distribution(template, Xin, y, k)
        again = {tuple(np.round(np.asarray(m.data.y.values), 9)) for m in log}
        case.check(not again & set(perms), "two null distributions are made from the same permutations")
    case.check(np.array_equal(X, xc) and np.array_equal(y, yc), "the null distribution changes the caller's data")
    case.check(all(template.get_params()[q] is saved[q] or template.get_params()[q] == saved[q] for q in saved), "the null distribution changes the caller's model")
    if fitted:
        case.equal([tuple(oracle.tree_shape(t) for t in s.trees) for s in template.model_samples], was, "the null distribution changes the caller's model")
    case.seen(A)
    case.count("null_distributions")


def null_matches_draws(case):
    """Seeded: the null distribution equals the proportions of batch runs on the same permutations."""
    from bartpy.diagnostics.features import null_feature_split_proportions_distribution
    rng = case.rng
    X, y = data(case, n=15, p=3)
    a = dict(args(rng), n_chains=1)
    k = int(rng.choice([2, 4]))
    # one-sweep samples so that the final state of each watched model is its only stored draw
    a.update(n_samples=1, n_burn=int(rng.choice([2, 6])), thin=1.)
    log = []

    class Watch(gen.TreeSamplerWrapper):
        def __deepcopy__(self, memo):
            return self

        def step(self, model, tree):
            if not any(m is model for m in log):
                log.append(model)
            return self.inner.step(model, tree)
    m = gen.est(**dict(a, tree_sampler=Watch(gen.forcing_sampler(.7))))
    d = null_feature_split_proportions_distribution(m, X, y, k)
    want = sorted(tuple(np.round(shares([z], 3), 12)) for z in log)
    got = sorted(tuple(np.round([d[j][i] for j in range(3)], 12)) for i in range(k))
    case.equal(got, want, "the null distribution is not made of the permuted fits' split proportions")
    case.seen(want)
    case.count("matched_fits", k)


def thresholds(case):
    """Thresholds and selection from arbitrary null distributions and proportions."""
    from bartpy.diagnostics import features as F
    rng = case.rng
    p, k = int(rng.choice([1, 2, 5, 12, 40])), int(rng.choice([1, 2, 3, 10, 50, 300]))
    A = rng.dirichlet(np.ones(p) * .7, size=k)
    if rng.uniform() < .4:
        A = np.round(A, 1)
    if rng.uniform() < .2:
        A[rng.randint(k)] = 0
    order = [int(j) for j in rng.permutation(p)] if rng.uniform() < .5 else list(range(p))
    d = {j: list(A[:, j]) for j in order}
    q = float(rng.choice([0., .05, .2, .5, .75, .9, .95, .99, 1., rng.uniform()]))
    case.describe(p=p, fits=k, level=q)
    loc = F.local_thresholds(d, q)
    case.equal(sorted(loc), list(range(p)), "local thresholds do not have one entry per feature")
    wl = {j: float(np.quantile(A[:, j], q)) for j in range(p)}
    case.close([loc[j] for j in range(p)], [wl[j] for j in range(p)], "a local threshold is not the feature's quantile", rtol=1e-12, atol=1e-12)
    glo = F.global_thresholds(d, q)
    wg = float(np.quantile(A.max(axis=1), q))
    case.equal(sorted(glo), list(range(p)), "global thresholds do not have one entry per feature")
    case.close([glo[j] for j in range(p)], [wg] * p, "the global threshold is not the quantile of the per-fit maximum", rtol=1e-12, atol=1e-12)
    case.check(d == {j: list(A[:, j]) for j in range(p)}, "computing thresholds changes the null distribution")
    for th in (loc, glo):
        props = {j: float(v) for j, v in zip(order, rng.dirichlet(np.ones(p)))}
        for j in props:                                  # ties: exactly at the threshold is not above it
            if rng.uniform() < .25:
                props[j] = float(th[j])
            elif rng.uniform() < .2:
                props[j] = float(np.nextafter(th[j], 2.))
        want = [props[j] > th[j] for j in range(p)]
        case.equal([bool(x) for x in F.is_kept(props, th)], want, "a feature is not kept exactly when its proportion exceeds its threshold")
        case.equal([int(x) for x in F.kept_features(props, th)], [j for j in range(p) if want[j]], "the kept features are not those above their threshold")
        a, b = F.partition_into_passed_and_failed_features(props, th)
        case.check(dict(a) == {j: props[j] for j in range(p) if want[j]} and dict(b) == {j: props[j] for j in range(p) if not want[j]}, "features are not split into passed and failed")
    case.seen([loc[j] for j in sorted(loc)], wg)
    case.count("threshold_sets")


def check_transform(case, sel, X, mask, frame):
    Xin = pd.DataFrame(X, columns=["f%d" % j for j in range(X.shape[1])]) if frame else X
    case.equal(np.asarray(sel.get_support()).astype(bool), mask, "the selection mask is not the kept features, one entry per column")
    case.equal(list(sel.get_support(indices=True)), list(np.flatnonzero(mask)), "the selected indices are not the kept columns")
    if mask.any():
        out = np.asarray(sel.transform(X))
        case.close(out, X[:, mask], "transform does not keep exactly the selected columns in order", rtol=0, atol=0)
        case.count("transforms")


def selectors(case):
    from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
    rng = case.rng
    X, y = data(case, n=int(rng.choice([8, 20])), p=int(rng.randint(1, 7) if rng.uniform() < .85 else rng.choice([12, 30])))
    p = X.shape[1]
    a = args(rng)
    frame = rng.uniform() < .3
    Xin = pd.DataFrame(X, columns=["f%d" % j for j in range(p)]) if frame else X
    base = gen.est(**a)
    which = ["proportion", "local", "global"][case.index % 3]
    case.describe(selector=which, frame=frame)
    if which == "proportion":
        lvl = float(rng.choice([.05, .2, .5, 0., 1. / p]))
        sel = SelectSplitProportionThreshold(base, lvl)
        case.check(sel.fit(Xin, y) is sel, "fit does not return the selector")
        want = shares(sel.model.model_samples, p) > lvl
        prop = shares(sel.model.model_samples, p)
    else:
        lvl = float(rng.choice([.5, .95, .1, 0., 1.]))
        k = int(rng.choice([1, 3, 6]))
        nt = None if rng.uniform() < .6 else int(rng.choice([1, 4]))
        sel = SelectNullDistributionThreshold(base, percentile=lvl, method=which, n_permutations=k, n_trees=nt)
        case.check(sel.fit(Xin, y) is sel, "fit does not return the selector")
        case.check(len(sel.model.model_samples[0].trees) == (nt or a["n_trees"]), "the selector does not use the number of trees asked for")
        D = sel.null_distribution
        case.check(sorted(D) == list(range(p)) and all(len(D[j]) == k for j in D), "the selector's null distribution does not hold one proportion per feature and permuted fit")
        A = np.array([D[j] for j in range(p)]).T
        th = np.quantile(A, lvl, axis=0) if which == "local" else np.full(p, np.quantile(A.max(axis=1), lvl))
        case.close([sel.thresholds[j] for j in range(p)], th, "the selector's thresholds are not the quantiles at its level", rtol=1e-12, atol=1e-12)
        prop = shares(sel.model.model_samples, p)
        want = np.array([prop[j] > sel.thresholds[j] for j in range(p)])
    case.close([sel.feature_proportions[j] for j in range(p)], prop, "the selector's proportions are not the shares of splits of its model", rtol=1e-12, atol=1e-12)
    # a proportion that differs from its threshold only by rounding may fall either way
    lim = np.full(p, lvl) if which == "proportion" else th
    near = np.abs(prop - lim) < 1e-12
    got = np.asarray(sel.get_support()).astype(bool)
    case.equal(len(got), p, "the selection mask does not have one entry per covariate column")
    case.equal(got[~near], want[~near], "a feature is not selected exactly when its proportion exceeds its threshold")
    exact = prop[near] == lim[near]
    case.check(not np.any(got[near] & exact), "a feature exactly at its threshold is selected")
    check_transform(case, sel, X, got, frame)
    case.check(sel.model is not base and base.model_samples is None, "selecting features fits the caller's model")
    if p > 1 and rng.uniform() < .5:                   # refit on other columns
        sel.fit(X[:, :p - 1], y)
        case.equal(len(np.asarray(sel.get_support())), p - 1, "after a refit the mask does not have one entry per column")
        pr = shares(sel.model.model_samples, p - 1)
        case.close([sel.feature_proportions[j] for j in range(p - 1)], pr, "after a refit the proportions are stale", rtol=1e-12, atol=1e-12)
        case.count("refits")
    if (split_counts(sel.model.model_samples, p) == 0).any():
        case.count("selectors_with_unused_features")
    case.count("selector_" + which)
    case.seen(prop, got)


def extensions(case):
    """Null distributions and selectors of models that add trees to a base model."""
    from bartpy.diagnostics.features import null_feature_split_proportions_distribution
    from bartpy.extensions.baseestimator import ResidualBART
    from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
    from vf.checks.c26 import recording_base
    rng = case.rng
    n, p, k = int(rng.choice([20, 30])), int(rng.randint(1, 5)), int(rng.choice([1, 3, 5]))
    X = rng.normal(size=(n, p))
    y = X[:, 0] * 5 + rng.normal(size=n)
    a = args(rng)
    Base = recording_base()
    m = ResidualBART(base_estimator=Base(), **a)
    fitted = rng.uniform() < .3
    if fitted:
        m.fit(X + 1, -y)
    del Base.fits[:]
    case.describe(n=n, p=p, permutations=k, fitted=fitted)
    d = null_feature_split_proportions_distribution(m, X, y, k)
    case.equal((sorted(d), [len(d[j]) for j in range(p)]), (list(range(p)), [k] * p), "the null distribution does not hold one proportion per feature and permuted fit")
    tot = np.array([d[j] for j in range(p)]).sum(axis=0)
    case.check(np.all((np.abs(tot - 1) < 1e-9) | (tot == 0)), "null proportions of one fit do not sum to one", totals=tot)
    case.equal(len(Base.fits), k, "the null distribution does not fit one base model per permuted fit")
    for rows in Base.fits:
        case.close(rows, X, "a null fit's base model does not use the covariates as they are", rtol=0, atol=0)
    case.check(fitted or not hasattr(m.base_estimator, "rows_"), "the null distribution fits the caller's base model")
    sel = SelectSplitProportionThreshold(m, .3) if case.index % 2 else SelectNullDistributionThreshold(m, percentile=.8, n_permutations=2)
    sel.fit(X, y)
    prop = shares(sel.model.model_samples, p)
    lim = np.full(p, .3) if case.index % 2 else np.array([sel.thresholds[j] for j in range(p)])
    far = np.abs(prop - lim) > 1e-12
    case.equal((prop > lim)[far], np.asarray(sel.get_support()).astype(bool)[far], "a feature is not selected exactly when its proportion exceeds its threshold")
    case.close(sel.model.base_estimator.target_, y, "the selector's base model is not fitted on the target", rtol=0, atol=0)
    case.seen(tot, prop)
    case.count("extensions")


def unsupported(case):
    from bartpy.features.featureselection import SelectNullDistributionThreshold
    for bad in ("median", "", "LOCAL", "globall"):
        case.raises(NotImplementedError, lambda: SelectNullDistributionThreshold(gen.est(), method=bad), "an unknown method is not refused")
    case.count("refused")


def parts():
    return [Part("proportions", proportions, 120, 2000, needs=("proportions", "fits_with_splits", "fits_without_splits")),
            Part("deep_trees", deep_trees, 60, 800, needs=("histories",)),
            Part("null_distribution", null_distribution, 50, 500, needs=("null_distributions", "permutations_checked")),
            Part("null_matches_draws", null_matches_draws, 30, 300, needs=("matched_fits",)),
            Part("thresholds", thresholds, 300, 6000, needs=("threshold_sets",)),
            Part("selectors", selectors, 90, 900, needs=("selector_proportion", "selector_local", "selector_global", "transforms", "refits", "selectors_with_unused_features")),
            Part("extensions", extensions, 30, 300, needs=("extensions",)),
            Part("unsupported", unsupported, 1, 1, needs=("refused",))]
