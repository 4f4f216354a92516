"""C27: diagnostics plot the fitted model's own numbers."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")
import matplotlib
matplotlib.use("Agg")
import numpy as np
import pandas as pd
import statsmodels.api as sm
from matplotlib import pyplot as plt

from vf import gen, oracle
from vf.core import Part

RULE = ("one case = one fitted model (random data incl. degenerate ones, samplers, chains, extensions) with every diagnostic drawn on given and on new axes; the points held by the drawn artists are compared "
        "with numbers recomputed from the stored draws; a state is a distinct fitted model whose diagnostics were drawn")
ASSUMPTIONS = ["the points are read from the line, scatter and bar artists of the axes; styling, order of artists and labels other than feature names are not judged"]


def point_sets(ax):
    """All (x, y) point sets drawn on the axes."""
    out = []
    for l in ax.get_lines():
        out.append((np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)))
    for c in ax.collections:
        o = np.ma.getdata(c.get_offsets())
        if len(o):
            o = np.asarray(o, dtype=float)
            out.append((o[:, 0], o[:, 1]))
    return out


def same(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


def has_series(case, ax, y, what, tol=1e-9):
    """Some artist shows y against 0, 1, 2, ..."""
    case.check(any(same(v, y, tol) and same(u, np.arange(len(v)), 0) for u, v in point_sets(ax)), what, expected=np.asarray(y)[:6],
               drawn=[v[:6] for _, v in point_sets(ax)][:4])
    case.count("series_compared")


def has_points(case, ax, x, y, what, tol, any_order=False):
    def key(a, b):
        o = np.lexsort((b, a))
        return np.asarray(a)[o], np.asarray(b)[o]
    ok = False
    for u, v in point_sets(ax):
        if len(u) != len(x):
            continue
        ok = ok or (same(u, x, tol) and same(v, y, tol))
        if not ok and any_order:
            a, b = key(u, v), key(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
            ok = same(a[0], b[0], tol) and same(a[1], b[1], tol)
    case.check(ok, what, n=len(x), drawn=[len(u) for u, _ in point_sets(ax)])
    case.count("series_compared")


def bars(ax):
    return [p for p in ax.patches if isinstance(p, matplotlib.patches.Rectangle)]


def numbers(m, X, base=None, y=None):
    """Everything the diagnostics should show, recomputed from the stored draws."""
    d = {"sigma": [float(s.sigma.current_value()) for s in m.model_samples]}
    lo, mean, hi = [], [], []
    p = X.shape[1]
    counts = np.zeros(p)

    def walk(s, out):
        out.append(s[2] if s[0] == "L" else s[3])
        if s[0] == "D":
            counts[s[1]] += 1
            walk(s[4], out)
            walk(s[5], out)
    for s in m.model_samples:
        depths = []
        for t in s.trees:
            walk(oracle.tree_shape(t), depths)
        lo.append(min(depths)), mean.append(float(np.mean(depths))), hi.append(max(depths))
    d["depth"] = (lo, mean, hi)
    r = y if base is None else y - base(X)
    f = np.mean([oracle.model_predict(s, X) for s in m.model_samples], axis=0)
    pred = float(r.min()) + (f + .5) * float(r.max() - r.min())
    d["pred"] = pred if base is None else pred + base(X)
    d["resid"] = y - d["pred"]
    d["counts"] = counts
    return d


def tol_of(y):
    return 1e-8 * (float(np.abs(y).max()) + float(np.ptp(y))) + 1e-300


def random_model(case, accept=None):
    rng = case.rng
    X, y, d = gen.dataset(rng, sizes=[1, 2, 3, 5, 10, 30] if case.index % 9 or case.index % 24 == 12 else [400, 1500], pmax=5 if case.index % 7 else 30, kinds=["normal", "ints", "binary", "constant", "dup", "first_outlier", "uniform", "adjacent", "huge_offset", "minmax_ties"],
                          targets=["signal", "noise", "strong", "constant", "binary", "ints", "outlier", "offset", "tiny_scale"])
    X = np.ascontiguousarray(X)
    a = dict(n_trees=gen.n_trees(rng, [1, 3, 6], .06 if case.index % 12 else 0.), n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.choice([1, 2, 5, 12] if case.index % 12 else [110, 250, 700])), n_burn=int(rng.choice([0, 3])), thin=float(rng.choice([1., .5, .1])),
             store_in_sample_predictions=bool(rng.randint(2)), store_acceptance_trace=bool(rng.randint(2)) if accept is None else accept, n_jobs=1,
             tree_sampler=[gen.real_sampler(.5), gen.forcing_sampler(.6), gen.forcing_sampler(.8), gen.real_sampler(.5, oblivious=True)][rng.randint(4)])
    if case.index % 24 == 12:
        a.update(n_samples=int(rng.choice([900, 1300])), thin=1., n_trees=1, n_chains=min(2, a["n_chains"]))
    base = None
    u = rng.uniform()
    if u < .12 and len(X) > 2 and np.abs(X).max() < 1e6:
        from sklearn.linear_model import Ridge
        from bartpy.extensions.baseestimator import ResidualBART
        m = ResidualBART(base_estimator=Ridge(alpha=1.), **a)
        base = Ridge(alpha=1.).fit(X, y).predict
        case.count("extensions")
    else:
        m = gen.est(**a)
    Xin = pd.DataFrame(X, columns=["f%d" % j for j in range(X.shape[1])]) if base is None and rng.uniform() < .3 else X
    yin = pd.Series(y) if base is None and rng.uniform() < .15 else y
    m.fit(Xin, yin)
    case.describe(**d, **{k: v for k, v in a.items() if k != "tree_sampler"})
    return m, X, y, numbers(m, X, base, y), a


def axes(case, given):
    plt.close("all")
    if not given:
        return None
    if case.rng.uniform() < .5:
        return plt.subplots(1, 1)[1]
    fig, axs = plt.subplots(1, 3)
    plt.sca(axs[2])                     # the current axes are not the given ones
    return axs[0]


def draw(case, f, m, given):
    ax = axes(case, given)
    out = f(m, ax) if given else f(m)
    case.check(out is not None, "a diagnostic does not return its axes")
    if given:
        case.check(out is ax, "a diagnostic is not drawn on the given axes")
        for other in ax.figure.axes:
            if other is not ax:
                case.check(not other.lines and not other.collections and not other.patches, "a diagnostic draws on other axes than the given ones")
    case.count("plots")
    return out


def singles(case):
    from bartpy.diagnostics.features import plot_feature_split_proportions
    from bartpy.diagnostics.residuals import plot_homoskedasity_diagnostics, plot_qq
    from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
    from bartpy.diagnostics.sigma import plot_sigma_convergence
    from bartpy.diagnostics.trees import plot_tree_depth
    rng = case.rng
    m, X, y, d, a = random_model(case)
    t = tol_of(y)
    given = bool(rng.randint(2))
    ax = draw(case, plot_sigma_convergence, m, given)
    has_series(case, ax, d["sigma"], "the sigma plot does not show sigma of every stored sample")
    case.equal(len(ax.get_lines()), 1, "the sigma plot shows something else besides")
    ax = draw(case, plot_tree_depth, m, given)
    check_depth(case, ax, d)
    ax = draw(case, plot_tree_mutation_acceptance_rate, m, given)
    check_acceptance(case, ax, m, a)
    ax = draw(case, plot_qq, m, given)
    check_qq(case, ax, d, t)
    ax = draw(case, plot_homoskedasity_diagnostics, m, given)
    has_points(case, ax, d["pred"], d["resid"], "the residual plot does not show residuals against predictions", 3 * t, any_order=True)
    ax = draw(case, plot_feature_split_proportions, m, given)
    check_bars(case, ax, d)
    plt.close("all")
    case.seen(d["sigma"])


def check_depth(case, ax, d):
    for v, what in zip(d["depth"], ("minimum", "mean", "maximum")):
        has_series(case, ax, v, "the depth plot does not show the %s node depth of every sample" % what)
    case.equal(len(ax.get_lines()), 3, "the depth plot does not show three series")
    labels = {l.get_label().lower(): np.asarray(l.get_ydata(), dtype=float) for l in ax.get_lines()}
    for word, v in zip(("min", "mean", "max"), d["depth"]):
        hit = [w for k, w in labels.items() if word in k]
        if hit:
            case.check(same(hit[0], v, 1e-9), "a depth series carries the wrong label", label=word)


def check_acceptance(case, ax, m, a):
    if a["store_acceptance_trace"]:
        case.equal(len(m.acceptance_trace), len(m.model_samples), "there is not one acceptance entry per stored sample")
        has_series(case, ax, [z["Tree"] for z in m.acceptance_trace], "the acceptance plot does not show the acceptance rate of every stored sample")
        case.count("acceptance_plots")
    lim = ax.get_ylim()
    case.check(lim[0] <= 0 and lim[1] >= 1, "the acceptance plot hides part of the range of rates", limits=lim)


def check_qq(case, ax, d, t):
    r = np.asarray(d["resid"], dtype=float)
    sd = r.std()
    if len(r) > 1 and sd > 1e3 * t:
        want = np.sort((r - r.mean()) / sd)
        tol = 1e-6 + 10 * t / sd
        hit = [u for u, v in point_sets(ax) if len(v) == len(want) and same(np.sort(v), want, tol) and np.all(np.diff(v) >= -tol)]
        case.check(len(hit) >= 1, "the QQ plot does not show the quantiles of the residuals", n=len(r))
        from scipy import stats
        case.check(any(np.all(np.diff(u) > 0) and same(u, stats.norm.ppf(np.arange(1, len(r) + 1) / (len(r) + 1.)), 1e-6) for u in hit), "the QQ plot's reference quantiles are not those of the normal distribution")
        case.count("qq_plots")
        case.count("series_compared")


def check_bars(case, ax, d):
    used = np.flatnonzero(d["counts"])
    want = d["counts"][used] / max(1, d["counts"].sum())
    b = bars(ax)
    case.equal(len(b), len(used), "the split proportion plot does not have one bar per feature used")
    if len(used):
        b = sorted(b, key=lambda p: p.get_y() + p.get_height() / 2)
        case.close([p.get_width() for p in b], want, "the split proportion plot does not show each feature's share of the splits", rtol=1e-9, atol=1e-9)
        labels = [x.get_text() for x in ax.get_yticklabels()]
        case.equal([int(float(x)) for x in labels if x], [int(j) for j in used], "the bars of the split proportion plot carry the wrong features")
        case.count("proportion_plots")
        case.count("series_compared")


class SilentShow:
    """plt.show() would close nothing under Agg; it is counted and the figure is kept."""

    def __enter__(self):
        self.calls = 0
        self.saved = plt.show

        def show(*a, **k):
            self.calls += 1
        plt.show = show
        return self

    def __exit__(self, *a):
        plt.show = self.saved


def summary(case):
    """plot_diagnostics draws all of them, each on axes of its own."""
    from bartpy.diagnostics.diagnostics import plot_diagnostics
    m, X, y, d, a = random_model(case)
    t = tol_of(y)
    plt.close("all")
    with SilentShow():
        plot_diagnostics(m)
        axs = [ax for i in plt.get_fignums() for ax in plt.figure(i).axes]
    by = {}
    for ax in axs:
        by.setdefault(ax.get_title().lower(), []).append(ax)

    def find(word):
        hit = [x for k, v in by.items() if word in k for x in v]
        case.check(len(hit) == 1, "the diagnostics do not show exactly one %s plot" % word, titles=list(by))
        return hit[0]
    has_series(case, find("sigma"), d["sigma"], "the diagnostics do not show sigma of every stored sample")
    check_depth(case, find("depth"), d)
    check_acceptance(case, find("acceptance"), m, a)
    check_qq(case, find("qq"), d, t)
    has_points(case, find("residual"), d["pred"], d["resid"], "the diagnostics do not show residuals against predictions", 3 * t, any_order=True)
    plt.close("all")
    case.count("summaries")
    case.seen(d["sigma"])


def plotting(case):
    from bartpy.plotting import plot_modelled_against_actual, plot_residuals
    m, X, y, d, a = random_model(case)
    t = tol_of(y)
    plt.close("all")
    with SilentShow():
        plot_residuals(m)
        has_series(case, plt.gca(), d["resid"], "the residual plot does not show target minus prediction", 3 * t)
        plt.close("all")
        plot_modelled_against_actual(m)
        has_series(case, plt.gca(), d["pred"], "the plot of modelled against actual values does not show the modelled values", 3 * t)
        has_series(case, plt.gca(), y, "the plot of modelled against actual values does not show the actual values", 3 * t)
    plt.close("all")
    case.count("plots", 2)


def null_plots(case):
    """Null distributions and thresholds."""
    from bartpy.diagnostics import features as F
    rng = case.rng
    p, k = int(rng.choice([1, 2, 4, 8])), int(rng.choice([1, 2, 5, 20]))
    A = rng.dirichlet(np.ones(p), size=k)
    d = {j: list(A[:, j]) for j in range(p)}
    given = bool(rng.randint(2))
    ax = axes(case, given)
    out = F.plot_null_feature_importance_distributions(d, ax) if given else F.plot_null_feature_importance_distributions(d)
    if given:
        case.check(out is ax, "the null distribution plot is not drawn on the given axes")
    lines = [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in out.get_lines()]
    for j in range(p):
        med = np.median(A[:, j])
        case.check(any(len(v) >= 2 and np.allclose(v, med, rtol=0, atol=1e-9) and abs(u.mean() - j) < .5 for u, v in lines), "the null distribution plot does not show a feature's distribution", feature=j)
    ticks = [x.get_text() for x in out.get_xticklabels()]
    case.equal([int(float(x)) for x in ticks if x], list(range(p)), "the boxes of the null distribution plot carry the wrong features")
    th = F.local_thresholds(d, .8) if rng.uniform() < .5 else F.global_thresholds(d, .8)
    props = {j: float(v) for j, v in enumerate(rng.dirichlet(np.ones(p)))}
    ax = axes(case, given)
    out = F.plot_feature_proportions_against_thresholds(props, th, ax) if given else F.plot_feature_proportions_against_thresholds(props, th)
    if given:
        case.check(out is ax, "the threshold plot is not drawn on the given axes")
    b = sorted(bars(out), key=lambda q: q.get_x())
    case.close([q.get_height() for q in b], [100 * th[j] for j in range(p)], "the threshold plot does not show each feature's threshold in percent", rtol=1e-9, atol=1e-9)
    case.close([q.get_x() + q.get_width() / 2 for q in b], np.arange(p), "the thresholds are drawn at other features", rtol=0, atol=1e-6)
    for passed in (True, False):
        want = sorted((j, 100 * props[j]) for j in range(p) if (props[j] > th[j]) == passed)
        if want:
            hit = [(u, v, c) for (u, v), c in zip([(np.asarray(c.get_offsets(), dtype=float)[:, 0], np.asarray(c.get_offsets(), dtype=float)[:, 1]) for c in out.collections if len(c.get_offsets())],
                                                  [c.get_facecolor() for c in out.collections if len(c.get_offsets())]) if sorted(zip(u.tolist(), v.tolist())) == want or
                   (len(u) == len(want) and np.allclose(sorted(zip(u, v)), want, rtol=1e-9, atol=1e-9))]
            case.check(len(hit) == 1, "the threshold plot does not show the %s features" % ("passed" if passed else "failed"))
            r, g = hit[0][2][0][0], hit[0][2][0][1]
            case.check((g > r) == passed, "passed and failed features are not told apart")
    plt.close("all")
    case.count("null_plots")
    case.seen(A)


def selector_plots(case):
    from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
    rng = case.rng
    X, names = gen.covariates(rng, 12, 3, ["normal", "ints", "uniform"])
    X[0, 0], X[-1, 0] = -4., 4.
    y, _ = gen.target(rng, X, "strong")
    m = gen.est(n_trees=3, n_samples=3, tree_sampler=gen.forcing_sampler(.7))
    plt.close("all")
    with SilentShow():
        sel = SelectSplitProportionThreshold(m, .2).fit(X, y)
        sel.plot()
        d = numbers(sel.model, X, None, y)
        check_bars(case, plt.gcf().axes[0], d)
        plt.close("all")
        sel = SelectNullDistributionThreshold(m, n_permutations=2, method=["local", "global"][rng.randint(2)]).fit(X, y)
        sel.plot()
        hs = [q.get_height() for ax in plt.gcf().axes for q in bars(ax)]
        case.check(all(any(abs(h - 100 * sel.thresholds[j]) < 1e-9 for h in hs) for j in range(3)), "the selector's plot does not show its thresholds")
    plt.close("all")
    case.count("selector_plots")


def importance_plot(case):
    from bartpy.features.featureimportance import feature_importance
    rng = case.rng
    X = rng.normal(size=(12, 2))
    y = X[:, 0] * 3 + rng.normal(size=12)
    plt.close("all")
    k, reps = 2, int(rng.choice([1, 3]))
    orig, null = feature_importance(gen.est(n_trees=2, n_samples=2), X, y, int(rng.randint(2)), k, reps)
    ax = plt.gca()
    b = [q for q in bars(ax) if q.get_height() > 0]
    case.close(sum(q.get_height() for q in b), k + k * reps, "the importance plot does not show every error", rtol=0, atol=1e-9)
    lo, hi = min(q.get_x() for q in b), max(q.get_x() + q.get_width() for q in b)
    v = list(orig) + list(null)
    w = 1e-6 * max(v)
    case.check(lo <= min(v) + w and hi >= max(v) - w, "the importance plot does not cover the errors")
    plt.close("all")
    case.count("importance_plots")


def parts():
    return [Part("singles", singles, 80, 800, needs=("plots", "series_compared", "acceptance_plots", "qq_plots", "proportion_plots", "extensions")),
            Part("summary", summary, 32, 300, needs=("summaries",)),
            Part("plotting", plotting, 60, 600, needs=("plots",)),
            Part("null_plots", null_plots, 40, 300, needs=("null_plots",)),
            Part("selector_plots", selector_plots, 10, 60, needs=("selector_plots",)),
            Part("importance_plot", importance_plot, 10, 60, needs=("importance_plots",))]
