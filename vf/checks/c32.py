"""C32: a fit that fails or is interrupted leaves the estimator as it was."""
import os
import signal

import numpy as np

from vf import gen, oracle
from vf.checks import c28
from vf.core import Part, digest

RULE = ("one case = one estimator (plain, residual extension or OLS; fitted or not) whose next fit fails at a chosen or random point: in a tree step, an initializer, the base model, on its arguments, "
        "by a signal at an arbitrary moment, or because a worker process dies; everything it stores and answers is compared before and after, and it is then fitted again; "
        "a state is a distinct (estimator, point of failure, progress)")
ASSUMPTIONS = ["an asynchronous signal may strike between the final assignments of a fit; only a difference seen again at other moments counts"]


class Own(Exception):
    """An error only the user knows."""


class Switch:
    """Raises an error when it has been passed a given number of times; shared by all copies in this process."""

    def __init__(self):
        self.left, self.error, self.fired, self.passed = None, None, 0, 0

    def __call__(self):
        self.passed += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left < 0:
            self.fired += 1
            raise self.error

    def __deepcopy__(self, memo):
        return self


class Failing:
    def __init__(self, inner, switch):
        self.inner, self.switch = inner, switch

    def step(self, model, tree):
        self.switch()
        return self.inner.step(model, tree)


def initializer_class():
    from bartpy.initializers.initializer import Initializer

    class I(Initializer):
        def __init__(self, switch):
            self.switch = switch

        def initialize_tree(self, tree):
            self.switch()
    return I


def base_class():
    from sklearn.linear_model import LinearRegression

    class Base(LinearRegression):
        """scikit-learn copies constructor arguments, so the switch is found by name."""
        switch = None

        def __init__(self, where="fit"):
            super().__init__()
            self.where = where

        def fit(self, X, y):
            if Base.switch is not None and self.where == "fit":
                Base.switch()
            return super().fit(X, y)

        def predict(self, X):
            if Base.switch is not None and self.where == "predict" and Base.switch.left is not None:
                Base.switch()
            return super().predict(X)
    return Base


def problem(rng):
    n, p = int(rng.choice([3, 8, 25])), int(rng.choice([1, 2, 4]))
    X = rng.normal(size=(n, p)) * 10. ** rng.randint(-2, 3)
    return X, (rng.normal(size=n) + 2 * (X[:, 0] > 0)) * 10. ** rng.randint(-2, 4) + float(rng.choice([0., 50., -1e3]))


class Subject:
    """An estimator with switches at the points where its fit can be made to fail."""

    def __init__(self, case, kind, n_jobs=1):
        rng = case.rng
        self.kind = kind
        self.steps, self.inits, self.base = Switch(), Switch(), Switch()
        inner = gen.forcing_sampler(.7) if rng.uniform() < .4 else gen.real_sampler(.5)
        kw = dict(n_trees=int(rng.choice([1, 3, 6])), n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.choice([1, 4])), n_burn=int(rng.choice([0, 2])), n_jobs=n_jobs,
                  thin=1., store_in_sample_predictions=bool(rng.uniform() < .7), store_acceptance_trace=True)
        with_init = rng.uniform() < .4
        case.describe(kind=kind, **kw)
        self.total = kw["n_trees"] * kw["n_chains"] * (kw["n_samples"] + kw["n_burn"])
        self.total_inits = kw["n_trees"] * (kw["n_chains"] + 1) if with_init else 0
        self.kw = kw
        self.where_base = str(rng.choice(["fit", "predict"]))
        self.Base = base_class()
        self.Base.switch = self.base
        I = initializer_class()
        init = I(self.inits) if with_init else None

        def make():
            sampler = Failing(inner, self.steps)
            if kind == "residual":
                from bartpy.extensions.baseestimator import ResidualBART
                return ResidualBART(base_estimator=self.Base(self.where_base), tree_sampler=sampler, initializer=init, **kw)
            if kind == "ols":
                import statsmodels.api as sm
                from bartpy.extensions.ols import OLS
                outer = self

                class Model(sm.OLS):
                    def fit(self, *a, **k):
                        outer.base()
                        return super().fit(*a, **k)
                return OLS(Model, tree_sampler=sampler, initializer=init, **kw)
            return gen.est(tree_sampler=sampler, initializer=init, **kw)
        self.make = make
        self.m = make()

    def points(self):
        out = ["steps"] * 3
        if self.total_inits:
            out += ["inits"]
        if self.kind != "plain":
            out += ["base"]
        return out

    def arm(self, rng, point):
        from builtins import KeyboardInterrupt, MemoryError
        exc = [Own, ZeroDivisionError, KeyError, ValueError, RuntimeError, MemoryError, KeyboardInterrupt, OSError][int(rng.randint(8))]
        s = {"steps": self.steps, "inits": self.inits, "base": self.base}[point]
        total = {"steps": self.total, "inits": self.total_inits, "base": 1}[point]
        u = rng.uniform()
        s.left = 0 if u < .15 else total - 1 if u < .4 else int(rng.randint(total))
        s.error, s.fired = exc("raised on purpose"), 0
        return s, exc

    def disarm(self):
        for s in (self.steps, self.inits, self.base):
            s.left = None


def view(m, X, Z, is_fitted):
    """Everything the estimator stores and answers."""
    from sklearn.exceptions import NotFittedError
    from sklearn.utils.validation import check_is_fitted
    if not is_fitted:
        try:
            check_is_fitted(m)
            fitted = True
        except NotFittedError:
            fitted = False
        return {"fitted": fitted, "samples": m.model_samples is None, "predictions": m.prediction_samples is None, "params": params(m)}
    out = c28.fingerprint(m)
    out.update({"predict": digest(m.predict(Z)), "train": digest(m.predict(X)), "residuals": digest(m.residuals(Z, np.arange(len(Z)) * 1.)), "residuals()": digest(m.residuals(X)),
                "score": float(m.score(Z, np.arange(len(Z)) * 1.)), "params": params(m)})
    if m.store_in_sample_predictions:
        out.update({"predict()": digest(m.predict()), "l2": digest(m.l2_error())})
    return out


def params(m):
    return {k: v if isinstance(v, (int, float, bool, str, type(None))) else type(v).__name__ for k, v in m.get_params(deep=False).items()}


def same(case, now, was, what, **kw):
    wrong = [k for k in was if now.get(k) != was[k]]
    case.check(not wrong, what, changed=wrong, **kw)


def content(m, X, Z):
    """What a fit left behind, to be compared between two estimators fitted alike."""
    return {"states": [[oracle.tree_shape(t) for t in s.trees] for s in m.model_samples], "sigmas": [float(s.sigma.current_unnormalized_value()) for s in m.model_samples],
            "predict": [float(v) for v in m.predict(Z)], "residuals": [float(v) for v in m.residuals(X)],
            "in-sample": None if not m.store_in_sample_predictions else [float(v) for v in m.predict()],
            "target": [float(v) for v in m.data.y.unnormalized_y], "covariates": np.asarray(m.data.X.values).tolist()}


def refit(case, s, rng, is_fitted):
    """After the failure a fit does what it would have done on a fresh estimator."""
    X, y = problem(rng)
    Z = rng.normal(size=(5, X.shape[1])) * 10
    seed = int(rng.randint(2 ** 31))
    np.random.seed(seed)
    s.m.fit(X, y)
    fresh = s.make()
    np.random.seed(seed)
    fresh.fit(X, y)
    a, b = content(s.m, X, Z), content(fresh, X, Z)
    case.check(a == b, "after a failed fit, the next fit is not that of a fresh estimator", changed=[k for k in a if a[k] != b[k]])
    case.count("refits")


def start(case, s, rng):
    """-> (rows it was fitted on or None, query rows)"""
    X, y = problem(rng)
    Z = rng.normal(size=(6, X.shape[1])) * 10
    fitted = rng.uniform() < .8
    if fitted:
        s.m.fit(X, y)
    return fitted, X, Z


def failing(case):
    """Errors at a chosen step of the fit, once or several times in a row."""
    rng = case.rng
    s = Subject(case, ["plain", "residual", "plain", "ols"][case.index % 4])
    fitted, X, Z = start(case, s, rng)
    was = view(s.m, X, Z, fitted)
    for _ in range(int(rng.choice([1, 2, 3]))):
        point = s.points()[int(rng.randint(len(s.points())))]
        switch, exc = s.arm(rng, point)
        k = switch.left
        X2, y2 = problem(rng)
        if X2.shape[1] == X.shape[1] and rng.uniform() < .3:
            X2 = np.vstack([X, X])[:len(y2)] if len(X) * 2 >= len(y2) else X2
        try:
            if rng.uniform() < .2:
                s.m.fit_predict(X2, y2)
            else:
                s.m.fit(X2, y2)
            failed = False
        except BaseException as e:
            if not (isinstance(e, exc) and switch.fired):
                raise
            failed = True
        s.disarm()
        if not failed:
            case.check(not switch.fired, "an error raised during a fit does not reach the caller")
            case.count("completed")
            return
        case.count("failures")
        same(case, view(s.m, X, Z, fitted), was, "a failed fit changes the estimator", point=point, after=k, error=exc.__name__, fitted=fitted)
        case.seen(s.kind, point, k, exc.__name__, fitted)
    refit(case, s, rng, fitted)


def arguments(case):
    """Arguments a fit rejects."""
    import pandas as pd
    rng = case.rng
    s = Subject(case, ["plain", "residual", "plain", "ols"][case.index % 4])
    fitted, X, Z = start(case, s, rng)
    was = view(s.m, X, Z, fitted)
    for _ in range(6):
        A, b = problem(rng)
        n, p = A.shape
        what = ["no rows", "no columns", "text", "short target", "long target", "vector", "none", "text target", "one missing object", "no target", "frame of text"][int(rng.randint(11))]
        bad = {"no rows": (A[:0], b[:0]), "no columns": (A[:, :0], b), "text": (np.full(A.shape, "a"), b), "short target": (A, b[:-1]), "long target": (A, np.append(b, 1.)),
               "vector": (A[:, 0], b), "none": (None, b), "text target": (A, np.full(n, "x")), "one missing object": (np.array([[None] * p] * n, dtype=object), b), "no target": (A, None),
               "frame of text": (pd.DataFrame({"a": ["u"] * n}), b)}[what]
        try:
            s.m.fit(*bad)
        except Exception:
            case.count("rejected")
            same(case, view(s.m, X, Z, fitted), was, "a rejected fit changes the estimator", arguments=what, fitted=fitted)
            case.seen(s.kind, what, fitted)
        else:
            case.count("accepted")           # whether these are errors is not for this check to say
            X, y = problem(rng)
            s.m.fit(X, y)
            fitted, Z = True, rng.normal(size=(6, X.shape[1])) * 10
            was = view(s.m, X, Z, fitted)
    refit(case, s, rng, fitted)


class Alarm(BaseException):
    pass


def signals(case):
    """The user interrupts at an arbitrary moment."""
    import time
    rng = case.rng
    s = Subject(case, ["plain", "residual", "ols"][case.index % 3])
    fitted, X, Z = start(case, s, rng)
    was = view(s.m, X, Z, fitted)
    X2, y2 = problem(rng)
    other = s.make()
    t0 = time.time()
    other.fit(X2, y2)
    took = time.time() - t0
    changed = []

    def on_alarm(signum, frame):
        raise Alarm()
    old = signal.signal(signal.SIGALRM, on_alarm)
    try:
        for _ in range(8):
            interrupted = False
            try:
                signal.setitimer(signal.ITIMER_REAL, max(1e-4, took * float(rng.uniform(0, 1.1))))
                try:
                    s.m.fit(X2, y2)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Alarm:
                interrupted = True
            if not interrupted:
                fitted, X, Z = True, X2, rng.normal(size=(6, X2.shape[1])) * 10
                was = view(s.m, X, Z, True)
                case.count("completed")
                X2, y2 = problem(rng)
                continue
            case.count("interruptions")
            try:
                now = view(s.m, X, Z, fitted)
            except Exception as e:
                now = {"unreadable": repr(e)}
            wrong = [k for k in was if now.get(k) != was[k]]
            case.check(True, "")
            if wrong:
                changed.append(wrong)
                s.m = s.make()
                X, y = problem(rng)
                s.m.fit(X, y)
                fitted, Z = True, rng.normal(size=(6, X.shape[1])) * 10
                was = view(s.m, X, Z, True)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    case.check(len(changed) < 2, "interrupted fits change the estimator", changed=changed)
    refit(case, s, rng, fitted)
    case.seen(s.kind, case.index)


class Mortal:
    """A tree sampler that fails, or ends its process, at its k-th step; found in the worker by its own counter."""

    def __init__(self, inner, k, how, home):
        self.inner, self.k, self.how, self.home = inner, k, how, home

    def step(self, model, tree):
        self.k -= 1
        if self.k < 0:
            if self.how == "dies" and os.getpid() != self.home:
                os._exit(3)
            raise ValueError("raised on purpose")
        return self.inner.step(model, tree)


def workers(case):
    """Chains in threads and processes; a process may die."""
    import joblib
    rng = case.rng
    backend, how = [("threading", "raises"), ("loky", "raises"), ("threading", "raises"), ("loky", "dies")][case.index % 4]
    X, y = problem(rng)
    Z = rng.normal(size=(6, X.shape[1])) * 10
    kw = dict(n_trees=2, n_chains=int(rng.choice([2, 4])), n_samples=4, n_burn=1, n_jobs=2)
    m = gen.est(store_in_sample_predictions=True, store_acceptance_trace=True, **kw)
    case.describe(backend=backend, how=how, **kw)
    with joblib.parallel_backend(backend, n_jobs=2):
        if backend == "loky":
            m.set_params(n_jobs=1)
        m.fit(X, y)
        was = view(m, X, Z, True)
        m.set_params(n_jobs=2)
        was["params"], was["settings"] = params(m), was["settings"][:-1] + (2,)
        inner = m.tree_sampler
        X2, y2 = problem(rng)
        m.set_params(tree_sampler=Mortal(inner, int(rng.choice([0, 3, 9])), how, os.getpid()))
        was["params"] = params(m)
        try:
            m.fit(X2, y2)
            failed = False
        except Exception:
            failed = True
        case.check(failed, "a chain that fails is not reported")
        same(case, view(m, X, Z, True), was, "a fit whose worker failed changes the estimator", backend=backend, how=how)
        case.count("failures")
        case.count("deaths", how == "dies")
        m.set_params(tree_sampler=inner, n_jobs=1 if backend == "loky" else 2)
        m.fit(X2, y2)
        case.equal(len(m.model_samples), kw["n_chains"] * kw["n_samples"], "after a failed fit, the next one does not hold its draws")
        Z2 = rng.normal(size=(6, X2.shape[1])) * 10
        want = np.mean([oracle.model_predict(q, Z2) for q in m.model_samples], axis=0)
        lo, hi = y2.min(), y2.max()
        case.close(m.predict(Z2), lo + (want + .5) * (hi - lo), "after a failed fit, the next one does not predict with its own draws", rtol=1e-8, atol=1e-8 * (hi - lo))
    case.seen(backend, how, kw["n_chains"], case.index)


def batches(case):
    """A batch run that fails leaves the template alone, fitted or not."""
    from bartpy.runner import run_models
    rng = case.rng
    s = Subject(case, "plain")
    fitted, X, Z = start(case, s, rng)
    was = view(s.m, X, Z, fitted)
    sets = [problem(rng) for _ in range(int(rng.choice([1, 2, 4])))]
    s.total *= len(sets)
    s.total_inits = s.total_inits and s.kw["n_trees"] * s.kw["n_chains"] * len(sets)
    point = s.points()[int(rng.randint(len(s.points())))]
    switch, exc = s.arm(rng, point)
    try:
        run_models(s.m, [a for a, _ in sets], [b for _, b in sets])
        failed = False
    except BaseException as e:
        if not (isinstance(e, exc) and switch.fired):
            raise
        failed = True
    s.disarm()
    case.check(failed == bool(switch.fired), "an error raised during a batch run does not reach the caller")
    case.count("failures", failed)
    same(case, view(s.m, X, Z, fitted), was, "a batch run changes its template", failed=failed, point=point)
    res = run_models(s.m, [a for a, _ in sets], [b for _, b in sets])
    same(case, view(s.m, X, Z, fitted), was, "a batch run changes its template", failed=False)
    case.equal(len(res), len(sets), "a batch after a failed one is not complete")
    case.seen(point, switch.fired, len(sets), case.index)


def parts():
    return [Part("failing", failing, 160, 2000, needs=("failures", "refits")),
            Part("arguments", arguments, 40, 400, needs=("rejected", "refits")),
            Part("signals", signals, 30, 300, needs=("interruptions", "refits")),
            Part("workers", workers, 16, 80, needs=("failures", "deaths")),
            Part("batches", batches, 40, 400, needs=("failures",))]
