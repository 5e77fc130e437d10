"""C05-C08: prediction tables, checkpoints, baselines."""
import contextlib
import io
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np

from rvmon import estimators as es
from rvmon import gen, oracle
from rvmon.core import L, Prop


def data(rng, K=None, reg=False, ndim=None):
    n, m, d = gen.pick(rng, [2, 3, 5, 12, 30]), gen.pick(rng, [1, 2, 3, 8, 20]), rng.randint(1, 4)
    if rng.rand() < 0.03:
        n, m = [(int(gen.pick(rng, gen.HUGE)), m), (n, int(gen.pick(rng, gen.HUGE)))][rng.randint(2)]
    shape = (d,) if ndim in (None, 2) else (d, 2)
    k = rng.randint(4)
    if k == 0:
        mk = lambda q: rng.randint(-3, 4, size=(q,) + shape)
    elif k == 1:
        mk = lambda q: rng.rand(*((q,) + shape)) < 0.5
    else:
        mk = lambda q: rng.randn(*((q,) + shape))
    X, Z = mk(n), mk(m)
    if reg:
        y = rng.randn(n) * gen.pick(rng, [2.0, 2.0, 2.0, 1e5, 1e-5]) if rng.rand() < 0.8 else rng.randint(-4, 5, size=n)
        if np.ptp(y) == 0:
            y[0] = y[0] + 1
    else:
        y = gen.labels(rng, n, K)
    return X, y, Z


def expect_clf(est, X, y, Z, floor):
    f = type(est)(est.tag, est.K, est.setting, est.peaked)
    log, es.LOG = es.LOG, []
    crash, es.CRASH = es.CRASH, None
    fl, es.FILE = es.FILE, None
    try:
        f.fit(X, y)
        with np.errstate(divide="ignore"):
            lp = f.raw_log(Z) if f.uses == "log" else np.log(f.raw_prob(Z))
    finally:
        es.LOG, es.CRASH, es.FILE = log, crash, fl
    return oracle.normalize(np.maximum(floor, lp))


def expect_reg(est, X, y, Z, floor):
    f = type(est)(est.tag, est.setting, est.tiny)
    log, es.LOG = es.LOG, []
    crash, es.CRASH = es.CRASH, None
    fl, es.FILE = es.FILE, None
    try:
        f.fit(X, y)
        mu = f.raw_mu(Z)
        std = f.raw_std(Z) if f.has_std else np.ones(len(Z))
    finally:
        es.LOG, es.CRASH, es.FILE = log, crash, fl
    return mu, np.maximum(floor, std)


def check_fits(ctx, methods, X, y, Z, log):
    for m, e in methods.items():
        fits = [ev for ev in log if ev[0] == "fit" and ev[1] == e.tag]
        ctx.check(len(fits) == 1, "method not fit exactly once", method=m, fits=len(fits))
        ctx.check(np.array_equal(fits[0][2], X) and np.array_equal(fits[0][3], y) and fits[0][2].dtype.kind == X.dtype.kind and fits[0][3].dtype.kind == y.dtype.kind, "method not fit on exactly the training data", method=m, got=fits[0][3], want=y)
        preds = [ev for ev in log if ev[0] != "fit" and ev[1] == e.tag]
        ctx.check(len(preds) >= 1, "method never asked for predictions", method=m)
        for ev in preds:
            ctx.check(ev[2].shape == Z.shape and np.array_equal(ev[2], Z), "method asked about something other than the test inputs", method=m, got=ev[2])
        order = [ev[0] for ev in log if ev[1] == e.tag]
        ctx.check(order[0] == "fit", "prediction before fit", method=m, order=order)


def check_clf_table(ctx, tbl, methods, X, y, Z, K, floor):
    ctx.check(tbl.shape == (len(Z), K * len(methods)), "table is not test points x (method x label)", got=tbl.shape)
    ctx.check(set(tbl.columns) == set((m, k) for m in methods for k in range(K)), "columns are not the method x label product", got=list(tbl.columns))
    ctx.check(list(tbl.index) == list(range(len(Z))), "rows are not the test points in order", got=list(tbl.index))
    for m, e in methods.items():
        ctx.check(list(tbl[m].columns) == list(range(K)), "labels out of order", got=list(tbl[m].columns))
        want = expect_clf(e, X, y, Z, floor)
        got = tbl[m].values
        ctx.close(got, want, "table does not hold the floored, normalized prediction of %s" % m, atol=1e-10, floor=floor)
        ctx.close(np.exp(got.astype(float)).sum(axis=1), np.ones(len(Z)), "distribution does not sum to one", rtol=1e-9)


def check_reg_table(ctx, tbl, methods, X, y, Z, floor):
    ctx.check(tbl.shape == (len(Z), 2 * len(methods)), "table is not test points x (method x moment)", got=tbl.shape)
    ctx.check(set(tbl.columns) == set((m, k) for m in methods for k in ("mu", "std")), "columns are not the method x moment product", got=list(tbl.columns))
    ctx.check(list(tbl.index) == list(range(len(Z))), "rows are not the test points in order", got=list(tbl.index))
    for m, e in methods.items():
        mu, std = expect_reg(e, X, y, Z, floor)
        ctx.close(tbl[(m, "mu")].values, mu, "mean is not the prediction of %s" % m, rtol=1e-12, atol=0.0)
        ctx.close(tbl[(m, "std")].values, std, "std is not the floored std of %s" % m, rtol=1e-12, atol=0.0, floor=floor)


def check_kept(ctx):
    """Arrays an estimator handed out and still holds are its own."""
    for tag, a, b in es.KEPT:
        ctx.check(np.array_equal(a, b), "the estimator's own prediction array was modified", method=tag, before=b, after=a)


def prefit(rng, methods, X, y):
    """Some of the estimators were used before, on other data."""
    for e in methods.values():
        if rng.rand() < 0.3:
            i = rng.permutation(len(X))[: max(1, len(X) // 2)]
            e.fit(X[i], y[i])
    del es.LOG[:]
    del es.KEPT[:]


def clf_methods(rng, K, n=None):
    names = gen.names(rng, n or gen.n_methods(rng))
    return dict((m, gen.pick(rng, es.CLFS)("t%d" % i, K, setting=int(rng.randint(6)), peaked=gen.pick(rng, [0.5, 1.0, 1.0, 30.0, 30.0, 300.0, 1500.0]))) for i, m in enumerate(names))


def reg_methods(rng, n=None):
    names = gen.names(rng, n or gen.n_methods(rng))
    return dict((m, gen.pick(rng, es.REGS)("t%d" % i, setting=int(rng.randint(3)), tiny=bool(rng.rand() < 0.4))) for i, m in enumerate(names))


# ---------------------------------------------------------------------------
C05 = Prop(
    "C05",
    "1..4 recording estimators (log only, proba only, both, failing log form, property raising) plus real sklearn "
    "classifiers, 2d and 3d inputs of float/int/bool dtype, label dtypes, floors; non-trivial when more than one test point or method",
    assumptions=["estimators are deterministic functions of their training data and the test row"],
)
C05.observe("classification.get_pred_log_prob")


@C05.scenario(500, 8000)
def stubs(ctx, rng):
    K = gen.pick(rng, [1, 2, 2, 3, 5])
    X, y, Z = data(rng, K, ndim=gen.pick(rng, [2, 2, 3]))
    methods = clf_methods(rng, K)
    floor = gen.pick(rng, [-np.inf, -np.inf, -5.0, -1.0, -0.01, np.log(1e-4), -120.0, -700.0])
    prefit(rng, methods, X, y)
    kw = {} if floor == -np.inf and rng.rand() < 0.5 else dict(min_log_prob=floor)
    verbose = bool(rng.rand() < 0.3)
    if verbose:
        kw["verbose"] = True
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        tbl = ctx.call(L.cl.get_pred_log_prob, X, y, Z, K, methods, **kw)
    if verbose:
        ctx.check(all(m in buf.getvalue() for m in methods), "verbose run does not name every method", got=buf.getvalue())
    log = list(es.LOG)
    ctx.feature("K=%d" % K, "X:%s%dd" % (X.dtype.kind, X.ndim), "y:" + str(y.dtype), "floor=%g" % floor, *sorted(type(e).__name__ for e in methods.values()))
    check_fits(ctx, methods, X, y, Z, log)
    check_clf_table(ctx, tbl, methods, X, y, Z, K, floor)
    check_kept(ctx)
    ctx.check(list(tbl.columns.names) == ["method", "label"], "column levels misnamed", got=tbl.columns.names)
    if len(Z) > 1 or len(methods) > 1:
        ctx.note(X, y, Z, sorted(methods), floor)
    ctx.sample(methods=dict((m, type(e).__name__) for m, e in methods.items()), floor=floor, row=tbl.iloc[0].to_dict())


@C05.scenario(60, 900)
def one_object_twice(ctx, rng):
    """One estimator object may stand for several methods."""
    K = gen.pick(rng, [2, 3])
    X, y, Z = data(rng, K)
    methods = clf_methods(rng, K, rng.randint(2, 5))
    ks = list(methods)
    methods[ks[rng.randint(1, len(ks))]] = methods[ks[0]]
    floor = gen.pick(rng, [-np.inf, -5.0, -0.5])
    tbl = ctx.call(L.cl.get_pred_log_prob, X, y, Z, K, methods, min_log_prob=floor)
    check_clf_table(ctx, tbl, methods, X, y, Z, K, floor)
    ctx.note("twice", X, Z, floor)


@C05.scenario(60, 900)
def missing_log(ctx, rng):
    """A missing prediction never turns into a valid distribution, and never
    affects the other rows or methods."""
    K = gen.pick(rng, [2, 3, 5])
    X, y, Z = data(rng, K)
    methods = clf_methods(rng, K, rng.randint(1, 3))
    methods["odd one"] = es.ClfMissing("odd", K, setting=int(rng.randint(6)))
    floor = gen.pick(rng, [-np.inf, -5.0, -0.5])
    with np.errstate(invalid="ignore"):
        tbl = ctx.call(L.cl.get_pred_log_prob, X, y, Z, K, methods, min_log_prob=floor)
    raw = methods["odd one"].raw_log(Z)
    got = tbl["odd one"].values.astype(float)
    miss = np.isnan(raw).any(axis=1)
    ctx.check(bool(np.all(np.isnan(got[miss]).any(axis=1))), "a missing prediction became a valid distribution", raw=raw, got=got)
    ctx.close(got[~miss], oracle.normalize(np.maximum(floor, raw[~miss])) if np.any(~miss) else raw[~miss], "rows without missing predictions changed", atol=1e-10)
    rest = dict((m, e) for m, e in methods.items() if m != "odd one")
    check_clf_table(ctx, tbl[[c for c in tbl.columns if c[0] != "odd one"]], rest, X, y, Z, K, floor)
    ctx.note("missing", X, Z, floor)


@C05.scenario(40, 600)
def sklearn_clf(ctx, rng):
    from sklearn.dummy import DummyClassifier
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.tree import DecisionTreeClassifier

    K = gen.pick(rng, [2, 3])
    n = rng.randint(6 * K, 40)
    y = np.concatenate((np.arange(K).repeat(3), rng.randint(K, size=n - 3 * K)))
    X = rng.randn(n, 2) + y[:, None]
    Z = rng.randn(rng.randint(1, 15), 2) + 1.0
    pool = {"nb": GaussianNB(), "knn": KNeighborsClassifier(3), "tree": DecisionTreeClassifier(random_state=0), "dummy": DummyClassifier(strategy="prior"), "noise": L.cl.JustNoise(K)}
    floor = gen.pick(rng, [-np.inf, -6.0])
    methods = dict((k, pool[k]) for k in [list(pool)[i] for i in rng.permutation(5)[:3]])
    if rng.rand() < 0.5:  # already fitted to something else
        for e in methods.values():
            e.fit(X[::-1] * 2.0, y)
    tbl = ctx.call(L.cl.get_pred_log_prob, X, y, Z, K, methods, min_log_prob=floor)
    import sklearn.base

    for m, e in methods.items():
        c = L.cl.JustNoise(K) if m == "noise" else sklearn.base.clone(e)
        c.fit(X, y)
        with np.errstate(divide="ignore"):
            lp = np.asarray(c.predict_log_proba(Z) if hasattr(c, "predict_log_proba") else np.log(c.predict_proba(Z)))
        ctx.close(tbl[m].values, oracle.normalize(np.maximum(floor, lp)), "table differs from the estimator's own prediction", atol=1e-9, method=m)
    ctx.note("sk", X, Z, sorted(methods))


# ---------------------------------------------------------------------------
C06 = Prop(
    "C06",
    "1..4 recording regressors (with std, without, integer means) plus sklearn regressors, floors around the stds; "
    "non-trivial when more than one test point or method",
    assumptions=["estimators are deterministic functions of their training data and the test row"],
)
C06.observe("regression.get_gauss_pred")


@C06.scenario(500, 8000)
def stubs_reg(ctx, rng):
    X, y, Z = data(rng, reg=True)
    methods = reg_methods(rng)
    floor = float(gen.pick(rng, [0.0, 0.0, 1e-3, 0.5, 1.0, 1.5, 100.0]))
    prefit(rng, methods, X, y)
    kw = {} if floor == 0.0 and rng.rand() < 0.5 else dict(min_std=floor)
    buf = io.StringIO()
    if rng.rand() < 0.3:
        kw["verbose"] = True
    with contextlib.redirect_stdout(buf):
        tbl = ctx.call(L.rg.get_gauss_pred, X, y, Z, methods, **kw)
    if kw.get("verbose"):
        ctx.check(all(m in buf.getvalue() for m in methods), "verbose run does not name every method", got=buf.getvalue())
    ctx.feature("X:" + X.dtype.kind, "y:" + y.dtype.kind, "floor=%g" % floor, *sorted(type(e).__name__ for e in methods.values()))
    check_fits(ctx, methods, X, y, Z, list(es.LOG))
    check_reg_table(ctx, tbl, methods, X, y, Z, floor)
    check_kept(ctx)
    ctx.check(list(tbl.columns.names) == ["method", "moment"], "column levels misnamed", got=tbl.columns.names)
    if len(Z) > 1 or len(methods) > 1:
        ctx.note(X, y, Z, sorted(methods), floor)
    ctx.sample(methods=dict((m, type(e).__name__) for m, e in methods.items()), floor=floor, row=tbl.iloc[0].to_dict())


@C06.scenario(60, 900)
def one_object_twice_reg(ctx, rng):
    X, y, Z = data(rng, reg=True)
    methods = reg_methods(rng, rng.randint(2, 5))
    ks = list(methods)
    methods[ks[rng.randint(1, len(ks))]] = methods[ks[0]]
    floor = float(gen.pick(rng, [0.0, 0.5]))
    tbl = ctx.call(L.rg.get_gauss_pred, X, y, Z, methods, min_std=floor)
    check_reg_table(ctx, tbl, methods, X, y, Z, floor)
    ctx.note("twice", X, Z, floor)


@C06.scenario(60, 900)
def odd_std(ctx, rng):
    """Missing, negative, zero and infinite standard deviations."""
    X, y, Z = data(rng, reg=True)
    methods = reg_methods(rng, rng.randint(1, 3))
    methods["odd one"] = es.RegOdd("odd", setting=int(rng.randint(6)))
    floor = float(gen.pick(rng, [0.0, 1e-3, 0.5, 2.0]))
    with np.errstate(invalid="ignore"):
        tbl = ctx.call(L.rg.get_gauss_pred, X, y, Z, methods, min_std=floor)
    check_reg_table(ctx, tbl, methods, X, y, Z, floor)
    ctx.note("odd", X, Z, floor)


@C06.scenario(30, 400)
def sklearn_reg(ctx, rng):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.linear_model import BayesianRidge, LinearRegression
    from sklearn.neighbors import KNeighborsRegressor
    import sklearn.base

    n = rng.randint(8, 25)
    X = rng.randn(n, 2)
    y = X[:, 0] + 0.3 * rng.randn(n)
    Z = rng.randn(rng.randint(1, 10), 2)
    pool = {"br": BayesianRidge(), "lin": LinearRegression(), "gp": GaussianProcessRegressor(alpha=0.1), "knn": KNeighborsRegressor(3), "noise": L.rg.JustNoise()}
    floor = float(gen.pick(rng, [0.0, 0.4]))
    methods = dict((k, pool[k]) for k in [list(pool)[i] for i in rng.permutation(5)[:3]])
    if rng.rand() < 0.5:  # already fitted to something else
        for e in methods.values():
            e.fit(X[::-1] * 2.0, y)
    tbl = ctx.call(L.rg.get_gauss_pred, X, y, Z, methods, min_std=floor)
    for m, e in methods.items():
        c = L.rg.JustNoise() if m == "noise" else sklearn.base.clone(e)
        c.fit(X, y)
        if m in ("br", "gp", "noise"):
            mu, std = c.predict(Z, return_std=True)
        else:
            mu, std = c.predict(Z), np.ones(len(Z))
        ctx.close(tbl[(m, "mu")].values, mu, "mean differs from the regressor's own", rtol=1e-7, atol=1e-9, method=m)
        ctx.close(tbl[(m, "std")].values, np.maximum(floor, std), "std differs from the regressor's own", rtol=1e-7, atol=1e-9, method=m)
    ctx.note("sk", X, Z, sorted(methods))


# ---------------------------------------------------------------------------
C07 = Prop(
    "C07",
    "every (method position x stage x crash kind) for 1..4 estimators, followed by reruns; death at a random change to the checkpoint "
    "directory; simultaneous runs on one directory; histories of runs sharing one "
    "checkpoint directory with changed data, settings, floors, methods; every run in its own process; non-trivial when a crash or a change was injected",
    level="fault_enumeration",
    assumptions=["estimators picklable, deterministic, importable", "crash = exception, interrupt or immediate process death in fit/predict"],
)
C07.observe("classification.get_pred_log_prob", "regression.get_gauss_pred")


def _child_value(fn):
    try:
        return ("ok", fn())
    except KeyboardInterrupt:
        return ("interrupted", None)
    except BaseException as e:
        return ("raised", "%s: %s" % (type(e).__name__, str(e)[:300]))


def _child(fn, path):
    """Run fn() in a forked process; (status, value)."""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            v = _child_value(fn)
            with open(path, "wb") as f:
                pickle.dump(v, f)
        except BaseException:
            code = 9
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        with open(path, "rb") as f:
            return pickle.load(f)
    return ("died", st)


class Site(object):
    """One scratch checkpoint directory with its on-disk event log."""

    def __init__(self, ctx):
        base = os.environ.get("RVMON_WORK") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="ckpt", dir=base)
        self.ctx = ctx
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compute(self, kind, X, y, Z, K, methods, floor, ckpt=True):
        cp = dict(checkpointdir=os.path.join(self.dir, "ck")) if ckpt else {}
        if kind == "clf":
            return L.cl.get_pred_log_prob(X, y, Z, K, methods, min_log_prob=floor, **cp)
        return L.rg.get_gauss_pred(X, y, Z, methods, min_std=floor, **cp)

    def run(self, kind, X, y, Z, K, methods, floor, crash=None, ckpt=True, disk=None):
        """disk=k: the process dies just before its k-th change to the
        checkpoint directory (creating, renaming, removing); disk=0: count."""
        log = os.path.join(self.dir, "log%d" % self.n)
        res = os.path.join(self.dir, "res%d" % self.n)
        self.n += 1

        def go():
            es.FILE, es.CRASH = log, crash
            if disk is not None:
                sys.addaudithook(hook)
            return self.compute(kind, X, y, Z, K, methods, floor, ckpt)

        root, touched, fdlog = os.path.join(self.dir, "ck"), [0], os.path.join(self.dir, "disk%d" % self.n)

        def hook(event, args):
            if event == "open":
                path, mode, flags = args
                if not isinstance(path, str) or not path.startswith(root) or not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                    return
            elif event in ("os.rename", "os.mkdir", "os.remove", "os.rmdir"):
                if not isinstance(args[0], (str, os.PathLike)) or not str(args[0]).startswith(root):
                    return
            else:
                return
            touched[0] += 1
            if touched[0] == disk:
                os._exit(17)
            fd = os.open(fdlog, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b".")
            os.close(fd)

        # count in the parent: the event happens in the child
        self.ctx.events["classification.get_pred_log_prob" if kind == "clf" else "regression.get_gauss_pred"] += 1
        st, val = _child(go, res)
        ev = []
        if os.path.exists(log):
            with open(log) as f:
                ev = [tuple(x.split()) for x in f.read().splitlines()]
        self.touched = os.path.getsize(fdlog) if os.path.exists(fdlog) else 0
        return st, val, ev


def _problem(rng, kind):
    K = gen.pick(rng, [2, 3])
    X, y, Z = data(rng, K, reg=(kind == "reg"))
    n = rng.randint(1, 5)
    if kind == "clf":
        names = gen.names(rng, n)
        cls = [es.ClfBoth, es.ClfLog, es.ClfProba, es.ClfBadLog]
        methods = dict((m, gen.pick(rng, cls)("t%d" % i, K, setting=int(rng.randint(3)), peaked=gen.pick(rng, [1.0, 1.0, 5.0, 30.0]))) for i, m in enumerate(names))
        floor = gen.pick(rng, [-np.inf, -3.0, -0.7])
    else:
        methods = reg_methods(rng, n)
        floor = float(gen.pick(rng, [0.0, 0.7]))
    return K, X, y, Z, methods, floor


def _judge(ctx, kind, val, methods, X, y, Z, K, floor):
    if kind == "clf":
        check_clf_table(ctx, val, methods, X, y, Z, K, floor)
    else:
        check_reg_table(ctx, val, methods, X, y, Z, floor)


def _stage_events(kind, est):
    if kind == "reg":
        return ["fit", "predict"]
    return ["fit", "predict_log" if est.uses == "log" else "predict"]


@C07.scenario(240, 2400)
def crash_resume(ctx, rng):
    kind = gen.pick(rng, ["clf", "reg"])
    K, X, y, Z, methods, floor = _problem(rng, kind)
    names = list(methods)
    pos = ctx.index % len(names)
    est = methods[names[pos]]
    stage = _stage_events(kind, est)[(ctx.index // 4) % 2]
    how = ["exit", "interrupt", "error", "memory"][(ctx.index // 8) % 4]
    if stage == "fit" and how in ("error", "memory") and rng.rand() < 0.6:
        how = gen.pick(rng, sorted(es.KINDS))
    # a broad handler legitimately falls back to the probabilities when the log
    # form raises; dying is the only crash that stage can show
    if stage == "predict_log":
        how = "exit"
    if kind == "reg" and stage == "predict" and how == "error":
        how = "interrupt"
    ctx.feature("%s crash at %s by %s" % (kind, stage, how), "position %d of %d" % (pos, len(names)))
    site = Site(ctx)
    try:
        st, val, ev = site.run(kind, X, y, Z, K, methods, floor, crash=(stage, est.tag, how))
        ctx.check(st in ("died", "interrupted", "raised"), "an injected crash was swallowed", status=st, how=how, stage=stage)
        if st == "raised":
            ctx.check("injected" in str(val), "run failed for another reason", error=val)
        started = [t for k, t in ev if k == "fit"]
        done = started[:-1]  # everything before the crashed method had completed
        crashes = 1
        # possibly crash again at a later method before the final rerun
        if pos + 1 < len(names) and rng.rand() < 0.4:
            est2 = methods[names[rng.randint(pos + 1, len(names))]]
            st, val, ev = site.run(kind, X, y, Z, K, methods, floor, crash=("fit", est2.tag, gen.pick(rng, ["exit", "interrupt"])))
            ctx.check(st in ("died", "interrupted"), "an injected crash was swallowed", status=st)
            again = [t for k, t in ev if k == "fit"]
            ctx.check(not set(again) & set(done), "a completed method was fit again after the crash", completed=done, refit=again)
            done = done + again[:-1]
            crashes += 1
        st, val, ev = site.run(kind, X, y, Z, K, methods, floor)
        ctx.check(st == "ok", "rerun after the crash failed", status=st, error=val)
        again = [t for k, t in ev if k == "fit"]
        ctx.check(not set(again) & set(done), "a completed method was fit again after the crash", completed=done, refit=again)
        ctx.check(sorted(done + again) == sorted(e.tag for e in methods.values()), "methods fit over all runs are not each exactly once", completed=done, refit=again)
        _judge(ctx, kind, val, methods, X, y, Z, K, floor)
        st, val2, ev = site.run(kind, X, y, Z, K, methods, floor)
        ctx.check(st == "ok", "run over complete checkpoints failed", status=st, error=val2)
        ctx.check(not ev, "a complete checkpoint was not used", events=ev)
        ctx.same(val2, val, "loading from checkpoints gives another table")
        st, val3, _ = site.run(kind, X, y, Z, K, methods, floor, ckpt=False)
        ctx.check(st == "ok", "run without checkpoints failed", status=st, error=val3)
        ctx.same(val, val3, "resumed table differs from an uninterrupted run without checkpoints")
    finally:
        site.close()
    ctx.note(kind, X, Z, names, stage, how, pos, crashes)
    ctx.sample(kind=kind, methods=names, crash=(stage, names[pos], how), completed_before=done)


@C07.scenario(60, 800)
def disk_crash(ctx, rng):
    """Death while the checkpoints are being written."""
    kind = gen.pick(rng, ["clf", "reg"])
    K, X, y, Z, methods, floor = _problem(rng, kind)
    site = Site(ctx)
    try:
        st, val0, ev = site.run(kind, X, y, Z, K, methods, floor, disk=0)
        ctx.check(st == "ok", "run failed", status=st, error=val0)
        _judge(ctx, kind, val0, methods, X, y, Z, K, floor)
        points = site.touched
    finally:
        site.close()
    ctx.feature("disk changes per run: %d" % points)
    site = Site(ctx)
    k = 1 + rng.randint(points) if points else 0
    try:
        for rep in range(rng.randint(1, 3)):
            st, val, ev = site.run(kind, X, y, Z, K, methods, floor, disk=k)
            ctx.check(st in ("died", "ok"), "run over interrupted checkpoints failed", status=st, error=val)
            if st == "ok":
                _judge(ctx, kind, val, methods, X, y, Z, K, floor)
            k = 1 + rng.randint(max(1, points))
        st, val, ev = site.run(kind, X, y, Z, K, methods, floor)
        ctx.check(st == "ok", "rerun after death while checkpointing failed", status=st, error=val, point=k)
        ctx.same(val, val0, "table after death while checkpointing differs from that of an undisturbed run", point=k)
        st, val, ev = site.run(kind, X, y, Z, K, methods, floor)
        ctx.check(st == "ok" and not ev, "a complete checkpoint was not used", status=st, error=val, events=ev)
        ctx.same(val, val0, "loading from checkpoints gives another table")
    finally:
        site.close()
    ctx.note("disk", kind, X, Z, sorted(methods), k)


@C07.scenario(30, 400)
def concurrent_runs(ctx, rng):
    """Several processes share one checkpoint directory at the same time."""
    kind = gen.pick(rng, ["clf", "reg"])
    K, X, y, Z, methods, floor = _problem(rng, kind)
    ks = list(methods)
    jobs = []
    for i in range(rng.randint(2, 5)):
        sub = [ks[j] for j in rng.permutation(len(ks))[: rng.randint(1, len(ks) + 1)]]
        jobs.append((dict((m, methods[m]) for m in sub), Z if rng.rand() < 0.5 else Z[::-1].copy()))
    site = Site(ctx)
    out = [None] * len(jobs)
    try:
        pids = []
        for i, (sub, Zi) in enumerate(jobs):
            res = os.path.join(site.dir, "r%d" % i)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    v = _child_value(lambda: site.compute(kind, X, y, Zi, K, sub, floor))
                    with open(res, "wb") as f:
                        pickle.dump(v, f)
                except BaseException:
                    code = 9
                os._exit(code)
            pids.append((pid, res))
        for i, (pid, res) in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            ctx.events["classification.get_pred_log_prob" if kind == "clf" else "regression.get_gauss_pred"] += 1
            if os.path.exists(res):
                with open(res, "rb") as f:
                    out[i] = pickle.load(f)
            else:
                out[i] = ("died", st)
        for (sub, Zi), (st, val) in zip(jobs, out):
            if st != "ok":
                # locking out each other is joblib's affair; what must not
                # happen is a wrong table, now or on the next run
                ctx.feature("simultaneous run gave up")
                st, val, _ = site.run(kind, X, y, Zi, K, sub, floor)
                ctx.check(st == "ok", "rerun after simultaneous runs failed", status=st, error=val)
            _judge(ctx, kind, val, sub, X, y, Zi, K, floor)
    finally:
        site.close()
    ctx.feature("%s: %d at once" % (kind, len(jobs)))
    ctx.note("at once", kind, X, Z, sorted(methods), len(jobs))


@C07.scenario(80, 800)
def shared_directory(ctx, rng):
    """A history of runs on one checkpoint directory: data, settings, floors
    and method sets change between runs."""
    kind = gen.pick(rng, ["clf", "reg"])
    K, X, y, Z, methods, floor = _problem(rng, kind)
    site = Site(ctx)
    seen = set()
    import hashlib

    def key(e, X, y, Z):
        return (e.tag, type(e).__name__, e.setting, getattr(e, "peaked", getattr(e, "tiny", None)), hashlib.md5(repr((X.tolist(), y.tolist(), Z.tolist(), str(X.dtype), str(y.dtype))).encode()).hexdigest())

    hist = []
    try:
        for step in range(rng.randint(3, 6)):
            what = gen.pick(rng, ["same", "train", "target", "test", "setting", "floor", "floor", "floor", "drop", "rename"]) if step else "first"
            hist.append(what)
            if what == "train":
                X = X.copy()
                X.flat[rng.randint(X.size)] = ~X.flat[0] if X.dtype.kind == "b" else X.flat[0] + 1
            elif what == "target":
                y = y.copy()
                i = rng.randint(len(y))
                y[i] = (y[i] + 1) if kind == "reg" else ((not y[i]) if y.dtype.kind == "b" else (y[i] + 1) % K)
            elif what == "test":
                Z = np.concatenate((Z, Z[:1])) if rng.rand() < 0.5 else Z[::-1].copy()
            elif what == "setting":
                m = gen.pick(rng, list(methods))
                methods = dict(methods)
                e = methods[m]
                methods[m] = type(e)(e.tag, K, e.setting + 1, e.peaked) if kind == "clf" else type(e)(e.tag, e.setting + 1, e.tiny)
            elif what == "floor":
                floor = gen.pick(rng, [-0.5, -1.0, -2.0, -np.inf]) if kind == "clf" else float(gen.pick(rng, [0.0, 0.3, 2.0]))
            elif what == "drop" and len(methods) > 1:
                methods = dict((m, methods[m]) for m in list(methods)[1:])
            elif what == "rename":
                ks = list(methods)
                methods = dict((ks[(i + 1) % len(ks)], methods[k]) for i, k in enumerate(ks))
            st, val, ev = site.run(kind, X, y, Z, K, methods, floor)
            ctx.check(st == "ok", "run failed", status=st, error=val, history=hist)
            _judge(ctx, kind, val, methods, X, y, Z, K, floor)
            fits = [t for k, t in ev if k == "fit"]
            fresh = sorted(e.tag for e in methods.values() if key(e, X, y, Z) not in seen)
            ctx.check(sorted(fits) == fresh, "fits are not exactly those not yet checkpointed", history=hist, fits=fits, want=fresh)
            seen |= set(key(e, X, y, Z) for e in methods.values())
            ctx.feature(kind + " then " + what)
    finally:
        site.close()
    ctx.note(kind, X, Z, hist, sorted(methods))


# ---------------------------------------------------------------------------
C08 = Prop(
    "C08",
    "training label/target vectors of all sizes, label counts and pseudo counts, fit/predict histories with refits; "
    "non-trivial when the training labels are not all equal",
)


@C08.scenario(800, 15000)
def noise_clf(ctx, rng):
    K = gen.pick(rng, [1, 2, 2, 3, 5, 9, 60, 300])
    pseudo = gen.pick(rng, [0.0, 0.0, 1.0, 0.5, 3, 1e-3, 100.0, 1.5, 2.25, 1e-9, 150.3, 12345.6])
    kw = {}
    if not (K == 2 and rng.rand() < 0.5):
        kw["n_labels"] = K
    if pseudo or rng.rand() < 0.5:
        kw["pseudo_count"] = pseudo
    est = ctx.call(L.cl.JustNoise, **kw)
    for rep in range(rng.randint(1, 4)):
        n = gen.size(rng, 60, vast=0.01)
        y = gen.labels(rng, n, K)
        X = rng.randn(n, 2)
        with np.errstate(divide="ignore"):
            ctx.call(est.fit, X, y)
        for _ in range(rng.randint(1, 3)):
            m = rng.randint(1, 9)
            out = np.asarray(ctx.call(est.predict_log_proba, rng.randn(m, gen.pick(rng, [1, 2, 5]))))
            ctx.events["noise.predict"] += 1
            tot = float(n) + K * float(pseudo)
            with np.errstate(divide="ignore"):
                want = np.log(np.array([(float(np.sum(y == k)) + float(pseudo)) / tot for k in range(K)]))
            ctx.close(out, np.tile(want, (m, 1)), "baseline is not the smoothed label frequency", atol=1e-10, y=y, K=K, pseudo=pseudo)
        if len(set(y.tolist())) > 1:
            ctx.note(y, K, pseudo)
    ctx.feature("K=%d" % K, "pseudo=%g" % pseudo)
    ctx.sample(K=K, pseudo=pseudo, y=y[:8], p=np.exp(out[0]))


@C08.scenario(800, 15000)
def noise_reg(ctx, rng):
    est = ctx.call(L.rg.JustNoise)
    for rep in range(rng.randint(1, 4)):
        n = max(2, gen.size(rng, 60, vast=0.01))
        y = rng.randn(n) * 10.0 ** rng.randint(-4, 5) + gen.pick(rng, [0.0, 5.0, -100.0, 1e6, -1e8])
        if rng.rand() < 0.2:
            y = rng.randint(-3, 4, size=n) + gen.pick(rng, [0, 0, 1000, -10 ** 9])
        ctx.call(est.fit, rng.randn(n, 1), y)
        m = rng.randint(1, 9)
        kw = gen.pick(rng, [{}, {"return_std": True}])
        mu, std = ctx.call(est.predict, rng.randn(m, gen.pick(rng, [1, 3])), **kw)
        ctx.events["noise.predict"] += 1
        sc = oracle.scale_of(y)
        ctx.close(mu, np.full(m, oracle.mean(y)), "baseline mean is not the training mean", atol=1e-10 * sc, y=y)
        ctx.close(std, np.full(m, np.sqrt(oracle.var(y, 0))), "baseline std is not the population std", rtol=1e-8, atol=1e-12 * sc, y=y)
        if np.ptp(y) > 0:
            ctx.note(np.asarray(y))
    # the same through the prediction table
    X, y, Z = data(rng, reg=True)
    tbl = ctx.call(L.rg.get_gauss_pred, X, y, Z, {"noise": L.rg.JustNoise()})
    ctx.close(tbl[("noise", "mu")].values, np.full(len(Z), oracle.mean(y)), "table of the baseline is not the training mean", atol=1e-10 * oracle.scale_of(y))
    ctx.close(tbl[("noise", "std")].values, np.full(len(Z), np.sqrt(oracle.var(y, 0))), "table of the baseline is not the training std", rtol=1e-8, atol=1e-12 * oracle.scale_of(y))
    ctx.sample(y=y[:8], mu=mu[:1], std=std[:1])
