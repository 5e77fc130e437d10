"""C23, C24: the one-call benchmarks against their stages."""
import itertools

import numpy as np
import pandas as pd

from rvmon import estimators as es
from rvmon import gen, oracle, p_curves, p_predict, p_stats
from rvmon.core import L, Prop

INF = np.inf


def drawn(ctx):
    return [np.asarray(e.result) for e in ctx.log if e.name == "boot_util.boot_weights" and e.error is None]


def loss_frame(names, methods, f):
    return pd.DataFrame(dict(((n, m), f(n, m)) for n in names for m in methods), columns=pd.MultiIndex.from_product([list(names), list(methods)], names=["metric", "method"]))


# ---------------------------------------------------------------------------
C23 = Prop(
    "C23",
    "two-label data sets x 1..4 recording estimators (all prediction interfaces) and sklearn classifiers in any order x losses x curves x "
    "floors x pairwise x error bar method x limits; the report is recomputed from the estimators' raw outputs and the observed resampling "
    "weights; non-trivial when >= 2 methods and >= 2 test points",
    assumptions=["predictions finite for label one (curves refuse others)", "pairwise gain curves excluded (known finding of C21)"],
)
C23.observe("boot_util.boot_weights", "classification.just_benchmark", "classification.get_pred_log_prob")


def judge_bench(ctx, out, dump, methods, y, D, ld, cd, raws, ref, pairwise, method_EB, lim):
    ctx.check(set(out.columns) == set(itertools.product(list(ld) + list(cd), L.co.STD_STATS)), "columns are not losses and curves x (mean, error, p)", got=list(out.columns))
    LT = loss_frame(ld, methods, lambda n, m: p_curves.LOSSES[n](y, D[m]))
    ws = drawn(ctx)
    with np.errstate(invalid="ignore"):
        p_stats.judge_summary(ctx, LT, ref, out[[c for c in out.columns if c[0] in ld]], pairwise, 0.95, method_EB, lim, ws, atol=1e-12)
    nb = 1000
    cw = [w for c in cd.values() for _, _, w in c.calls if w is not None]
    if cw:
        nb = len(cw[0])
    p_curves.judge_curve_tables(ctx, out[[c for c in out.columns if c[0] in cd]], dump, list(methods), cd, raws, y, D, ref, None, nb, pairwise, 0.95)


@C23.scenario(120, 1100)
def bench(ctx, rng):
    X, y, Z = p_predict.data(rng, 2, ndim=gen.pick(rng, [2, 2, 3]))
    yt = gen.binary(rng, len(Z)).astype(y.dtype)
    methods = p_predict.clf_methods(rng, 2, n=rng.randint(1, 4))
    if rng.rand() < 0.25:  # extreme log probabilities, no floor needed
        methods = dict((m, gen.pick(rng, [es.ClfBoth, es.ClfLog])("t%d" % i, 2, setting=i, peaked=gen.pick(rng, [1.0, 300.0, 1500.0]))) for i, m in enumerate(methods))
    floor = float(gen.pick(rng, [-6.0, -2.0, -30.0, -150.0, -800.0]))
    if all(e.uses == "log" and not isinstance(e, es.ClfSparse) for e in methods.values()) and rng.rand() < 0.6:
        floor = -INF
    ref = gen.pick(rng, list(methods))
    pairwise = bool(rng.rand() < 0.5)
    method_EB = gen.pick(rng, ["t", "bernstein", "bernstein", "boot", "boot"])
    lim = p_curves.some_limits(rng) if rng.rand() < 0.6 else {}
    ld = p_curves.loss_dict(rng)
    cd, raws = p_curves.curve_dict(rng, pairwise)
    for k in list(cd)[1:]:
        del cd[k]
    kw = dict(min_pred_log_prob=floor, pairwise_CI=pairwise, method_EB=method_EB, limits=lim)
    if floor == -INF and rng.rand() < 0.5:
        kw.pop("min_pred_log_prob")
    if not pairwise and rng.rand() < 0.3:
        kw.pop("pairwise_CI")
    if method_EB == "t" and rng.rand() < 0.4:
        kw.pop("method_EB")
    if not lim and rng.rand() < 0.4:
        kw.pop("limits")
    # the stages, on fresh copies of the estimators
    ctx.in_oracle = True
    clones = dict((m, type(e)(e.tag, e.K, e.setting, e.peaked)) for m, e in methods.items())
    pred = ctx.call(L.cl.get_pred_log_prob, X, y, Z, 2, clones, min_log_prob=floor)
    D = dict((m, pred[m].values) for m in methods)
    p_predict.check_clf_table(ctx, pred, methods, X, y, Z, 2, floor)
    ctx.in_oracle = False
    if any(np.any(np.abs(d[:, 0] - d[:, 1]) < 1e-12) for d in D.values()):
        ld.pop("zero_one", None)
        ld = ld or {"NLL": L.cl.log_loss}
    ctx.log = []
    p_predict.prefit(rng, methods, X, y)
    out, dump = ctx.call(L.cl.just_benchmark, X, y, Z, yt, 2, methods, ld, cd, ref, **kw)
    p_predict.check_fits(ctx, methods, X, y, Z, list(es.LOG))
    ctx.in_oracle = True
    judge_bench(ctx, out, dump, methods, yt, D, ld, cd, raws, ref, pairwise, method_EB, lim)
    ctx.in_oracle = False
    ctx.feature("methods=%d" % len(methods), "pairwise" if pairwise else "marginal", method_EB, "floor=%g" % floor, *(list(ld) + list(cd)))
    if len(methods) > 1 and len(Z) > 1:
        ctx.note(X, y, Z, yt, sorted(methods), ref, pairwise, method_EB, floor)
    ctx.sample(methods=dict((m, type(e).__name__) for m, e in methods.items()), ref=ref, options=kw, row=out.iloc[0].to_dict())


@C23.scenario(16, 160)
def sklearn_bench(ctx, rng):
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    import sklearn.base

    n, m_ = rng.randint(12, 40), rng.randint(2, 20)
    y = np.r_[0, 1, 0, 1, rng.randint(2, size=n - 4)]
    X = rng.randn(n, 2) + y[:, None]
    yt = rng.randint(2, size=m_)
    Z = rng.randn(m_, 2) + yt[:, None]
    if rng.rand() < 0.4:
        y, yt = y.astype(bool), yt.astype(bool)
    pool = {"nb": GaussianNB(), "knn": KNeighborsClassifier(4), "logit": LogisticRegression(), "noise": L.cl.JustNoise(2)}
    methods = dict((k, pool[k]) for k in [list(pool)[i] for i in rng.permutation(4)[:3]])
    ref = gen.pick(rng, list(methods))
    ld = {"NLL": L.cl.log_loss, "Brier": L.cl.brier_loss}
    cd, raws = p_curves.curve_dict(rng, True)
    for k in list(cd)[1:]:
        del cd[k]
    pairwise = bool(rng.rand() < 0.5)
    ctx.in_oracle = True
    D = {}
    for m, e in methods.items():
        c = L.cl.JustNoise(2) if m == "noise" else sklearn.base.clone(e)
        c.fit(X, y)
        with np.errstate(divide="ignore"):
            lp = np.asarray(c.predict_log_proba(Z) if hasattr(c, "predict_log_proba") else np.log(c.predict_proba(Z)))
        D[m] = oracle.normalize(np.maximum(-6.0, lp))
    clones = dict((m, L.cl.JustNoise(2) if m == "noise" else sklearn.base.clone(e)) for m, e in methods.items())
    pred = ctx.call(L.cl.get_pred_log_prob, X, y, Z, 2, clones, min_log_prob=-6.0)
    for m in methods:
        ctx.close(pred[m].values, D[m], "stage prediction differs from the estimator's own", atol=1e-9)
        D[m] = pred[m].values
    ctx.in_oracle = False
    ctx.log = []
    out, dump = ctx.call(L.cl.just_benchmark, X, y, Z, yt, 2, methods, ld, cd, ref, min_pred_log_prob=-6.0, pairwise_CI=pairwise)
    ctx.in_oracle = True
    judge_bench(ctx, out, dump, methods, yt, D, ld, cd, raws, ref, pairwise, "t", {})
    ctx.in_oracle = False
    ctx.note("sk", X, Z, sorted(methods), ref)


# ---------------------------------------------------------------------------
C24 = Prop(
    "C24",
    "regression data sets x 1..4 recording regressors (with and without std) in any order x losses x floors x pairwise x error bar method x "
    "limits; the report is recomputed from the regressors' raw outputs; non-trivial when >= 2 methods and >= 2 test points",
)
C24.observe("boot_util.boot_weights", "regression.just_benchmark", "regression.get_gauss_pred", "regression.loss_table")

RLOSS = {"NLL": oracle.gauss_nll, "MSE": oracle.sq_loss, "MAE": oracle.abs_loss}


def _mad_std(y, mu, std):
    """A user loss that uses all three arguments and the row order."""
    return np.abs(y - mu) / std + 0.01 * np.arange(len(y))


@C24.scenario(450, 7000)
def bench_reg(ctx, rng):
    X, y, Z = p_predict.data(rng, reg=True)
    yt = (rng.randn(len(Z)) * 2.0 if y.dtype.kind == "f" else rng.randint(-4, 5, size=len(Z))).astype(y.dtype)
    methods = p_predict.reg_methods(rng)
    floor = float(gen.pick(rng, [0.0, 0.0, 1e-3, 0.5, 1.0, 1.5]))
    ref = gen.pick(rng, list(methods))
    pairwise = bool(rng.rand() < 0.5)
    method_EB = gen.pick(rng, ["t", "t", "bernstein", "boot"])
    pool = dict(L.rg.STD_REGR_LOSS)
    ctx.check(set(pool) == set(RLOSS), "standard regression losses changed", got=list(pool))
    pool["user"] = _mad_std
    names = [list(pool)[i] for i in rng.permutation(4)[: rng.randint(1, 5)]]
    ld = dict((n, pool[n]) for n in names)
    lim = {}
    if rng.rand() < 0.5:
        lim["MSE"] = (gen.pick(rng, [0.0, 0.0, -2.0]), gen.pick(rng, [INF, 1e4]))
    if rng.rand() < 0.5:
        lim["MAE"] = (gen.pick(rng, [0.0, 0.0, -INF, -1.5]), INF)
    if rng.rand() < 0.3:
        lim["user"] = (gen.pick(rng, [0.0, -7.0]), INF)
    kw = dict(min_std=floor, pairwise_CI=pairwise, method_EB=method_EB, limits=lim)
    if floor == 0.0 and rng.rand() < 0.5:
        kw.pop("min_std")
    if not pairwise and rng.rand() < 0.3:
        kw.pop("pairwise_CI")
    if method_EB == "t" and rng.rand() < 0.4:
        kw.pop("method_EB")
    if not lim and rng.rand() < 0.4:
        kw.pop("limits")
    ctx.log = []
    p_predict.prefit(rng, methods, X, y)
    out = ctx.call(L.rg.just_benchmark, X, y, Z, yt, methods, ld, ref, **kw)
    p_predict.check_fits(ctx, methods, X, y, Z, list(es.LOG))
    ctx.in_oracle = True
    M = dict((m, p_predict.expect_reg(e, X, y, Z, floor)) for m, e in methods.items())
    ref_loss = dict(RLOSS, user=_mad_std)
    LT = loss_frame(names, methods, lambda n, m: ref_loss[n](yt, *M[m]))
    with np.errstate(invalid="ignore"):
        p_stats.judge_summary(ctx, LT, ref, out, pairwise, 0.95, method_EB, lim, drawn(ctx), atol=1e-13 * max(1.0, float(np.max(np.abs(LT.values)))))
    ctx.in_oracle = False
    ctx.feature("methods=%d" % len(methods), "pairwise" if pairwise else "marginal", method_EB, "floor=%g" % floor, *names)
    if len(methods) > 1 and len(Z) > 1:
        ctx.note(X, y, Z, yt, sorted(methods), ref, pairwise, method_EB, floor)
    ctx.sample(methods=dict((m, type(e).__name__) for m, e in methods.items()), ref=ref, options=kw, row=out.iloc[0].to_dict())


@C24.scenario(60, 600)
def mixed_types(ctx, rng):
    """Training and test targets of different types: refused, or right."""
    X, _, Z = p_predict.data(rng, reg=True)
    kinds = gen.pick(rng, [("i", "f"), ("f", "i"), ("f4", "f"), ("f", "f4"), ("i4", "i"), ("f", "b"), ("i1", "i")])

    def targets(n, kind):
        t = rng.randn(n) * 4.0
        if kind in ("i", "i4", "i1"):
            t = rng.randint(-100, 100, size=n) if kind == "i1" or rng.rand() < 0.5 else rng.randint(-40000, 40000, size=n)
        if kind == "b":
            t = rng.rand(n) < 0.5
        return t.astype({"i": np.int64, "f": np.float64, "f4": np.float32, "i4": np.int32, "i1": np.int8, "b": bool}[kind])

    y, yt = targets(len(X), kinds[0]), targets(len(Z), kinds[1])
    if np.ptp(y.astype(float)) == 0:
        y[0] = y[0] + 1
    methods = p_predict.reg_methods(rng)
    ref = gen.pick(rng, list(methods))
    names = ["MSE", "MAE", "NLL"][: rng.randint(1, 4)]
    ctx.feature("train %s, test %s" % kinds)
    ctx.log = []
    try:
        out = L.rg.just_benchmark(X, y, Z, yt, methods, dict((n, L.rg.STD_REGR_LOSS[n]) for n in names), ref, min_std=0.5)
    except Exception:
        ctx.events["mixed types refused"] += 1
        ctx.note(X, y, Z, yt, kinds)
        return
    ctx.in_oracle = True
    M = dict((m, p_predict.expect_reg(e, X, y, Z, 0.5)) for m, e in methods.items())
    LT = loss_frame(names, methods, lambda n, m: RLOSS[n](yt.astype(float), *M[m]))
    p_stats.judge_summary(ctx, LT, ref, out, False, 0.95, "t", {}, drawn(ctx), atol=1e-6 * max(1.0, float(np.max(np.abs(LT.values)))))
    ctx.in_oracle = False
    ctx.note(X, y, Z, yt, kinds)


@C24.scenario(20, 200)
def with_baseline(ctx, rng):
    """The documented use: sklearn regressors against the noise baseline."""
    from sklearn.linear_model import BayesianRidge, LinearRegression

    n, m_ = rng.randint(8, 25), rng.randint(2, 15)
    X, Z = rng.randn(n, 2), rng.randn(m_, 2)
    y, yt = X[:, 0] + 0.3 * rng.randn(n), Z[:, 0] + 0.3 * rng.randn(m_)
    methods = {"noise": L.rg.JustNoise(), "br": BayesianRidge(), "lin": LinearRegression()}
    methods = dict((k, methods[k]) for k in [list(methods)[i] for i in rng.permutation(3)])
    ctx.log = []
    out = ctx.call(L.rg.just_benchmark, X, y, Z, yt, methods, L.rg.STD_REGR_LOSS, "noise", pairwise_CI=True)
    br, lin = BayesianRidge().fit(X, y), LinearRegression().fit(X, y)
    M = {"noise": (np.full(m_, y.mean()), np.full(m_, y.std())), "br": br.predict(Z, return_std=True), "lin": (lin.predict(Z), np.ones(m_))}
    LT = loss_frame(list(RLOSS), list(methods), lambda k, m: RLOSS[k](yt, *M[m]))
    ctx.in_oracle = True
    p_stats.judge_summary(ctx, LT, "noise", out, True, 0.95, "t", {}, drawn(ctx), atol=1e-10)
    ctx.in_oracle = False
    ctx.note("baseline", X, Z)
