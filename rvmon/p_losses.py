"""C01-C04: losses and loss tables."""
import itertools

import numpy as np
import pandas as pd

from rvmon import gen, oracle
from rvmon.core import L, Prop, close

# ---------------------------------------------------------------------------
C01 = Prop(
    "C01",
    "random/tied/peaked/-inf label distributions x random, integer, negative, rectangular loss matrices, plus an "
    "exhaustive grid of small tied problems; a case is non-trivial when at least one row has an action that is not optimal",
    assumptions=["finite loss matrices", "actions whose expected losses agree to 1e-11 are both accepted"],
)


@C01.hook("classification.hard_loss_decision")
def _decision(ctx, ev):
    lp, M = np.asarray(ev.arg(0, "log_pred_prob")), np.asarray(ev.arg(1, "loss_mat"))
    if not np.all(np.isfinite(M)):
        return
    a = np.asarray(ev.result)
    if a.shape != (lp.shape[0],) or a.dtype.kind not in "iu" or (a.size and (a.min() < 0 or a.max() >= M.shape[1])):
        return ctx.record("decision is not one action per row", got=a, loss_mat=M)
    ok = oracle.optimal_actions(lp, M)
    bad = np.where(~ok[np.arange(len(a)), a])[0]
    if len(bad):
        ctx.record("chosen action is not Bayes optimal", row=int(bad[0]), probs=np.exp(lp[bad[0]]), loss_mat=M, action=int(a[bad[0]]), expected=oracle.expected_loss(lp[bad[:1]], M))


@C01.hook("classification.hard_loss")
def _hard(ctx, ev):
    y, lp, M = np.asarray(ev.arg(0, "y")), np.asarray(ev.arg(1, "log_pred_prob")), ev.arg(2, "loss_mat")
    K = lp.shape[1]
    M = np.array([[0.0 if i == j else 1.0 for j in range(K)] for i in range(K)]) if M is None else np.asarray(M)
    if not np.all(np.isfinite(M)):
        return
    loss = np.asarray(ev.result)
    if loss.shape != y.shape:
        return ctx.record("loss does not have one entry per data point", got=loss)
    ok = oracle.optimal_actions(lp, M)
    for n in range(len(y)):
        want = M[int(y[n])][ok[n]]
        if not np.any(loss[n] == want):
            return ctx.record("loss is not the loss of a Bayes optimal action", row=n, y=int(y[n]), probs=np.exp(lp[n]), loss_mat=M, got=loss[n], admissible=want)


def _loss_mat(rng, K):
    A = gen.pick(rng, [1, 2, K, K, K + 1, 3, 6])
    k = rng.randint(13)
    if k == 12:  # rare catastrophes: costs over twenty orders of magnitude
        return 10.0 ** rng.uniform(-3, 18, size=(K, A)) * gen.pick(rng, [1.0, -1.0])
    if k >= 8:  # costs as people write them: zero (or constant) diagonal
        if k == 8:
            M = rng.randint(1, 10, size=(K, K)).astype(float)
        elif k == 9:
            M = np.abs(np.arange(K)[:, None] - np.arange(K)[None, :]).astype(gen.pick(rng, [float, int])) ** gen.pick(rng, [1, 2])
        elif k == 10:
            M = np.ones((K, K)) * rng.randint(1, 8, size=(K, 1))  # class weights
        else:
            M = rng.rand(K, K)
        if rng.rand() < 0.4:
            M = M + M.T
        M[np.arange(K), np.arange(K)] = gen.pick(rng, [0, 0, 0, 1, -1])
        return M
    if k == 6:  # actions that are nearly as good as each other
        return rng.rand(K, 1) + rng.rand(K, A) * 10.0 ** -rng.uniform(1, 9)
    if k == 7:  # a common offset far larger than the differences
        return rng.randint(0, 4, size=(K, A)) + float(gen.pick(rng, [1e4, -1e5, 1e6]))
    if k == 0:
        return rng.rand(K, A)
    if k == 1:
        return rng.randint(0, 4, size=(K, A))
    if k == 2:
        return rng.randn(K, A) * 1e3
    if k == 3:
        M = 1.0 - np.eye(K)
        return np.concatenate((M, np.full((K, 1), rng.rand())), axis=1)  # reject option
    if k == 4:
        return np.asfortranarray(np.exp(rng.randn(K, A) * 4))
    return -np.eye(K) * rng.randint(1, 5)


@C01.scenario(1500, 30000)
def decisions(ctx, rng):
    K = gen.pick(rng, [1, 2, 2, 3, 4, 7, 12, 33, 120, 300] if rng.rand() < 0.3 else [1, 2, 2, 3, 4, 7, 12])
    N = gen.size(rng, 40, vast=0.002)
    N = min(N, 25 if K == 300 else 200) if K > 12 else N
    lp = gen.log_probs(rng, N, K)
    y = gen.labels(rng, N, K)
    M = _loss_mat(rng, K)
    ctx.feature("K=%d" % K, "actions=%d" % M.shape[1], "y:" + str(y.dtype))
    a = np.asarray(ctx.call(L.cl.hard_loss_decision, lp, M))
    loss = np.asarray(ctx.call(L.cl.hard_loss, y, lp, M))
    ctx.close(loss, M[y.astype(int), a].astype(float), "scored loss is not the entry for (true label, decision)", rtol=0, atol=0, y=y, action=a, loss_mat=M)
    z = np.asarray(ctx.call(L.cl.hard_loss, y, lp))
    ctx.check(np.all((z == 0) | (z == 1)), "zero-one loss outside {0,1}", got=z)
    # an added dominated action never changes the losses; a relabelled action set is equivalent
    E = oracle.expected_loss(lp, M)
    unique = np.sum(oracle.optimal_actions(lp, M), axis=1) == 1
    perm = rng.permutation(M.shape[1])
    loss_p = np.asarray(ctx.call(L.cl.hard_loss, y, lp, M[:, perm]))
    ctx.close(loss_p[unique], loss[unique], "losses depend on the order of the actions", rtol=0, atol=0)
    # expected loss of the decision is minimal on average under the predictive distribution
    if np.any(~oracle.optimal_actions(lp, M)):
        ctx.note(lp, M, y)
    ctx.sample(y=y[:4], probs=np.exp(lp[:2]), loss_mat=M, losses=loss[:4])


@C01.scenario(60, 60)
def small_grid(ctx, rng):
    """Exhaustive: all 2-label problems on a coarse probability/loss grid."""
    vals = [0.0, 1.0, 2.0]
    mats = list(itertools.product(vals, repeat=4))
    ps = [0.0, 0.25, 0.5, 1.0 / 3, 0.75, 1.0]
    i = ctx.index
    for mat in mats[i::60]:
        M = np.array(mat).reshape(2, 2)
        with np.errstate(divide="ignore"):
            lp = np.log(np.array([[p, 1 - p] for p in ps]))
        for yv in (0, 1):
            ctx.call(L.cl.hard_loss, np.full(len(ps), yv), lp, M)
        ctx.note("grid", M)
    ctx.feature("grid")


# ---------------------------------------------------------------------------
C02 = Prop(
    "C02",
    "random/tied/peaked/flat/-inf label distributions with 1..12 labels and all label dtypes; non-trivial when the "
    "distribution is neither one-hot nor uniform everywhere",
    assumptions=["reference formulas evaluated with compensated sums, compared to 1e-9"],
)


def _yl(ev):
    return np.asarray(ev.arg(0, "y")), np.asarray(ev.arg(1, "log_pred_prob"), dtype=float)


@C02.hook("classification.log_loss")
def _ll(ctx, ev):
    y, lp = _yl(ev)
    if not close(ev.result, oracle.log_loss(y, lp)):
        ctx.record("log loss is not minus the log probability of the true label", y=y, lp=lp, got=ev.result, want=oracle.log_loss(y, lp))


@C02.hook("classification.brier_loss")
def _br(ctx, ev):
    y, lp = _yl(ev)
    w = oracle.brier(y, lp, ev.arg(2, "rescale", True))
    if not close(ev.result, w, 1e-9, 1e-11):
        ctx.record("wrong Brier loss", y=y, lp=lp, rescale=ev.arg(2, "rescale", True), got=ev.result, want=w)


@C02.hook("classification.spherical_loss")
def _spl(ctx, ev):
    y, lp = _yl(ev)
    w = oracle.spherical(y, lp, ev.arg(2, "rescale", True))
    if not close(ev.result, w, 1e-9, 1e-11):
        ctx.record("wrong spherical loss", y=y, lp=lp, rescale=ev.arg(2, "rescale", True), got=ev.result, want=w)


@C02.scenario(1200, 25000)
def scoring(ctx, rng):
    K = gen.pick(rng, [1, 2, 2, 3, 4, 7, 12, 33, 120, 300] if rng.rand() < 0.3 else [1, 2, 2, 3, 4, 7, 12])
    N = gen.size(rng, 40, vast=0.002)
    N = min(N, 300) if K == 300 else N
    lp = gen.log_probs(rng, N, K)
    y = gen.labels(rng, N, K)
    ctx.feature("K=%d" % K, "y:" + str(y.dtype))
    ctx.call(L.cl.log_loss, y, lp)
    for f in (L.cl.brier_loss, L.cl.spherical_loss):
        ctx.call(f, y, lp)
        ctx.call(f, y, lp, True)
        r = ctx.call(f, y, lp, rescale=False)
        ctx.check(np.all(np.isfinite(np.asarray(r, float))), "non-finite loss for a valid distribution", got=r)
    p = np.exp(lp)
    if not np.all((p == 0) | (p == 1)) and not np.allclose(p, 1.0 / K):
        ctx.note(y, lp)
    ctx.sample(y=y[:4], p=p[:4])


@C02.scenario(300, 5000)
def anchors(ctx, rng):
    """Perfect forecast 0, uniform forecast 1, properness."""
    K = gen.pick(rng, [1, 2, 3, 5, 9, 70])
    N = gen.size(rng, 20)
    y = gen.labels(rng, N, K)
    perfect = np.full((N, K), -np.inf)
    perfect[np.arange(N), y.astype(int)] = 0.0
    uniform = np.full((N, K), -np.log(K))
    for f in (L.cl.log_loss, L.cl.brier_loss, L.cl.spherical_loss):
        ctx.close(ctx.call(f, y, perfect), np.zeros(N), "perfect forecast does not get loss 0", atol=1e-9, f=f.__name__, K=K)
    if K > 1:
        for f in (L.cl.brier_loss, L.cl.spherical_loss):
            ctx.close(ctx.call(f, y, uniform), np.ones(N), "uniform forecast does not get rescaled loss 1", atol=1e-9, f=f.__name__, K=K)
        ctx.close(ctx.call(L.cl.log_loss, y, uniform), np.full(N, np.log(K)), "uniform forecast does not get log loss log K", atol=1e-9)
    # properness: under truth p, forecasting p beats forecasting q
    p = rng.dirichlet(np.ones(K))
    q = rng.dirichlet(np.ones(K) * gen.pick(rng, [0.3, 1.0, 5.0]))
    if rng.rand() < 0.5:
        q = 0.99 * p + 0.01 * q
    labs = np.arange(K)
    for f in (L.cl.log_loss, L.cl.brier_loss, L.cl.spherical_loss):
        lq = np.asarray(ctx.call(f, labs, np.log(np.tile(np.maximum(q, 1e-300), (K, 1)))))
        l_p = np.asarray(ctx.call(f, labs, np.log(np.tile(np.maximum(p, 1e-300), (K, 1)))))
        ctx.check(np.dot(p, lq) >= np.dot(p, l_p) - 1e-9, "forecasting the truth is not optimal in expectation", f=f.__name__, p=p, q=q)
    ctx.note("anchor", y, p, q)


# ---------------------------------------------------------------------------
C03 = Prop(
    "C03",
    "tables with 1..4 methods in arbitrary column order, 1..5 labels, arbitrary row index, normalized and unnormalized "
    "rows, standard and recording metrics; non-trivial when there are >= 2 methods or unnormalized rows",
)
C03.observe("classification.loss_table")


def _both(f):
    return f, lambda y, lp: np.asarray(f(y, lp), dtype=float)


OWN = [
    _both(lambda y, lp: -2.5 - np.exp(lp[:, -1]) * (1.0 + y)),
    _both(lambda y, lp: 1e6 * (np.exp(lp[np.arange(len(y)), y.astype(int)]) - 0.5)),
    _both(lambda y, lp: 3 * y.astype(int) - 7),
    _both(lambda y, lp: np.where(y.astype(int) == 0, np.inf, -1.0)),
    (lambda y, lp: L.cl.spherical_loss(y, lp, rescale=False), lambda y, lp: oracle.spherical(y, lp, False)),
    (lambda y, lp: L.cl.brier_loss(y, lp, rescale=False), lambda y, lp: oracle.brier(y, lp, False)),
]


def _metrics(rng, ctx):
    std = {
        "NLL": (L.cl.log_loss, oracle.log_loss),
        "Brier": (L.cl.brier_loss, oracle.brier),
        "sphere": (L.cl.spherical_loss, oracle.spherical),
        "zero_one": (L.cl.hard_loss, None),
    }
    names = [list(std)[i] for i in rng.permutation(4)[: rng.randint(1, 5)]]
    return dict((n, std[n]) for n in names)


@C03.scenario(500, 9000)
def table(ctx, rng):
    K = gen.pick(rng, [1, 2, 2, 3, 5])
    N = gen.size(rng, 30)
    methods = gen.names(rng, gen.n_methods(rng))
    normalized = rng.rand() < 0.4
    tbl, D = gen.pred_table(rng, methods, K, N, normalized=normalized)
    y = gen.labels(rng, N, K)
    assume = bool(normalized and rng.rand() < 0.5)
    md = _metrics(rng, ctx)
    seen = []

    def spy(yy, lp):
        seen.append((np.array(yy), np.array(lp)))
        return np.arange(N) * 10.0 + len(seen)

    if rng.rand() < 0.5:  # a user's own loss: negative, integer or boolean values
        md["own"] = gen.pick(rng, OWN)
    mdict = dict((k, v[0]) for k, v in md.items())
    if rng.rand() < 0.6:
        mdict["spy"] = spy
    if rng.rand() < 0.2:
        mdict = dict(reversed(list(mdict.items())))
    kw = {} if not assume and rng.rand() < 0.5 else dict(assume_normalized=assume)
    out = ctx.call(L.cl.loss_table, tbl, y, mdict, **kw)
    ctx.feature("K=%d" % K, "methods=%d" % len(methods), "normalized" if normalized else "unnormalized", "idx:" + type(tbl.index).__name__, "assume=%s" % assume)
    ctx.check(out.shape == (N, len(mdict) * len(methods)), "table is not data points x (metric x method)", got=out)
    ctx.check(out.index.equals(tbl.index), "row index does not match the prediction table", got=out.index)
    ctx.check(set(out.columns) == set(itertools.product(mdict, methods)), "columns are not the metric x method product", got=list(out.columns))
    ctx.check(list(out.columns.names) == ["metric", "method"], "column levels misnamed", got=out.columns.names)
    ctx.check(all(str(d) == "float64" for d in out.dtypes), "losses are not floats", got=list(out.dtypes))
    for m in methods:
        ref = D[m] if assume else oracle.normalize(D[m])
        for name, (f, o) in md.items():
            got = out[(name, m)].values
            if o is not None:
                ctx.close(got, o(y, ref), "loss of %s/%s is not the loss of the renormalized prediction" % (name, m), atol=1e-6 if name == "own" else 1e-9, y=y, lp=D[m])
            else:
                p = np.exp(ref)
                best = oracle.optimal_actions(ref, 1.0 - np.eye(K))
                for n in range(N):
                    ok = set(float(a != int(y[n])) for a in np.where(best[n])[0])
                    ctx.check(got[n] in ok, "zero-one loss wrong", row=n, p=p[n], y=y[n], got=got[n])
    if "spy" in mdict:
        ctx.check(len(seen) == len(methods), "metric not evaluated exactly once per method", calls=len(seen))
        used = set()
        for m in methods:
            ref = D[m] if assume else oracle.normalize(D[m])
            col = out[("spy", m)].values
            k = int(round(col[0])) - 1
            ctx.check(0 <= k < len(seen) and k not in used, "a metric result was dropped or used twice", got=col)
            used.add(k)
            ctx.close(col, np.arange(N) * 10.0 + k + 1, "losses not stored in data point order", rtol=0, atol=0)
            ctx.same(seen[k][0].astype(int), y.astype(int), "metric did not get the labels in row order")
            ctx.close(seen[k][1], ref, "metric of %s did not get that method's normalized predictions" % m, atol=1e-9)
            ctx.close(np.exp(seen[k][1]).sum(axis=1), np.ones(N), "predictions handed to the metric are not normalized", rtol=1e-9)
    if len(methods) > 1 or not normalized:
        ctx.note(tbl, y, sorted(mdict), assume)
    ctx.sample(methods=methods, K=K, N=N, metrics=list(mdict), first_row=out.iloc[0].to_dict())


@C03.scenario(200, 4000)
def no_cheating(ctx, rng):
    """Claiming more (or less) total probability never changes a loss; NaNs
    and scrambled label columns are refused."""
    K = gen.pick(rng, [2, 3, 4])
    N = gen.size(rng, 15)
    methods = gen.names(rng, rng.randint(1, 4))
    tbl, D = gen.pred_table(rng, methods, K, N)
    y = gen.labels(rng, N, K)
    metrics = {"NLL": L.cl.log_loss, "Brier": L.cl.brier_loss, "sphere": L.cl.spherical_loss}
    base = ctx.call(L.cl.loss_table, tbl, y, metrics)
    cheat = tbl.copy()
    m = gen.pick(rng, methods)
    shift = rng.choice([0.5, 3.0, 50.0, -20.0, 300.0], size=N)
    for k in range(K):
        cheat[(m, k)] = cheat[(m, k)].values + shift
    got = ctx.call(L.cl.loss_table, cheat, y, metrics)
    ctx.close(got[base.columns].values, base.values, "scaling a method's probabilities changed the losses", rtol=1e-7, atol=1e-8, method=m)
    nan = tbl.copy()
    nan.iloc[rng.randint(N), rng.randint(nan.shape[1])] = np.nan
    ctx.rejects(L.cl.loss_table, "NaN predictive probability", nan, y, metrics)
    ctx.rejects(L.cl.loss_table, "NaN predictive probability (assumed normalized)", nan, y, metrics, assume_normalized=True)
    # label columns of one method swapped
    cols = list(tbl.columns)
    a, b = cols.index((m, 0)), cols.index((m, 1))
    cols[a], cols[b] = cols[b], cols[a]
    ctx.rejects(L.cl.loss_table, "label columns out of order", tbl[cols], y, metrics)
    ctx.rejects(L.cl.loss_table, "labels of wrong length", tbl, np.concatenate((y, y[:1])), metrics)
    ctx.note("cheat", tbl, y)


# ---------------------------------------------------------------------------
C04 = Prop(
    "C04",
    "targets/means/stds over 30 orders of magnitude, integer and float dtypes, tables with arbitrary method order, moment "
    "order, extra moments and row index; non-trivial when some prediction is not exact",
)


def _yms(ev):
    return [np.asarray(ev.arg(i, n)) for i, n in enumerate(("y", "mu", "std"))]


def _mk(name, ref):
    def f(ctx, ev):
        y, mu, std = _yms(ev)
        w = ref(y, mu, std)
        if not close(ev.result, w, 1e-9, 1e-300):
            ctx.record("wrong %s" % name, y=y, mu=mu, std=std, got=ev.result, want=w)

    return f


C04.hook("regression.square_loss")(_mk("squared loss", oracle.sq_loss))
C04.hook("regression.abs_loss")(_mk("absolute loss", oracle.abs_loss))


@C04.hook("regression.log_loss")
def _gl(ctx, ev):
    y, mu, std = _yms(ev)
    w = oracle.gauss_nll(y, mu, std)
    scale = 1.0 + np.abs(np.log(std.astype(float)))
    if not np.all(np.abs(np.asarray(ev.result, float) - w) <= 1e-9 * (np.abs(w) + scale)):
        ctx.record("wrong Gaussian log loss", y=y, mu=mu, std=std, got=ev.result, want=w)


def _reg(rng, N):
    sc = 10.0 ** rng.randint(-6, 7)
    y = rng.randn(N) * sc
    mu = y + rng.randn(N) * sc * gen.pick(rng, [0.0, 1e-3, 1.0, 30.0])
    std = np.exp(rng.randn(N)) * sc * gen.pick(rng, [1e-3, 1.0, 1e3])
    k = rng.randint(6)
    if k == 0:
        y = rng.randint(-5, 6, size=N)
    elif k == 1:
        mu = rng.randint(-5, 6, size=N)
        std = np.ones(N, dtype=int) * rng.randint(1, 4)
    elif k == 2:
        mu = y.copy()
    elif k == 3:
        y = y + 1e6 * sc
        mu = mu + 1e6 * sc
    elif k == 4:  # very confident about some points, clueless about others
        std = 10.0 ** rng.uniform(-10, 10, size=N) * sc
    return y, mu, std


@C04.scenario(1000, 20000)
def losses(ctx, rng):
    y, mu, std = _reg(rng, gen.size(rng, 60, vast=0.004))
    for f in (L.rg.square_loss, L.rg.abs_loss, L.rg.log_loss):
        r = np.asarray(ctx.call(f, y, mu, std))
        ctx.check(r.shape == y.shape, "one loss per data point", got=r)
    ctx.feature("y:" + str(np.asarray(y).dtype))
    if np.any(y != mu):
        ctx.note(y, mu, std)


OWN_REG = [
    lambda y, mu, std: np.asarray(mu) - y,
    lambda y, mu, std: np.sign(np.asarray(mu) - y).astype(int),
    lambda y, mu, std: np.asarray(mu) > y,
    lambda y, mu, std: np.where(np.asarray(mu) > y, np.inf, -1.0),
    lambda y, mu, std: 1e-7 * np.arange(len(y)) - 1.0,
]


@C04.scenario(400, 8000)
def table_reg(ctx, rng):
    N = gen.size(rng, 30)
    methods = gen.names(rng, gen.n_methods(rng))
    y, _, _ = _reg(rng, N)
    D = {}
    for m in methods:
        _, mu, std = _reg(rng, N)
        D[m] = (mu, std)
    moments = ["mu", "std"]
    extra = rng.rand() < 0.2
    if extra:
        moments.append("skew")
    if rng.rand() < 0.4:
        rng.shuffle(moments)
    cols = pd.MultiIndex.from_product([methods, moments], names=gen.pick(rng, [["method", "moment"], [None, None]]))
    tbl = pd.DataFrame(index=gen.index(rng, N), columns=cols, dtype=float)
    for m in methods:
        tbl[(m, "mu")], tbl[(m, "std")] = D[m]
        if extra:
            tbl[(m, "skew")] = np.nan
    tbl = gen.sliced(rng, tbl)
    seen = []

    def spy(yy, mu, std):
        seen.append((np.array(yy), np.array(mu), np.array(std)))
        return np.arange(N) * 10.0 + len(seen)

    std_m = {"NLL": (L.rg.log_loss, oracle.gauss_nll), "MSE": (L.rg.square_loss, oracle.sq_loss), "MAE": (L.rg.abs_loss, oracle.abs_loss)}
    keys = [list(std_m)[i] for i in rng.permutation(3)[: rng.randint(1, 4)]]
    if rng.rand() < 0.5:  # a user's own loss: signed, integer, boolean or infinite values
        own = gen.pick(rng, OWN_REG)
        std_m["own"] = (own, lambda a, b, c: np.asarray(own(a, b, c), dtype=float))
        keys.insert(rng.randint(len(keys) + 1), "own")
    mdict = dict((k, std_m[k][0]) for k in keys)
    if rng.rand() < 0.6:
        mdict["spy"] = spy
    out = ctx.call(L.rg.loss_table, tbl, y, mdict)
    ctx.feature("methods=%d" % len(methods), "moments=" + "/".join(moments), "idx:" + type(tbl.index).__name__)
    ctx.check(out.shape == (N, len(mdict) * len(methods)), "table is not data points x (metric x method)", got=out)
    ctx.check(out.index.equals(tbl.index), "row index does not match the prediction table", got=out.index)
    ctx.check(set(out.columns) == set(itertools.product(mdict, methods)), "columns are not the metric x method product", got=list(out.columns))
    ctx.check(list(out.columns.names) == ["metric", "method"], "column levels misnamed", got=out.columns.names)
    for m in methods:
        mu, std = D[m]
        for k in keys:
            w = std_m[k][1](y, mu, std)
            ctx.close(out[(k, m)].values, w, "loss of %s/%s is not the loss of that method's prediction" % (k, m), rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(np.log(np.asarray(std, float))))) if k == "NLL" else 1e-300, y=y, mu=mu, std=std)
    if "spy" in mdict:
        ctx.check(len(seen) == len(methods), "metric not evaluated exactly once per method", calls=len(seen))
        used = set()
        for m in methods:
            col = out[("spy", m)].values
            k = int(round(col[0])) - 1
            ctx.check(0 <= k < len(seen) and k not in used, "a metric result was dropped or used twice", got=col)
            used.add(k)
            ctx.close(col, np.arange(N) * 10.0 + k + 1, "losses not stored in data point order", rtol=0, atol=0)
            for a, b, what in zip(seen[k], (y, D[m][0], D[m][1]), ("targets", "means", "stds")):
                ctx.close(a, b, "metric of %s did not get its %s" % (m, what), rtol=0, atol=0)
    ctx.note(tbl, np.asarray(y), keys)
    ctx.sample(methods=methods, moments=moments, first_row=out.iloc[0].to_dict())


C04.observe("regression.loss_table")
