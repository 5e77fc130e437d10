"""C34-C35: numeric helpers, observed directly and inside the real pipelines."""
import numpy as np
import pandas as pd

from rvmon import gen
from rvmon.core import L, Prop, same

# ---------------------------------------------------------------------------
C34 = Prop(
    "C34",
    "label vectors of every int dtype, log probability matrices up to magnitude 1e5 with zero probabilities, score vectors with heavy "
    "ties, tiny gaps and large offsets x noise settings; also the calls the loss and curve pipelines make; non-trivial when the input has "
    "more than one distinct value",
    assumptions=["no row of only zero probabilities", "distinctness is judged where the gap exceeds 1e12 times the float spacing"],
)


@C34.hook("util.one_hot")
def _oh(ctx, ev):
    y, K = np.asarray(ev.arg(0, "y")), int(ev.arg(1, "n_labels"))
    r = np.asarray(ev.result)
    if r.shape != (len(y), K) or r.dtype.kind != "b":
        return ctx.record("one_hot: shape or type", got=r, y=y, n_labels=K)
    for n in range(len(y)):
        if [j for j in range(K) if r[n, j]] != [int(y[n])]:
            return ctx.record("one_hot: row %d is not the label %d" % (n, y[n]), got=r[n], y=y, n_labels=K)


@C34.hook("util.normalize")
def _nm(ctx, ev):
    A, B = np.asarray(ev.arg(0, "log_pred_prob"), dtype=float), np.asarray(ev.result)
    if B.shape != A.shape:
        return ctx.record("normalize: shape", got=B.shape, want=A.shape)
    for n in range(len(A)):
        a, b = A[n], B[n]
        f = np.isfinite(a)
        if not np.any(f) or np.any(a == np.inf) or np.any(np.isnan(a)):
            continue
        scale = 1.0 + np.max(np.abs(a[f]))
        if not np.array_equal(np.isneginf(b), ~f) or not np.all(np.isfinite(b[f])):
            return ctx.record("normalize: zero probabilities changed", a=a, got=b)
        d = (a[f] - a[f][0]) - (b[f] - b[f][0])
        if np.max(np.abs(d)) > 1e-14 * 8 * scale:
            return ctx.record("normalize: differences within the row changed", a=a, got=b)
        s = np.sum(np.exp(b[f] - np.max(b[f]))) * np.exp(np.max(b[f]))
        if abs(s - 1.0) > 1e-13 * 16 * scale * len(a):
            return ctx.record("normalize: row sums to %r" % s, a=a, got=b)


@C34.hook("util.epsilon_noise")
def _en(ctx, ev):
    x = np.asarray(ev.arg(0, "x"), dtype=float)
    d0, dmax = float(ev.arg(1, "default_epsilon", 1e-10)), float(ev.arg(2, "max_epsilon", 1.0))
    r = np.asarray(ev.result)
    if r.shape != x.shape:
        return ctx.record("epsilon_noise: shape", got=r.shape)
    if len(x) == 0:
        return
    u = np.unique(x)
    gap = d0 if len(u) == 1 else min(b - a for a, b in zip(u[:-1], u[1:]))
    gap = min(gap, dmax)
    ulp = np.spacing(np.max(np.abs(x)) + gap)
    if np.max(np.abs(r - x)) > 0.5 * gap + 2 * ulp:
        return ctx.record("epsilon_noise: moved by more than half the smallest gap", x=x, got=r, gap=gap)
    if gap > 8 * ulp:
        o = np.argsort(x, kind="stable")
        for i, j in zip(o[:-1], o[1:]):
            if x[i] < x[j]:
                lo = np.max(r[x == x[i]])
                hi = np.min(r[x == x[j]])
                if not lo <= hi:
                    return ctx.record("epsilon_noise: order of distinct values changed", x=x, got=r)
    if gap > 1e12 * ulp * max(1, len(x)) and len(np.unique(r)) != len(r):
        return ctx.record("epsilon_noise: tied values stay tied", x=x, got=r)
    if gap > 1e4 * ulp:
        for v in u:
            g = r[x == v]
            if len(g) >= 4 and np.all(g == g[0]):
                return ctx.record("epsilon_noise: no noise within a tied group", x=x, got=r)


@C34.scenario(350, 6000)
def encode(ctx, rng):
    N, K = gen.upto(rng, 0, 40), gen.pick(rng, [1, 2, 3, 4, 5, 6, 7, 40, 120, 300, 1500])
    y = rng.randint(K, size=N).astype(gen.pick(rng, [np.int64, np.int32, np.int16] + [np.int8] * (K <= 120)))
    if rng.rand() < 0.3 and N:
        y[:] = gen.pick(rng, [0, K - 1])
    extra = gen.pick(rng, [0, 0, 1, 3])
    ctx.call(L.ut.one_hot, y, K + extra)
    if N:
        bad = y.astype(int).copy()
        bad[rng.randint(N)] = gen.pick(rng, [-1, K, K + 3, -K])
        ctx.rejects(L.ut.one_hot, "label outside the range", bad, K)
        ctx.rejects(L.ut.one_hot, "float labels", y.astype(float), K)
        ctx.note(y, K)


@C34.scenario(350, 6000)
def normalizing(ctx, rng):
    N, K = gen.upto(rng, 0, 30), gen.pick(rng, [1, 2, 3, 4, 5, 6, 7, 40, 120, 300, 1500])
    A = gen.log_probs(rng, max(N, 1), K, normalized=bool(rng.rand() < 0.3))[:N]
    if rng.rand() < 0.3:
        A = A + gen.pick(rng, [-1e5, 1e5, 1e3, -745.0])
    B = A.copy()
    ctx.call(L.ut.normalize, A)
    ctx.check(same(A, B), "normalize modified its argument", before=B, after=A)
    if N and K > 1:
        ctx.note(A)
    ctx.sample(A=A)


@C34.scenario(350, 6000)
def noise(ctx, rng):
    N = gen.upto(rng, 0, 50)
    x = gen.scores(rng, max(N, 1))[:N]
    if rng.rand() < 0.3:
        x = np.round(x, 1)
    if rng.rand() < 0.15:
        x = x * 1e-6
    kw = {}
    if rng.rand() < 0.3:
        kw["default_epsilon"] = gen.pick(rng, [1e-3, 0.5, 1e-10])
    if rng.rand() < 0.3:
        kw["max_epsilon"] = gen.pick(rng, [1e-3, 0.5, 10.0])
    if rng.rand() < 0.4 and not kw:
        kw = {}
    y = x.copy()
    ctx.call(L.ut.epsilon_noise, x, **kw)
    ctx.check(same(x, y), "epsilon_noise modified its argument")
    if len(np.unique(x)) > 1:
        ctx.note(x)


@C34.scenario(60, 800)
def in_pipelines(ctx, rng):
    N, K = rng.randint(2, 30), rng.randint(2, 4)
    y = rng.randint(K, size=N)
    tbl, _ = gen.pred_table(rng, gen.names(rng, 2), K, N, idx=pd.RangeIndex(N))
    ctx.call(L.cl.loss_table, tbl, y, L.cl.STD_CLASS_LOSS)
    ctx.note(tbl.values, y)


# ---------------------------------------------------------------------------
C35 = Prop(
    "C35",
    "point sets of 0..40 values with duplicates, infinities and unsorted order, grids inside, on and outside the points, values near each "
    "other in the float sense x flags; also the calls the curve pipelines make; non-trivial when there are at least two points",
    assumptions=["duplicate unsorted steps carry equal values (otherwise the order among them is not defined)"],
)


@C35.hook("util.unique_take_last")
def _ut(ctx, ev):
    xp, yp = np.asarray(ev.arg(0, "xp")), ev.arg(1, "yp")
    gx, gy = ev.result
    last = {}
    for i, v in enumerate(xp.tolist()):
        last[v] = i
    idx = [last[v] for v in dict.fromkeys(xp.tolist())]
    if np.asarray(gx).tolist() != xp[idx].tolist():
        return ctx.record("unique_take_last: abscissae", got=gx, xp=xp)
    if yp is None:
        if gy is not None:
            ctx.record("unique_take_last: ordinates from nowhere", got=gy)
    elif not same(np.asarray(gy), np.asarray(yp)[idx]):
        ctx.record("unique_take_last: not the last ordinate", got=gy, xp=xp, yp=yp)


@C35.hook("util.cummax_strict")
def _cm(ctx, ev):
    x, r = np.asarray(ev.arg(0, "x")), np.asarray(ev.result)
    want = []
    for v in x.tolist():
        want.append(v if not want else max(float(np.nextafter(want[-1], np.inf)), v))
    if r.tolist() != want:
        ctx.record("cummax_strict: not the least strictly increasing vector above", got=r, x=x, want=np.array(want))


@C35.hook("util.eval_step_func")
def _es(ctx, ev):
    g, xp, yp = np.asarray(ev.arg(0, "x_grid")), np.asarray(ev.arg(1, "xp")), np.asarray(ev.arg(2, "yp"))
    ival = ev.arg(3, "ival")
    r = np.asarray(ev.result)
    if r.shape != g.shape:
        return ctx.record("eval_step_func: shape", got=r.shape, want=g.shape)
    for n in range(len(g)):
        best = None
        for i in range(len(xp)):
            if xp[i] <= g[n] and (best is None or xp[i] >= xp[best]):
                best = i
        want = ival if best is None else yp[best]
        if not same(float(r[n]), float(want)):
            return ctx.record("eval_step_func: value at %r is %r, last step at or before has %r" % (g[n], r[n], want), xp=xp, yp=yp, grid=g)


def points(rng, N, dup=True):
    k = rng.randint(6)
    if k == 0:
        x = rng.randn(N)
    elif k == 1:
        x = rng.randint(5, size=N).astype(float)
    elif k == 2:
        x = np.linspace(0, 1, N) if N else np.zeros(0)
    elif k == 3:
        x = rng.randint(4, size=N) * 1e-300
    elif k == 4:
        x = np.full(N, 0.5)
        for i in range(1, N):
            x[i] = np.nextafter(x[i - 1], np.inf) if rng.rand() < 0.6 else x[i - 1]
    else:
        x = rng.randint(max(1, N), size=N) / 3.0
    if rng.rand() < 0.15 and N:
        x[rng.randint(N)] = gen.pick(rng, [-np.inf, np.inf])
    if rng.rand() < 0.1:
        x = x * 1e150
    x = np.sort(x)
    return x if dup else np.unique(x)


@C35.scenario(400, 7000)
def dedup(ctx, rng):
    N = gen.upto(rng, 0, 40)
    xp = points(rng, N)
    yp = gen.pick(rng, [rng.randn(N), rng.randint(3, size=N), rng.rand(N) * np.inf if False else rng.randn(N)])
    if rng.rand() < 0.1 and N:
        yp = yp.astype(float)
        yp[rng.randint(N)] = np.inf
    a, b = xp.copy(), yp.copy()
    ctx.call(L.ut.unique_take_last, xp, *([yp] if rng.rand() < 0.8 else []))
    ctx.check(same(xp, a) and same(yp, b), "unique_take_last modified its arguments")
    if N >= 2:
        ctx.note(xp, yp)


@C35.scenario(400, 7000)
def strict(ctx, rng):
    N = gen.upto(rng, 0, 40)
    x = points(rng, N)
    x = x[np.isfinite(x)]
    if rng.rand() < 0.4:
        x = rng.permutation(x)
    if rng.rand() < 0.3:
        x = np.concatenate((x, [np.inf]))
    if rng.rand() < 0.3:
        x = np.concatenate(([-np.inf], x))
    y = x.copy()
    copy = gen.pick(rng, [None, True, False])
    r = ctx.call(L.ut.cummax_strict, x, **({} if copy is None else {"copy": copy}))
    if copy is False:
        ctx.check(same(x, np.asarray(r)), "not in place although asked", x=x, got=r)
    else:
        ctx.check(same(x, y), "the argument was modified", before=y, after=x)
    ctx.check(np.all(np.diff(np.asarray(r)[np.isfinite(r)]) > 0), "not strictly increasing", got=r)
    if np.all(np.diff(y) > 0):
        ctx.check(same(np.asarray(r), y), "a strictly increasing vector was changed", got=r, want=y)
    if N >= 2:
        ctx.note(y)


@C35.scenario(600, 10000)
def step(ctx, rng):
    N = gen.upto(rng, 0, 30)
    dup = bool(rng.rand() < 0.3)
    xp = points(rng, N, dup)
    N = len(xp)
    yp = rng.randn(N)
    if rng.rand() < 0.1 and N:
        yp[rng.randint(N)] = gen.pick(rng, [np.inf, -np.inf])
    elif rng.rand() < 0.25:
        yp = rng.randint(-3, 4, size=N)
    kw = {}
    if dup and np.any(np.diff(xp) == 0):
        kw["skip_unique_chk"] = True
    unsorted = bool(rng.rand() < 0.5)
    if unsorted:
        if dup:
            yp = np.searchsorted(xp, xp).astype(float) + 0.5
        o = rng.permutation(N)
        xp, yp = xp[o], yp[o]
        if rng.rand() < 0.3:
            kw["assume_sorted"] = False
    elif rng.rand() < 0.7 or kw:
        kw["assume_sorted"] = True
    ival = float(gen.pick(rng, [0.0, -1.5, np.inf, 7.0])) if rng.rand() < 0.6 or N == 0 else None
    fin = xp[np.isfinite(xp)]
    base = [0.0, -1e9, 1e9] + fin.tolist() + np.nextafter(fin, np.inf).tolist() + np.nextafter(fin, -np.inf).tolist() + (fin + 0.1).tolist() + [np.inf, -np.inf]
    g = np.array([gen.pick(rng, base) for _ in range(rng.randint(0, 25))], dtype=float)
    if ival is None:
        g_bad = g[g < np.min(xp)]
        if len(g_bad):
            gb = rng.permutation(np.concatenate((g_bad[:1], g[g >= np.min(xp)])))
            ctx.rejects(L.ut.eval_step_func, "point before the first step without an initial value", gb, xp, yp, **kw)
        g = g[g >= np.min(xp)]
    else:
        kw["ival"] = ival
    a = g.copy(), xp.copy(), yp.copy()
    ctx.call(L.ut.eval_step_func, g, xp, yp, **kw)
    ctx.check(same((g, xp, yp), a), "eval_step_func modified its arguments")
    if N >= 2 and len(g):
        ctx.note(g, xp, yp)
    ctx.feature("unsorted" if unsorted else "sorted", "duplicates" if "skip_unique_chk" in kw else "unique", "ival" if ival is not None else "no ival")
    ctx.sample(grid=g, xp=xp, yp=yp, options=kw)


@C35.scenario(60, 800)
def in_curves(ctx, rng):
    N = gen.upto(rng, 4, 30)
    y, s = gen.binary(rng, N), gen.scores(rng, N)
    y[0], y[1] = True, False
    for curve in (L.pc.roc_curve, L.pc.recall_precision_curve, L.pc.prg_curve):
        ctx.call(L.cl.curve_boot, y, np.stack((np.zeros(N), s), axis=1), L.ut.normalize(np.zeros((N, 2))), curve_f=curve, x_grid=np.linspace(0, 1, 11), n_boot=5)
    ctx.note(y, s)
