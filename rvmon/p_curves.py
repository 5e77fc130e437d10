"""C16-C22: performance curves, areas, curve bootstrap and its tables."""
import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from rvmon import gen, oracle
from rvmon.core import L, Prop, close

INF = np.inf
EPS = oracle.EPS


def problem(rng, big=60):
    N = gen.size(rng, big, vast=0.003)
    y = gen.binary(rng, N)
    s = gen.scores(rng, N)
    k = rng.randint(12)
    if k == 0:
        s = np.round(s * 3).clip(-1e6, 1e6).astype(gen.pick(rng, [np.int64, np.int32]))
    elif k == 1:
        s = s.clip(-1e30, 1e30).astype(np.float32)
    elif k == 2:  # perfect or reversed ranking
        s = np.where(y, 1.0, -1.0) * gen.pick(rng, [1.0, -1.0]) + (0.1 * rng.rand(N) if rng.rand() < 0.5 else 0.0)
    elif k == 3:  # ties that mix the classes, signed zeros
        s = gen.pick(rng, [np.array([0.0, -0.0, 1.0]), np.array([5e-324, 0.0, 1e-323]), np.array([1e300, -1e300, 1e308])])[rng.randint(3, size=N)]
    elif k == 4:
        s = s + (y * 2.0)
    return y, s


def weights(rng, N, B=None):
    B = gen.pick(rng, [1, 1, 2, 3, 6]) if B is None else B
    k = rng.randint(6)
    if k == 0:
        w = rng.randint(1, 5, size=(B, N))
    elif k == 1:
        w = rng.rand(B, N) + 1e-3
    elif k == 2:
        w = np.maximum(rng.multinomial(N, np.ones(N) / N, size=B).astype(float), 1e-10)
    elif k == 3:
        w = np.exp(3 * rng.randn(B, N))
    elif k == 4:
        w = np.ones((B, N)) * np.exp(5 * rng.randn(B, 1))
    else:
        w = rng.randint(1, 4, size=(B, N)).astype(float) / 3.0
    return w


def rows_of(ev):
    """(y, score, list of weight rows or [None]) of a curve call."""
    y, s, w = ev.arg(0, "y_true"), ev.arg(1, "y_score"), ev.arg(2, "sample_weight", None)
    rows = [None] if w is None else [r for r in np.asarray(w, dtype=float)]
    return np.asarray(y), np.asarray(s, dtype=float), rows


def unpack(ctx, what, ev, kind, nrows, n_th):
    (x, yy, k), th = ev.result
    x, yy, th = np.asarray(x, dtype=float), np.asarray(yy, dtype=float), np.asarray(th, dtype=float)
    if x.shape != (nrows, n_th) or yy.shape != (nrows, n_th) or th.shape != (n_th,):
        ctx.record("%s has the wrong number of points" % what, got=(x.shape, yy.shape, th.shape), want=(nrows, n_th))
        return None
    if k != kind:
        ctx.record("%s has interpolation kind %r" % (what, k), want=kind)
        return None
    return x, yy, th


def wtol(y, w):
    """Rounding allowance of running sums relative to the class totals."""
    if w is None:
        return 1e-12
    tot = float(np.sum(w))
    lo = min([float(np.sum(w[m])) for m in (y, ~y) if np.any(m)])
    return 1e-12 + 1e-14 * len(y) * tot / lo


def judge_roc(ctx, ev):
    y, s, rows = rows_of(ev)
    ths = sorted(set(s.tolist()), reverse=True)
    r = unpack(ctx, "ROC curve", ev, "linear", len(rows), len(ths) + 1)
    if r is None:
        return
    X, Y, th = r
    if th[0] != INF or th[1:].tolist() != ths:
        return ctx.record("thresholds are not the distinct scores in descending order", got=th, want=ths)
    for b, w in enumerate(rows):
        _, fpr, tpr = oracle.roc(y, s, w)
        tol = wtol(y, w)
        if not (np.all(np.abs(X[b] - fpr) <= tol) and np.all(np.abs(Y[b] - tpr) <= tol)):
            return ctx.record("ROC curve does not count the points at or above each threshold", y=y, score=s, weight=w, got=(X[b].tolist(), Y[b].tolist()), want=(fpr.tolist(), tpr.tolist()))
        if not (X[b, 0] == 0 and Y[b, 0] == 0 and X[b, -1] == 1 and Y[b, -1] == 1):
            return ctx.record("ROC curve does not run from (0,0) to (1,1)", got=(X[b], Y[b]))


def judge_pr(ctx, ev):
    y, s, rows = rows_of(ev)
    ths = sorted(set(s.tolist()), reverse=True)
    r = unpack(ctx, "recall-precision curve", ev, "previous", len(rows), len(ths) + 1)
    if r is None:
        return
    X, Y, th = r
    if th[0] != INF or th[1:].tolist() != ths:
        return ctx.record("thresholds are not the distinct scores in descending order", got=th, want=ths)
    for b, w in enumerate(rows):
        _, rec, prec = oracle.pr(y, s, w)
        tol = wtol(y, w)
        # precision = tp / (tp + fp): error of fp relative to the running total
        _, fp, tp = oracle.counts(y, s, w)
        run = np.maximum.accumulate(tp + fp)
        run[0] = run[1]
        ptol = 1e-12 if w is None else 1e-12 + 1e-14 * len(y) * np.max(run) / run
        if not (np.all(np.abs(X[b] - rec) <= tol) and np.all(np.abs(Y[b] - prec) <= ptol)):
            return ctx.record("recall-precision curve does not count the points at or above each threshold", y=y, score=s, weight=w, got=(X[b].tolist(), Y[b].tolist()), want=(rec.tolist(), prec.tolist()))
        if not (X[b, 0] == 0 and X[b, -1] == 1 and np.all(Y[b] >= 0) and np.all(Y[b] <= 1)):
            return ctx.record("recall or precision out of range", got=(X[b], Y[b]))


def judge_prg(ctx, ev):
    y, s, rows = rows_of(ev)
    ths = sorted(set(s.tolist()), reverse=True)
    r = unpack(ctx, "gain curve", ev, "previous", len(rows), len(ths) + 1)
    if r is None:
        return
    X, Y, th = r
    if th[0] != INF or th[1:].tolist() != ths:
        return ctx.record("thresholds are not the distinct scores in descending order", got=th, want=ths)
    for b, w in enumerate(rows):
        _, rg, pg = oracle.prg(y, s, w)
        _, fp, tp = oracle.counts(y, s, w)
        if fp[-1] == 0:
            fp = EPS * tp
        elif tp[-1] == 0:
            tp = EPS * fp
        P, Nn = tp[-1], fp[-1]
        err = 1e-15 if w is None else 1e-15 * len(y)
        tot = P + Nn
        with np.errstate(all="ignore"):
            tr, tq = (P / Nn) * ((P - tp) / tp), (P / Nn) * (fp / tp)
            base = err * tot * ((P / Nn) / tp)
            tolr = 1e-12 + 8 * base + 8 * err * np.abs(tr) * (tot / tp + tot / Nn)
            tolq = 1e-12 + 8 * base + 8 * err * np.abs(tq) * (tot / tp + tot / Nn)
        tolq[0] = tolq[1]
        tolr, tolq = np.where(np.isnan(tolr), 1e-12, tolr), np.where(np.isnan(tolq), 1e-12, tolq)
        with np.errstate(all="ignore"):
            okx = (X[b] == rg) | (np.abs(X[b] - rg) <= tolr)
            oky = (Y[b] == pg) | (np.abs(Y[b] - pg) <= tolq)
        if not (np.all(okx) and np.all(oky)):
            return ctx.record("gain curve is not the gain transform of recall and precision", y=y, score=s, weight=w, got=(X[b].tolist(), Y[b].tolist()), want=(rg.tolist(), pg.tolist()))
        if not (X[b, 0] == 0 and abs(X[b, -1] - 1) <= 1e-12 and abs(Y[b, -1]) <= tolq[-1] and np.all((X[b] >= 0) & (X[b] <= 1)) and np.all(Y[b] <= 1 + 1e-9)):
            return ctx.record("gains out of range or wrong end point", got=(X[b].tolist(), Y[b].tolist()))


def exact_gains(y, s):
    """Gains through exact rational arithmetic on counts (both classes present)."""
    P, N = int(np.sum(y)), int(np.sum(~y))
    pi = Fraction(P, P + N)
    out = []
    for t in sorted(set(s.tolist()), reverse=True):
        tp, fp = int(np.sum(y & (s >= t))), int(np.sum(~y & (s >= t)))
        rec, prec = Fraction(tp, P), Fraction(tp, tp + fp)
        if tp == 0:
            out.append((0.0, -INF))
        else:
            rg, pg = (rec - pi) / ((1 - pi) * rec), (prec - pi) / ((1 - pi) * prec)
            out.append((max(0.0, float(rg)), float(pg)))
    return out


def unweighted(ctx, f, y, s):
    return ctx.call(f, y, s) if ctx.rng.rand() < 0.7 else ctx.call(f, y_true=y, y_score=s, sample_weight=None)


# ---------------------------------------------------------------------------
C16 = Prop(
    "C16",
    "labels (one class, single positive/negative, balanced) x finite scores (ties, signed zeros, subnormals, huge, integer, float32, "
    "perfect and reversed rankings) x optional weights, N=1..60; non-trivial when both classes and >= 2 distinct scores are present",
    assumptions=["comparison tolerance follows the rounding of running sums"],
)
C16.hook("perf_curves.roc_curve")(judge_roc)


@C16.scenario(2000, 40000)
def roc(ctx, rng):
    y, s = problem(rng)
    (x, yy, kind), th = unweighted(ctx, L.pc.roc_curve, y, s)
    A = float(ctx.call(L.ut.area, x, yy, kind)[0])
    mw = oracle.mann_whitney(y, s)
    ctx.close(A, 0.5 if mw is None else mw, "area under the ROC curve is not the rank statistic", atol=1e-12, y=y, score=s)
    ctx.check(bool(np.all(np.diff(x) >= 0) and np.all(np.diff(yy) >= 0)), "ROC curve is not monotone", got=(x, yy))
    w = weights(rng, len(y))
    (xw, yw, kw), _ = ctx.call(L.pc.roc_curve, y, s, w)
    Aw = np.asarray(ctx.call(L.ut.area, xw, yw, kw))
    for b in range(len(w)):
        mw = oracle.mann_whitney(y, s, w[b])
        ctx.close(Aw[b], 0.5 if mw is None else mw, "weighted area is not the weighted rank statistic", atol=10 * wtol(y, w[b]), y=y, score=s, weight=w[b])
    # any strictly increasing transformation, and swapping the classes
    if s.dtype == np.float64 and np.all(np.abs(s) < 1e9):
        rank = np.searchsorted(np.unique(s), s)
        (x2, y2, _), _ = ctx.call(L.pc.roc_curve, y, rank.astype(float))
        ctx.check(close(x2, x, 1e-12) and close(y2, yy, 1e-12), "ROC curve depends on more than the ranking", got=(x2, y2), want=(x, yy))
    flip = ctx.call(L.pc.roc_curve, ~y, -s.astype(float))
    ctx.close(float(L.ut.area(*flip[0])[0]), A, "area changes when classes and scores are both reversed", atol=1e-12)
    ctx.feature("one class" if len(set(y.tolist())) == 1 else "two classes", "ties" if len(set(s.tolist())) < len(s) else "no ties", "dtype=" + str(s.dtype))
    if 0 < y.sum() < len(y) and len(set(s.tolist())) > 1:
        ctx.note(y, s)
    ctx.sample(y=y[:8], score=s[:8], auc=A)


@C16.scenario(24, 60)
def roc_small(ctx, rng):
    """All label vectors and all weak orders of scores for small N."""
    cases = small_cases(ctx.index, 24 if ctx.tier == "quick" else 60, 4 if ctx.tier == "quick" else 5)
    for y, s in cases:
        (x, yy, kind), th = ctx.call(L.pc.roc_curve, y, s)
        mw = oracle.mann_whitney(y, s)
        ctx.close(float(L.ut.area(x, yy, kind)[0]), 0.5 if mw is None else mw, "area under the ROC curve is not the rank statistic", atol=1e-12, y=y, score=s)
        ctx.note(y, s)


def large_problem(rng, k):
    N = (40013, 70001, 140009)[k % 3]
    y = rng.rand(N) < gen.pick(rng, [0.5, 0.9, 0.02])
    y[:2] = [True, False]
    s = gen.pick(rng, [rng.randn(N), rng.randint(1000, size=N) / 7.0, rng.permutation(N) + 0.0]) + y
    return y, s


def large_counts(y, s):
    """Counts at or above each distinct score, in descending order."""
    u, inv = np.unique(-s, return_inverse=True)
    tp = np.cumsum(np.bincount(inv, weights=y * 1.0))
    return tp, np.cumsum(np.bincount(inv, weights=~y * 1.0)), -u


def judge_large(ctx, rng, name):
    """Samples beyond any plausible counter width or block size."""
    y, s = large_problem(rng, ctx.index)
    f = getattr(L.pc, name)
    ctx.in_oracle = True  # the quadratic per-call judges would take forever
    try:
        (x, yy, kind), th = f(y, s)
    except Exception as e:
        ctx.fail("curve failed on a large sample: %r" % e, N=len(y))
    finally:
        ctx.in_oracle = False
    tp, fp, u = large_counts(y, s)
    P, Nn = tp[-1], fp[-1]
    ctx.check(np.shape(x) == (1, len(u) + 1) and np.array_equal(np.asarray(th)[1:], u), "thresholds are not the distinct scores in descending order", N=len(y))
    with np.errstate(all="ignore"):
        if name == "roc_curve":
            wx, wy = np.r_[0.0, fp / Nn], np.r_[0.0, tp / P]
        elif name == "recall_precision_curve":
            pr_ = tp / (tp + fp)
            wx, wy = np.r_[0.0, tp / P], np.r_[pr_[0], pr_]
        else:
            rg = np.maximum(0.0, 1.0 - (P / Nn) * ((P - tp) / tp))
            pg = 1.0 - (P / Nn) * (fp / tp)
            wx, wy = np.r_[0.0, rg], np.r_[pg[0], pg]
        okx = np.abs(x[0] - wx) <= 1e-12 + 1e-12 * np.abs(wx)
        oky = (yy[0] == wy) | (np.abs(yy[0] - wy) <= 1e-12 + 1e-12 * np.abs(wy))
    ctx.check(bool(np.all(okx) and np.all(oky)), "curve of a large sample does not count the points at or above each threshold", N=len(y), positives=P, first=int(np.argmin(okx & oky)))
    ctx.feature("N=%d" % len(y))
    ctx.note("large", len(y), name, s[:5])


@C16.scenario(3, 30)
def roc_large(ctx, rng):
    judge_large(ctx, rng, "roc_curve")


def small_cases(part, parts, maxN):
    k = 0
    for N in range(1, maxN + 1):
        for sc in itertools.product(range(N), repeat=N):
            if set(sc) != set(range(max(sc) + 1)):  # weak orders only
                continue
            for lab in itertools.product((False, True), repeat=N):
                k += 1
                if k % parts == part:
                    yield np.array(lab), np.array(sc, dtype=float)


# ---------------------------------------------------------------------------
C17 = Prop(
    "C17",
    "labels (one class, single positive/negative, balanced) x finite scores (ties, signed zeros, subnormals, huge, integer, float32) x "
    "optional weights, N=1..60, and all labelled weak orders of up to 4 (5) points; non-trivial when both classes and >= 2 distinct scores are present",
)
C17.hook("perf_curves.recall_precision_curve")(judge_pr)


def step_area(rec, prec):
    return math.fsum((rec[i + 1] - rec[i]) * prec[i] for i in range(len(rec) - 1))


@C17.scenario(2000, 40000)
def pr(ctx, rng):
    y, s = problem(rng)
    (x, yy, kind), th = unweighted(ctx, L.pc.recall_precision_curve, y, s)
    A = float(ctx.call(L.ut.area, x, yy, kind)[0])
    _, rec, prec = oracle.pr(y, s)
    ctx.close(A, step_area(rec, prec), "area is not the step sum of precision over recall", atol=1e-10, y=y, score=s)
    ctx.close(float(yy[0, -1]), y.mean(), "precision does not end at the positive fraction", atol=2e-10, y=y)
    ctx.check(bool(np.all(np.diff(x) >= 0)), "recall is not monotone", got=x)
    if y.all() or not y.any():
        ctx.close(A, float(y.mean()), "area with one class present", atol=2e-10)
    w = weights(rng, len(y))
    (xw, yw, kw), _ = ctx.call(L.pc.recall_precision_curve, y, s, w)
    Aw = np.asarray(ctx.call(L.ut.area, xw, yw, kw))
    for b in range(len(w)):
        _, rec, prec = oracle.pr(y, s, w[b])
        ctx.close(Aw[b], step_area(rec, prec), "weighted area is not the step sum", atol=1e-9 + 10 * wtol(y, w[b]), y=y, score=s, weight=w[b])
    ctx.feature("one class" if len(set(y.tolist())) == 1 else "two classes", "ties" if len(set(s.tolist())) < len(s) else "no ties")
    if 0 < y.sum() < len(y) and len(set(s.tolist())) > 1:
        ctx.note(y, s)
    ctx.sample(y=y[:8], score=s[:8], ap=A)


@C17.scenario(3, 30)
def pr_large(ctx, rng):
    judge_large(ctx, rng, "recall_precision_curve")


@C17.scenario(24, 60)
def pr_small(ctx, rng):
    for y, s in small_cases(ctx.index, 24 if ctx.tier == "quick" else 60, 4 if ctx.tier == "quick" else 5):
        (x, yy, kind), th = ctx.call(L.pc.recall_precision_curve, y, s)
        _, rec, prec = oracle.pr(y, s)
        ctx.close(float(L.ut.area(x, yy, kind)[0]), step_area(rec, prec), "area is not the step sum", atol=1e-10, y=y, score=s)
        ctx.note(y, s)


# ---------------------------------------------------------------------------
C18 = Prop(
    "C18",
    "labels x finite scores x optional weights as for the other curves, gains recomputed in exact rational arithmetic for unweighted "
    "data; non-trivial when both classes and >= 2 distinct scores are present",
)
C18.hook("perf_curves.prg_curve")(judge_prg)


def judge_exact(ctx, y, s, R):
    (x, yy, kind), th = R
    if 0 < y.sum() < len(y):
        ex = exact_gains(y, s)
        ctx.close(np.asarray(x)[0, 1:], [e[0] for e in ex], "recall gain differs from exact arithmetic", atol=1e-12, y=y, score=s)
        ctx.close(np.asarray(yy)[0, 1:], [e[1] for e in ex], "precision gain differs from exact arithmetic", rtol=1e-12, atol=1e-12, y=y, score=s)
        A = float(L.ut.area(x, yy, kind)[0])
        xs, ys = [0.0] + [e[0] for e in ex], [ex[0][1]] + [e[1] for e in ex]
        ctx.close(A, oracle.area_step(xs, ys), "area of the gain curve is not the step sum", rtol=1e-10, atol=1e-10, y=y, score=s)
        # a hair more or less recall gain is a jump of infinite precision gain: only judged where exact
    else:
        A = float(L.ut.area(x, yy, kind)[0])
        ctx.close(A, 0.0, "area of the gain curve with one class", atol=1e-5)
    return A


@C18.scenario(2000, 40000)
def prg(ctx, rng):
    y, s = problem(rng)
    A = judge_exact(ctx, y, s, unweighted(ctx, L.pc.prg_curve, y, s))
    w = weights(rng, len(y))
    (xw, yw, kw), _ = ctx.call(L.pc.prg_curve, y, s, w)
    ctx.check(bool(np.all(np.diff(xw, axis=1) >= 0)), "recall gain is not monotone", got=xw)
    # gains against the recall and precision reported for the same data
    if 0 < y.sum() < len(y):
        (rx, ry, _), _ = ctx.call(L.pc.recall_precision_curve, y, s)
        (gx, gy, _), _ = ctx.call(L.pc.prg_curve, y, s)
        pi = y.mean()
        with np.errstate(all="ignore"):
            wr = np.maximum(0.0, (rx[0, 1:] - pi) / ((1 - pi) * rx[0, 1:]))
            wp = (ry[0, 1:] - pi) / ((1 - pi) * ry[0, 1:])
        ctx.close(gx[0, 1:], wr, "recall gain is not the gain of the recall", rtol=1e-9, atol=1e-9, y=y, score=s)
        ctx.close(gy[0, 1:], wp, "precision gain is not the gain of the precision", rtol=1e-9, atol=1e-9, y=y, score=s)
        ctx.check(gy[0, 0] == gy[0, 1], "start point does not carry the first precision gain", got=gy)
    ctx.feature("one class" if len(set(y.tolist())) == 1 else "two classes", "-inf area" if A == -INF else "finite area")
    if 0 < y.sum() < len(y) and len(set(s.tolist())) > 1:
        ctx.note(y, s)
    ctx.sample(y=y[:8], score=s[:8], auprg=A)


@C18.scenario(3, 30)
def prg_large(ctx, rng):
    judge_large(ctx, rng, "prg_curve")


@C18.scenario(24, 60)
def prg_small(ctx, rng):
    for y, s in small_cases(ctx.index, 24 if ctx.tier == "quick" else 60, 4 if ctx.tier == "quick" else 5):
        judge_exact(ctx, y, s, ctx.call(L.pc.prg_curve, y, s))
        ctx.note(y, s)


# ---------------------------------------------------------------------------
C19 = Prop(
    "C19",
    "weight matrices (integers, fractions, resampling counts with tiny minimum, wide ranges, 1..6 rows) x labels x scores, each related "
    "to replicated, permuted, rescaled, single-row and point-removed runs of the same curve; non-trivial when both classes are present and N >= 2",
    assumptions=["vanishing weights are approximated by 1e-13 of the total"],
)
for _c, _j in (("roc_curve", judge_roc), ("recall_precision_curve", judge_pr), ("prg_curve", judge_prg)):
    C19.hook("perf_curves." + _c)(_j)


def cmp_curves(ctx, msg, a, b, tol, skip0=False, **det):
    (x1, y1, k1), t1 = a
    (x2, y2, k2), t2 = b
    x1, y1, x2, y2 = [np.atleast_2d(v)[:, 1:] if skip0 else np.atleast_2d(v) for v in (x1, y1, x2, y2)]
    ctx.check(k1 == k2 and np.array_equal(t1, t2), msg + " (thresholds)", got=t1, want=t2, **det)
    ctx.check(x1.shape == x2.shape, msg + " (shape)", got=x1.shape, want=x2.shape, **det)
    cap = 1e6  # gains this negative are as good as -inf
    tx = tol
    with np.errstate(all="ignore"):
        ty = tol * np.maximum(1.0, np.abs(np.where(np.isfinite(y1), y1, 0.0))) ** 2
        okx = np.abs(x1 - x2) <= tx
        oky = (y1 == y2) | (np.abs(y1 - y2) <= ty) | ((y1 < -cap) & (y2 < -cap))
    ctx.check(bool(np.all(okx) and np.all(oky)), msg, got=(x1.tolist(), y1.tolist()), want=(x2.tolist(), y2.tolist()), **det)


@C19.scenario(1200, 20000)
def weighted(ctx, rng):
    y, s = problem(rng, 30)
    N = len(y)
    name = gen.pick(rng, ["roc_curve", "recall_precision_curve", "prg_curve"])
    f = getattr(L.pc, name)
    prgq = name == "prg_curve"
    w = weights(rng, N)
    full = ctx.call(f, y, s, w) if rng.rand() < 0.5 else ctx.call(f, y, s, sample_weight=w)
    (X, Y, kind), th = full
    ctx.feature(name, "rows=%d" % len(w))
    t0 = max(wtol(y, r) for r in np.asarray(w, dtype=float))
    tol = 1e-9 + 100 * t0
    if prgq:  # gains divide by both class totals (a missing class has total 1e-10)
        wf = np.asarray(w, dtype=float)
        ratio = 1e10 if y.all() or not y.any() else float(np.max(wf.sum(axis=1) / np.minimum(wf[:, y].sum(axis=1), wf[:, ~y].sum(axis=1))))
        tol = 1e-9 + 1e-13 * N * ratio ** 2
    if tol > 1e-4:
        ctx.feature("ill conditioned")
        tol = None
    det = dict(curve=name, y=y, score=s, weight=w)
    if tol is not None:
        # each row on its own
        b = rng.randint(len(w))
        one = ctx.call(f, y, s, w[b : b + 1])
        cmp_curves(ctx, "row of a weighted curve depends on the other rows", ((X[b], Y[b], kind), th), one, tol, **det)
        # order of the points
        p = rng.permutation(N)
        cmp_curves(ctx, "weighted curve depends on the order of the points", ctx.call(f, y[p], s[p], w[:, p]), full, tol, **det)
        # scale
        c = gen.pick(rng, [2.0, 0.125, 3.7, 1e-6, 1e6])
        cmp_curves(ctx, "weighted curve depends on the scale of the weights", ctx.call(f, y, s, w * c), full, tol, **det)
    if prgq and (y.all() or not y.any()):
        return
    # integers: repeat the points
    wi = rng.randint(1, 4, size=N)
    rep = ctx.call(f, np.repeat(y, wi), np.repeat(s, wi))
    cmp_curves(ctx, "integer weights differ from repeated points", ctx.call(f, y, s, wi[None, :] * gen.pick(rng, [1, 1.0])), rep, 1e-9, **det)
    cmp_curves(ctx, "unit weights differ from no weights", ctx.call(f, y, s, np.ones((1, N))), ctx.call(f, y, s), 1e-9, **det)
    # vanishing weight of some points
    if N >= 4:
        drop = rng.rand(N) < 0.3
        keep = ~drop
        if drop.any() and y[keep].any() and (~y[keep]).any():
            ww = np.where(drop, 1e-13, 1.0)[None, :]
            (x1, y1, k1), t1 = ctx.call(f, y, s, ww)
            ref = ctx.call(f, y[keep], s[keep])
            sel = np.r_[True, np.isin(np.asarray(t1)[1:], np.asarray(ref[1])[1:])]
            cmp_curves(ctx, "a vanishing weight is not the same as removing the point", ((np.asarray(x1)[:, sel], np.asarray(y1)[:, sel], k1), np.asarray(t1)[sel]), ref, 1e-5, skip0=True, **det)
    if 0 < y.sum() < N:
        ctx.note(name, y, s, w)
    ctx.sample(curve=name, y=y[:8], score=s[:8], weight=w[0][:8])


@C19.scenario(200, 3000)
def many_rows(ctx, rng):
    """Batches of hundreds of rows, as the bootstrap uses them."""
    y, s = problem(rng, 25)
    N, B = len(y), int(gen.pick(rng, [50, 300]))
    if N > 100:
        B = 6
    w = np.maximum(rng.multinomial(N, np.ones(N) / N, size=B).astype(float), 1e-10)
    for name in ("roc_curve", "recall_precision_curve", "prg_curve"):
        ctx.call(getattr(L.pc, name), y, s, w)
    ctx.note("rows", y, s, B)


# ---------------------------------------------------------------------------
C20 = Prop(
    "C20",
    "batches of 1..5 sorted curves with 2..40 points (duplicate abscissae, vertical jumps, flat parts, infinite step values over zero "
    "and positive width) x grids on, between and at the ends of the points x both kinds; non-trivial when the curve has positive width",
    assumptions=["on a vertical jump of a linear curve any value of the jump is accepted"],
)


def judge_area(ctx, ev):
    x, y, kind = ev.arg(0, "x_curve"), ev.arg(1, "y_curve"), ev.arg(2, "kind")
    x, y, got = np.asarray(x, float), np.asarray(y, float), np.asarray(ev.result, float)
    if got.shape != (x.shape[0],):
        return ctx.record("one area per curve expected", got=got.shape)
    for b in range(x.shape[0]):
        want = oracle.area_step(x[b], y[b]) if kind == "previous" else oracle.area_trapz(x[b], y[b])
        with np.errstate(all="ignore"):
            fin = np.where(np.isfinite(y[b]), np.abs(y[b]), 0.0)
            sc = float(np.sum(np.diff(x[b]) * np.maximum(fin[1:], fin[:-1])))
        if not (got[b] == want or abs(got[b] - want) <= 1e-12 * sc + 1e-300):
            return ctx.record("area is not the integral of the %s interpolation" % kind, x=x[b], y=y[b], got=got[b], want=want)


def interp_bounds(grid, x, y, kind):
    """[lo, hi] at every grid point (equal unless on a vertical jump)."""
    if kind == "previous":
        k = np.searchsorted(x, grid, side="right") - 1
        return y[k], y[k]
    return oracle.linear_range(grid, x, y)


def judge_interp(ctx, ev):
    g, x, y, kind = [ev.arg(i, n, d) for i, (n, d) in enumerate((("x_grid", None), ("xp", None), ("yp", None), ("kind", "linear")))]
    g, x, y, got = np.asarray(g, float), np.atleast_2d(np.asarray(x, float)), np.atleast_2d(np.asarray(y, float)), np.atleast_2d(np.asarray(ev.result, float))
    if got.shape != (x.shape[0], g.shape[-1]):
        return ctx.record("interpolation has the wrong shape", got=got.shape)
    G = np.broadcast_to(g, (x.shape[0], g.shape[-1]))
    for b in range(x.shape[0]):
        lo, hi = interp_bounds(G[b], x[b], y[b], kind)
        sc = 1e-11 * np.max(np.abs(np.where(np.isfinite(y[b]), y[b], 0.0))) if kind != "previous" else 0.0
        with np.errstate(all="ignore"):
            ok = ((lo - sc <= got[b]) & (got[b] <= hi + sc)) | (got[b] == lo)
        if not np.all(ok):
            j = int(np.where(~ok)[0][0])
            return ctx.record("%s interpolation wrong" % kind, x=x[b], y=y[b], at=G[b, j], got=got[b, j], want=(lo[j], hi[j]))


C20.hook("util.area")(judge_area)
C20.hook("util.interp1d")(judge_interp)


def a_curve(rng, M, kind):
    k = rng.randint(6)
    if k == 0:
        x = np.sort(rng.rand(M))
    elif k == 1:
        x = np.sort(rng.randint(max(2, M // 2), size=M)).astype(float)
    elif k == 2:
        x = np.cumsum(np.where(rng.rand(M) < 0.4, 0.0, rng.rand(M)))
    elif k == 3:
        x = np.linspace(0, 1, M)
    elif k == 4:
        x = np.sort(np.r_[0.0, 0.0, 1.0, 1.0, rng.rand(M)])[:M] if M >= 4 else np.arange(M) * 1.0
    else:
        x = np.sort(rng.randn(M) * 10.0 ** rng.randint(-6, 7))
    y = gen.pick(rng, [rng.rand(M), rng.randn(M), np.sort(rng.rand(M)), rng.randint(3, size=M) * 1.0, np.zeros(M) + 0.3])
    if kind == "previous" and rng.rand() < 0.4:
        y = y.copy()
        y[: rng.randint(1, M)] = -INF
        if rng.rand() < 0.3:
            y[rng.randint(M)] = -INF
    return x, y


@C20.scenario(2000, 40000)
def curves(ctx, rng):
    kind = gen.pick(rng, ["linear", "previous"])
    B, M = gen.pick(rng, [1, 1, 2, 3, 5]), gen.pick(rng, [2, 3, 4, 8, 15, 40, 2, 3, 4, 8, 15, 40, 70, 130, 300])
    X, Y = map(np.array, zip(*[a_curve(rng, M, kind) for _ in range(B)]))
    if rng.rand() < 0.5:  # common support so that one grid fits all
        lo, sp = X[:, :1], np.ptp(X, axis=1)[:, None]
        X = np.where(sp > 0, (X - lo) / np.where(sp > 0, sp, 1.0), np.linspace(0, 1, M)[None, :])
        X[:, -1] = 1.0
        X = np.maximum.accumulate(np.clip(X, 0, 1), axis=1)
    A = np.asarray(ctx.call(L.ut.area, X, Y, kind))
    b = rng.randint(B)
    ctx.close(ctx.call(L.ut.area, X[b : b + 1], Y[b : b + 1], kind)[0], A[b], "area depends on the other curves of the batch", rtol=1e-12, x=X, y=Y)
    # extra points on the curve
    x, yv = X[b], Y[b]
    j = rng.randint(M - 1)
    t = rng.rand()
    xm = x[j] + t * (x[j + 1] - x[j])
    ym = yv[j] if kind == "previous" else yv[j] + t * (yv[j + 1] - yv[j])
    if x[j] < xm < x[j + 1]:
        x2, y2 = np.insert(x, j + 1, xm), np.insert(yv, j + 1, ym)
        ctx.close(ctx.call(L.ut.area, x2[None], y2[None], kind)[0], A[b], "adding a point on the curve changed the area", rtol=1e-8, atol=1e-9 * np.ptp(x))
    lo, hi = X[:, 0].max(), X[:, -1].min()
    if lo <= hi:
        pts = np.r_[lo, hi, lo + (hi - lo) * rng.rand(5), X[b][(X[b] >= lo) & (X[b] <= hi)], np.linspace(lo, hi, 7)]
        pts = np.clip(pts, lo, hi)
        grid = np.sort(pts) if rng.rand() < 0.7 else pts
        r = np.asarray(ctx.call(L.ut.interp1d, grid, X, Y, kind))
        ctx.check(r.shape == (B, len(grid)), "interpolation has the wrong shape", got=r.shape)
        if rng.rand() < 0.5:
            ctx.same(np.asarray(ctx.call(L.ut.interp1d, grid, X[b], Y[b], kind)), r[b], "interpolation depends on the other curves of the batch")
        if rng.rand() < 0.3:
            ctx.call(L.ut.interp1d, grid, X, Y, kind=kind)
        if kind == "linear" and rng.rand() < 0.3:
            ctx.call(L.ut.interp1d, grid, X, Y)
        if x[j] < xm < x[j + 1]:
            off = np.array([not np.any(x == g) for g in grid])
            if off.any():
                r2 = np.asarray(ctx.call(L.ut.interp1d, grid[off], x2, y2, kind))
                ctx.close(r2, r[b][off], "adding a point on the curve changed its values", rtol=1e-7, atol=1e-9)
    ctx.feature(kind, "B=%d" % B, "dup x" if np.any(np.diff(X) == 0) else "distinct x", "-inf" if np.any(np.isinf(Y)) else "finite")
    if np.ptp(X) > 0:
        ctx.note(X, Y, kind)
    ctx.sample(kind=kind, x=x[:6], y=yv[:6], area=A[b])


@C20.scenario(24, 300)
def large(ctx, rng):
    """Many curves, or curves of many points."""
    kind = ["linear", "previous"][ctx.index % 2]
    B, M = gen.pick(rng, [(1500, 4), (4200, 3), (2, 3000), (1, 9000), (70, 600)])
    X = np.sort(rng.rand(B, M), axis=1)
    X[:, 0], X[:, -1] = 0.0, 1.0
    if rng.rand() < 0.3:
        X = np.sort(np.round(X, 2), axis=1)
    Y = rng.randn(B, M) * 10.0 ** rng.randint(-3, 4)
    ctx.in_oracle = True
    A = np.asarray(L.ut.area(X, Y, kind))
    ctx.in_oracle = False
    H = Y[:, :-1] if kind == "previous" else 0.5 * (Y[:, 1:] + Y[:, :-1])
    want = np.array([math.fsum(h * w) for h, w in zip(H, np.diff(X, axis=1))])
    ctx.check(A.shape == (B,), "not one area per curve", got=A.shape)
    ctx.close(A, want, "wrong area in a large batch", rtol=1e-9, atol=1e-9 * np.abs(Y).max(), B=B, M=M, kind=kind)
    g = np.r_[0.0, np.sort(rng.rand(6)), 1.0]
    rows = np.unique(np.r_[0, B - 1, rng.randint(B, size=5)])
    ctx.in_oracle = True
    R = np.asarray(L.ut.interp1d(g, X, Y, kind))
    ctx.in_oracle = False
    ctx.check(R.shape == (B, len(g)), "not one row of values per curve", got=R.shape)
    for b in rows:
        j = np.searchsorted(X[b], g[1:-1], side="right") - 1
        x, y = X[b], Y[b]
        if kind == "previous":
            w = y[j]
        else:
            w = y[j] + (y[j + 1] - y[j]) * (g[1:-1] - x[j]) / (x[j + 1] - x[j])
        ctx.close(R[b, 1:-1], w, "wrong value in a large batch", rtol=1e-7, atol=1e-7 * np.abs(Y).max(), row=b, kind=kind)
    ctx.feature("large:" + kind, "B=%d M=%d" % (B, M))
    ctx.note("large", X[0, :3], B, M, kind)


@C20.scenario(60, 800)
def inside(ctx, rng):
    N = gen.pick(rng, [5, 12, 25])
    y, lp = boot_problem(rng, N)
    c = gen.pick(rng, ["roc_curve", "recall_precision_curve", "prg_curve"])
    ctx.call(L.cl.curve_boot, y, lp, 0.5, curve_f=getattr(L.pc, c), n_boot=8, x_grid=gen.pick(rng, [None, np.linspace(0, 1, 7), np.array([0.0, 1.0])]))
    ctx.note("inside", lp, c)


# ---------------------------------------------------------------------------
C21 = Prop(
    "C21",
    "labels x two-label predictions (label-0 column unrelated to label 1) x scalar/predictive references x ROC/PR/gain/synthetic curves x "
    "grids x replicate counts 1..300 x pairwise x confidence; every curve evaluation and weight matrix is recorded and the report "
    "recomputed from them; non-trivial when >= 2 points and the replicates differ",
    assumptions=["weights observed either where they are drawn or where the curve receives them", "pairwise gain areas that are both -inf: known finding, probed"],
)
C21.observe("boot_util.boot_weights", "classification.curve_boot")


def boot_problem(rng, N):
    y = gen.binary(rng, N)
    s = gen.scores(rng, N)
    s = np.where(np.abs(s) > 1e6, np.sign(s) * 1e6, s)
    if rng.rand() < 0.5:
        s = s + gen.pick(rng, [0.5, 1.0, 3.0]) * y * (np.std(s) + 0.1)
    c0 = gen.pick(rng, [rng.randn(N), -s, np.zeros(N), s[::-1].copy(), np.full(N, -INF)])
    lp = np.stack((c0, s), axis=1)
    y = y.astype(gen.pick(rng, [bool, np.int64, np.int32]))
    return y, lp


def synth_curve(y_true, y_score, sample_weight=None):
    """Not a standard curve: weighted label-dependent staircase with distinct
    values, so that any mix-up of weights, scores or labels shows."""
    o = np.argsort(y_score, kind="mergesort")
    w = np.ones((1, len(y_true))) if sample_weight is None else np.asarray(sample_weight, dtype=float)
    w = w[:, o]
    x = np.cumsum(w, axis=1)
    x = np.c_[np.zeros(len(w)), x / x[:, -1:]]
    x[:, -1] = 1.0
    v = np.where(y_true[o], 1.0, 0.3) + 0.1 * np.arctan(y_score[o])
    yy = np.c_[np.full(len(w), 0.2), np.cumsum(w * v[None, :], axis=1) / np.sum(w, axis=1, keepdims=True)]
    return (x, yy, "linear"), np.r_[np.inf, y_score[o]]


class Rec(object):
    """Recording wrapper of a curve function."""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, y_true, y_score, sample_weight=None):
        self.calls.append((np.array(y_true), np.array(y_score), None if sample_weight is None else np.array(sample_weight)))
        return self.f(y_true, y_score, sample_weight)


def batch_area(x, y, kind):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if kind == "linear":
        return np.sum(0.5 * (y[:, 1:] + y[:, :-1]) * np.diff(x, axis=1), axis=1)
    dx = np.diff(x, axis=1)
    with np.errstate(all="ignore"):
        t = np.where(dx == 0, 0.0, y[:, :-1] * dx)
    return np.sum(t, axis=1)


def batch_interp(grid, x, y, kind):
    x, y = np.asarray(x, float), np.asarray(y, float)
    R = [interp_bounds(grid, x[b], y[b], kind) for b in range(len(x))]
    return np.array([r[0] for r in R]), np.array([r[1] for r in R])


def order_stat(B, q, side):
    """[min, max] over admissible order statistics, per column."""
    out = [oracle.quantile_candidates(B[:, j], q, side) for j in range(B.shape[1])]
    return np.array([o[0] for o in out]), np.array([o[-1] for o in out])


def between(v, lo, hi, tol=1e-9):
    with np.errstate(all="ignore"):
        return bool(np.all(((v >= lo - tol) & (v <= hi + tol)) | (v == lo) | (v == hi)))


class Analysis(object):
    """Expected report of one curve analysis given one weight matrix."""

    def __init__(self, f, y, score, ref, W):
        yb = y.astype(bool)
        self.base = f(yb, score)[0]
        self.auc = float(batch_area(*self.base)[0])
        self.boot_curve = f(yb, score, W)[0]
        self.boot = batch_area(*self.boot_curve)
        if np.ndim(ref) == 0:
            self.ref, self.ref_boot = float(ref), float(ref)
        else:
            self.ref = float(batch_area(*f(yb, ref)[0])[0])
            self.ref_boot = batch_area(*f(yb, ref, W)[0])

    def undefined_difference(self):
        with np.errstate(invalid="ignore"):
            return bool(np.any(np.isnan(self.boot - self.ref_boot)) or np.isnan(self.auc - self.ref))

    def EB_ok(self, EB, pairwise, conf):
        with np.errstate(all="ignore"):
            b, e = (self.boot - self.ref_boot, self.auc - self.ref) if pairwise else (self.boot, self.auc)
        sc = 1e-9 * max(1.0, float(np.max(np.abs(np.where(np.isfinite(b), b, 0.0)))))
        c = oracle.boot_EB_candidates(b, e, conf)
        return any(EB == v or abs(EB - v) <= sc or (math.isnan(EB) and math.isnan(v)) for v in c)

    def p_ok(self, p):
        sc = 1e-12 * max(1.0, float(np.max(np.abs(np.where(np.isfinite(self.boot), self.boot, 0.0)))))
        lo, hi = oracle.boot_p_range(self.boot, self.ref_boot, sc)
        return lo - 1e-9 <= p <= hi + 1e-9

    def env_ok(self, grid, LB, UB, conf):
        lo, hi = batch_interp(grid, *self.boot_curve)
        al = 0.5 * (1 - conf)
        l0, _ = order_stat(lo, al, "lower")
        _, l1 = order_stat(hi, al, "lower")
        u0, _ = order_stat(lo, 1 - al, "higher")
        _, u1 = order_stat(hi, 1 - al, "higher")
        return between(LB, l0, l1) and between(UB, u0, u1)


def resample_weights(w, N):
    r = np.where(w <= 1e-6, 0.0, w)
    return w.shape[1] == N and np.all(w >= 0) and np.all(r == np.round(r)) and np.all(r.sum(axis=1) == N)


def weight_runs(ctx, calls):
    """Weight matrices seen by the curve function or drawn, also stitched
    together over consecutive evaluations (an analysis may work in blocks)."""
    mats, run, key = [], [], None
    for _, sc, w in calls:
        if w is None or w.ndim != 2:
            continue
        mats.append(w)
        k = (sc.tobytes(), w.shape[1])
        if k != key:
            run, key = [], k
        run.append(w)
        if len(run) > 1:
            mats.append(np.concatenate(run, axis=0))
    drawn = [np.asarray(e.result) for e in (ctx.log or []) if e.name == "boot_util.boot_weights" and e.error is None]
    mats += drawn
    if len(drawn) > 1 and len(set(w.shape[1] for w in drawn)) == 1:
        mats.append(np.concatenate(drawn, axis=0))
    return mats


def weight_candidates(ctx, calls, n_boot, N):
    out = []
    for w in weight_runs(ctx, calls):
        if w.ndim == 2 and w.shape == (n_boot + 1, N) and np.all(w[0] == 1):
            w = w[1:]  # the original sample carried along as replicate zero
        if w.ndim == 2 and w.shape == (n_boot, N) and not any(np.array_equal(w, o) for o in out):
            out.append(w)
    return out


def judge_replicate_count(ctx, calls, scores, count, p, **det):
    """Evaluations of one method used the requested number of replicates."""
    rows = [w.shape[0] for _, sc, w in calls if w is not None and w.ndim == 2 and np.array_equal(sc, scores)]
    if rows:
        ctx.check(sum(rows) >= count, "fewer bootstrap replicates than requested", got=rows[:5], want=count, **det)
    ctx.check(p == 1.0 or abs(p * count / 2 - round(p * count / 2)) < 1e-6, "p-value is not a tail fraction of the requested replicates", got=p, want=count, **det)


def judge_curve_frame(ctx, df, grid, an_base, **det):
    ctx.check(df.shape == (len(grid), 4), "curve frame is not grid x (x, value, lower, upper)", got=df, **det)
    ctx.check(list(df.columns) == list(L.co.CURVE_STATS), "curve frame columns misnamed", got=list(df.columns))
    V = df.values.astype(float)
    ctx.same(V[:, 0], np.asarray(grid, float), "curve frame is not on the requested grid", **det)
    lo, hi = batch_interp(np.asarray(grid, float), *an_base)
    ctx.check(between(V[:, 1], lo[0], hi[0]), "curve value is not the curve of the original data at the grid point", got=V[:, 1], want=(lo[0], hi[0]), **det)
    return V


def a_grid(rng):
    return gen.pick(rng, [None, np.linspace(0, 1, 11), np.array([0.0, 1.0]), np.array([0.5]), np.sort(rng.rand(6)), np.array([0.0, 0.25, 1.0 / 3, 0.5, 1.0]), np.linspace(0, 1, 37), np.array([0.0, 0.5, 0.5, 0.5, 1.0])])


CURVES = ["roc_curve", "recall_precision_curve", "prg_curve"]


@C21.scenario(450, 6000)
def analysis(ctx, rng):
    N = gen.size(rng, 40)
    y, lp = boot_problem(rng, N)
    name = gen.pick(rng, CURVES + ["synthetic"])
    raw = synth_curve if name == "synthetic" else getattr(L.pc, name)
    rk = rng.randint(5)
    if rk == 0:
        ref = float(gen.pick(rng, [0.5, 0.0, 1.0, 0.3]))
    elif rk == 1:
        ref = lp.copy()
    elif rk == 2:
        ref = lp + 0.01 * rng.randn(N, 2)
        ref[:, 0] = rng.randn(N)
    else:
        ref = np.stack((rng.randn(N), gen.scores(rng, N).clip(-1e6, 1e6)), axis=1)
    nb = int(gen.pick(rng, [1, 2, 10, 41, 60, 100, 200, 300, 300, 1001, 1300]))
    conf = gen.confidence(rng)
    pairwise = bool(rng.rand() < 0.5)
    grid = a_grid(rng)
    f = Rec(raw)
    kw = dict(curve_f=f, x_grid=grid, n_boot=nb, pairwise_CI=pairwise, confidence=conf)
    if not pairwise and rng.rand() < 0.3:
        kw.pop("pairwise_CI")
    if conf == 0.95 and rng.rand() < 0.5:
        kw.pop("confidence")
    if grid is None and rng.rand() < 0.5:
        kw.pop("x_grid")
    ctx.log = []
    det = dict(curve=name, y=y, lp=lp, ref=ref, n_boot=nb, pairwise=pairwise, confidence=conf)
    s1 = lp[:, 1]
    r1 = ref if np.ndim(ref) == 0 else ref[:, 1]
    try:
        (auc, EB, p), df = L.cl.curve_boot(y, lp, ref, **kw)
    except Exception as e:
        ctx.in_oracle = True
        ws = weight_candidates(ctx, f.calls, nb, N)
        und = any(Analysis(raw, y, s1, r1, W).undefined_difference() for W in ws)
        ctx.in_oracle = False
        if isinstance(e, AssertionError) and pairwise and und:
            ctx.known_finding("prg-inf-minus-inf")
            ctx.feature("known finding")
            return
        ctx.fail("curve analysis failed on valid input: %r" % e, **det)
    ctx.in_oracle = True
    try:
        g = np.linspace(0.0, 1.0, 100) if grid is None else grid
        calls = f.calls
        for cy, cs, cw in calls:
            ctx.check(np.array_equal(cy.astype(bool), y.astype(bool)), "curve evaluated with other labels", **det)
            ctx.check(np.array_equal(cs, s1) or (np.ndim(ref) == 2 and np.array_equal(cs, r1)), "curve evaluated on something other than the label-one predictions", got=cs, **det)
            if cw is not None:
                ctx.check(resample_weights(cw, N), "replicates are not resamples with replacement", got=cw[:2], **det)
        ws = weight_candidates(ctx, calls, nb, N)
        auc, EB, p = float(auc), float(EB), float(p)
        base = raw(y.astype(bool), s1)[0]
        V = judge_curve_frame(ctx, df, g, base, **det)
        ctx.close(auc, float(batch_area(*base)[0]), "reported area is not that of the original data", rtol=1e-10, atol=1e-12, **det)
        if not ws:
            if np.ndim(r1) == 0 or not np.array_equal(s1, r1):
                judge_replicate_count(ctx, calls, s1, nb, p, **det)
            ctx.feature("no weights observed")
        else:
            why = []
            for W in ws:
                an = Analysis(raw, y, s1, r1, W)
                bad = [n for n, ok in (("error bar", an.EB_ok(EB, pairwise, conf)), ("p-value", an.p_ok(p)), ("envelope", an.env_ok(np.asarray(g, float), V[:, 2], V[:, 3], conf))) if not ok]
                why.append(bad)
            ctx.check([] in why, "report does not follow from one shared set of replicates: %s" % "/".join(min(why, key=len)), got=(auc, EB, p), **det)
        ctx.check(0.0 <= p <= 1.0, "p-value out of range", got=p)
        with np.errstate(invalid="ignore"):
            ctx.check(bool(np.all(V[:, 2] <= V[:, 3])), "envelope upside down", got=V)
        if rk == 1:
            ctx.check(p == 1.0, "a method differs significantly from itself", got=p, **det)
            if pairwise:
                ctx.close(EB, 0.0, "pairwise error bar of a method against itself", atol=1e-12)
    finally:
        ctx.in_oracle = False
    ctx.feature(name, "scalar ref" if np.ndim(ref) == 0 else "method ref", "pairwise" if pairwise else "marginal", "n_boot=%d" % nb, "one class" if len(set(y.tolist())) == 1 else "two classes")
    if N >= 2:
        ctx.note(name, y, lp, ref, nb, conf, pairwise)
    ctx.sample(curve=name, N=N, n_boot=nb, pairwise=pairwise, report=(auc, EB, p))


@C21.scenario(6, 40)
def default_options(ctx, rng):
    """Defaults: ROC, 1000 replicates, 95%, marginal, 100 grid points."""
    N = gen.pick(rng, [8, 20])
    y, lp = boot_problem(rng, N)
    ctx.log = []
    (auc, EB, p), df = ctx.call(L.cl.curve_boot, y, lp, 0.5)
    ctx.in_oracle = True
    ws = [np.asarray(e.result) for e in ctx.log if e.name == "boot_util.boot_weights"]
    g = np.linspace(0, 1, 100)
    f = L.pc.roc_curve
    V = judge_curve_frame(ctx, df, g, f(y.astype(bool), lp[:, 1])[0])
    if ws:
        W = np.concatenate(ws, axis=0)
        an = Analysis(f, y, lp[:, 1], 0.5, W)
        ctx.check(len(W) == 1000, "not 1000 replicates by default", got=len(W))
        ctx.check(an.EB_ok(float(EB), False, 0.95) and an.p_ok(float(p)) and an.env_ok(g, V[:, 2], V[:, 3], 0.95), "default report does not follow from its replicates", got=(auc, EB, p))
    ctx.in_oracle = False
    ctx.note("default", y, lp)


@C21.scenario(40, 400)
def fair_replicates(ctx, rng):
    """The weights the curves receive are plain resamples: none is avoided,
    repeated or repaired, not even those that lose a whole class."""
    N = int(gen.pick(rng, [2, 3, 4, 5, 7]))
    nb = 3000
    y = np.zeros(N, dtype=bool)
    y[rng.permutation(N)[: gen.pick(rng, [1, 1, N - 1, max(1, N // 2)])]] = True
    s = rng.randn(N)
    f = Rec(getattr(L.pc, gen.pick(rng, ["roc_curve", "recall_precision_curve"])))
    ctx.call(L.cl.curve_boot, y, np.stack((rng.randn(N), s), axis=1), 0.5, curve_f=f, n_boot=nb, x_grid=np.array([0.0, 1.0]))
    ws = [w for _, _, w in f.calls if w is not None and w.ndim == 2 and w.shape[1] == N and np.any(w != 1)]
    if not ws:
        return ctx.feature("no weights observed")
    W = np.round(np.concatenate(ws, axis=0))
    n = float(len(W))

    def freq(what, hits, q):
        sd = math.sqrt(n * q * (1 - q)) + 1.0
        ctx.check(abs(np.sum(hits) - n * q) <= 6.5 * sd, "replicates are not plain resamples: %s" % what, got=np.sum(hits) / n, want=q, N=N, y=y)

    for what, sel in (("without a positive", y), ("without a negative", ~y)):
        freq(what, W[:, sel].sum(axis=1) == 0, (1.0 - sel.sum() / float(N)) ** N)
    for j in range(N):
        freq("point left out", W[:, j] == 0, (1.0 - 1.0 / N) ** N)
        freq("point drawn once", W[:, j] == 1, (1.0 - 1.0 / N) ** (N - 1))
    freq("every point once", np.all(W == 1, axis=1), math.factorial(N) / float(N) ** N)
    ctx.note("fair", y, s)


@C21.scenario(20, 200)
def curve_calibrated(ctx, rng):
    """Needs no observation of the weights: the error bar agrees with an
    independently drawn bootstrap."""
    N = 60
    y = rng.rand(N) < 0.5
    s = rng.randn(N) + y
    lp = np.stack((rng.randn(N), s), axis=1)
    conf = gen.pick(rng, [0.8, 0.9])
    (auc, EB, p), df = ctx.call(L.cl.curve_boot, y, lp, 0.5, n_boot=1500, confidence=conf)
    W = np.maximum(rng.multinomial(N, np.ones(N) / N, size=1500).astype(float), 1e-10)
    an = Analysis(getattr(L.pc.roc_curve, "__wrapped__", L.pc.roc_curve), y, s, 0.5, W)
    want = oracle.boot_EB_candidates(an.boot, an.auc, conf)[0]
    ctx.check(0.7 * want <= EB <= 1.4 * want, "error bar far from an independent bootstrap", got=EB, want=want)
    wp = oracle.boot_p(an.boot, 0.5)
    ctx.check(abs(p - wp) <= 0.06 + 0.5 * wp, "p-value far from an independent bootstrap", got=p, want=wp)
    ctx.note("calibrated", s)


# ---------------------------------------------------------------------------
C22 = Prop(
    "C22",
    "two-label prediction tables with 1..4 methods (names, order, row index, unnormalized) x curve dictionaries (standard, synthetic) x "
    "loss dictionaries x reference x options; curve evaluations, weights and losses recorded; non-trivial when >= 2 methods and >= 2 rows",
    assumptions=["pairwise gain areas that are both -inf are a known finding of C21 and avoided here"],
)
C22.observe("boot_util.boot_weights", "classification.curve_summary_table", "classification.summary_table")


def a_pred_table(rng, N, K=2):
    methods = gen.names(rng, min(14 if N <= 40 else 4, gen.n_methods(rng)))
    D = {}
    for m in methods:
        A = rng.randn(N, K) * gen.pick(rng, [0.5, 2.0])
        if rng.rand() < 0.3:
            A = np.round(A * 2) / 2.0 + 0.01 * np.arange(K)  # tied predictions between points
        A = A - np.log(np.sum(np.exp(A), axis=1, keepdims=True))
        if rng.rand() < 0.3:
            A = A + rng.randn(N, 1) * gen.pick(rng, [0.1, 3.0])
        D[m] = A
    if len(methods) > 1 and rng.rand() < 0.25:  # two methods that agree everywhere
        a, b = rng.permutation(len(methods))[:2]
        D[methods[b]] = D[methods[a]].copy()
    cols = pd.MultiIndex.from_product([methods, range(K)], names=["method", "label"])
    tbl = pd.DataFrame(np.concatenate([D[m] for m in methods], axis=1), index=gen.index(rng, N), columns=cols)
    return gen.sliced(rng, tbl), D, methods


def judge_curve_tables(ctx, tbl, dump, methods, cd, raws, y, D, ref, grid, nb, pairwise, conf, **det):
    N = len(y)
    calls = [c for f in cd.values() for c in f.calls]
    ws = weight_candidates(ctx, calls, nb, N)
    ctx.check(set(tbl.index) == set(methods) and len(tbl) == len(methods), "rows are not the methods", got=list(tbl.index), **det)
    ctx.check(set(tbl.columns) == set(itertools.product(cd, L.co.STD_STATS)), "columns are not curve x (mean, error, p)", got=list(tbl.columns), **det)
    ctx.check(tbl.index.name == "method" and list(tbl.columns.names) == ["metric", "stat"], "levels misnamed", got=(tbl.index.name, tbl.columns.names))
    ctx.check(set(dump) == set(itertools.product(methods, cd)), "curves are not dumped for every method and curve", got=list(dump), **det)
    g = np.linspace(0, 1, 100) if grid is None else grid
    for w in ws:
        ctx.check(resample_weights(w, N), "replicates are not resamples with replacement", got=w[:2], **det)
    for c in cd:
        f = raws[c]
        used = [w for w in weight_runs(ctx, cd[c].calls) if w.shape == (nb, N)]
        for m in methods:
            s1, r1 = D[m][:, 1], D[ref][:, 1]
            auc, EB, p = [float(tbl.loc[m, (c, st)]) for st in L.co.STD_STATS]
            base = f(y.astype(bool), s1)[0]
            ctx.close(auc, float(batch_area(*base)[0]), "area of %s/%s is not that of its predictions" % (m, c), rtol=1e-10, atol=1e-12, **det)
            V = judge_curve_frame(ctx, dump[(m, c)], g, base, method=m, curve=c, **det)
            cand, seen = [], set()
            for w in (used or [w for w in ws if np.all(w > 0)]):
                if w.tobytes() not in seen:
                    seen.add(w.tobytes())
                    cand.append(w)
            if m == ref:
                ctx.check(math.isnan(p), "reference method has a p-value", got=p, curve=c, **det)
                if pairwise:
                    ctx.check(math.isnan(EB), "reference method has a pairwise error bar", got=EB, **det)
            else:
                ctx.check(not math.isnan(p) and (auc == -INF or not math.isnan(EB)), "method lacks error bar or p-value", got=(EB, p), **det)
            why = []
            for W in cand:
                an = Analysis(f, y, s1, r1, W)
                bad = []
                if not (m == ref and pairwise) and not an.EB_ok(EB, pairwise, conf):
                    bad.append("error bar")
                if m != ref and not an.p_ok(p):
                    bad.append("p-value")
                if not an.env_ok(np.asarray(g, float), V[:, 2], V[:, 3], conf):
                    bad.append("envelope")
                why.append(bad)
                if not bad:
                    break
            if cand:
                ctx.check([] in why, "entry of %s/%s does not follow from one set of replicates: %s" % (m, c, "/".join(min(why, key=len))), got=(auc, EB, p), **det)
            else:
                if m != ref:
                    judge_replicate_count(ctx, cd[c].calls, s1, nb, p, **det)
                ctx.feature("no weights observed")


def curve_dict(rng, pairwise):
    pool = {"AUC": L.pc.roc_curve, "AP": L.pc.recall_precision_curve, "syn": synth_curve, "AUPRG": L.pc.prg_curve}
    names = [k for k in pool if not (pairwise and k == "AUPRG")]
    names = [names[i] for i in rng.permutation(len(names))[: rng.randint(1, len(names) + 1)]]
    if rng.rand() < 0.3:  # names say nothing about the curve
        odd = ["_c", "auc", "AUC_2", "AP ", "roc_curve", "x y", "mean", "p"]
        new = [odd[i] for i in rng.permutation(len(odd))[: len(names)]]
        new += ["AUC twin"] if rng.rand() < 0.3 else []
        raws = dict(zip(new, [pool[n] for n in names] + [pool[names[0]]]))
    else:
        raws = dict((n, pool[n]) for n in names)
    return dict((n, Rec(f)) for n, f in raws.items()), raws


def misplaced(y, lp):
    """A user's own bounded loss: probability given to the wrong labels."""
    return 1.0 - np.exp(np.asarray(lp)[np.arange(len(y)), np.asarray(y).astype(int)])


STD_LOSSES = {"NLL", "Brier", "sphere", "zero_one"}
LOSSES = {
    "mis_conf": misplaced,
    "NLL": lambda y, lp: oracle.log_loss(y, lp),
    "Brier": lambda y, lp: oracle.brier(y, lp),
    "sphere": lambda y, lp: oracle.spherical(y, lp),
    "zero_one": lambda y, lp: np.array([float(int(np.argmax(lp[n])) != int(y[n])) for n in range(len(y))]),
}
LIMITS = {"Brier": (0.0, 4.0), "zero_one": (0.0, 1.0), "NLL": (0.0, INF), "mis_conf": (0.0, 1.0)}


def some_limits(rng):
    """Ranges for some of the losses, tight or with room to spare."""
    lim = dict((k, v) for k, v in LIMITS.items() if rng.rand() < 0.5)
    for k, v in list(lim.items()):
        if rng.rand() < 0.2:
            lim[k] = (v[0] - 0.75, v[1])
    if rng.rand() < 0.3:
        lim["sphere"] = (-1.0, 4.0)
    return lim


def loss_dict(rng):
    pool = dict(NLL=L.cl.log_loss, Brier=L.cl.brier_loss, sphere=L.cl.spherical_loss, zero_one=L.cl.hard_loss, mis_conf=misplaced)
    names = [list(pool)[i] for i in rng.permutation(5)[: rng.randint(1, 5)]]
    return dict((n, pool[n]) for n in names)


@C22.scenario(160, 2200)
def tables(ctx, rng):
    from rvmon import p_stats

    N = gen.size(rng, 25)
    tbl, D, methods = a_pred_table(rng, N)
    y = gen.binary(rng, N).astype(gen.pick(rng, [bool, np.int64]))
    ref = gen.pick(rng, methods)
    pairwise = bool(rng.rand() < 0.5)
    conf = gen.confidence(rng)
    nb = int(gen.pick(rng, [1, 10, 41, 60]))
    if rng.rand() < 0.1 and N < 60:
        nb = int(gen.pick(rng, [999, 1001, 1300]))
    grid = a_grid(rng)
    cd, raws = curve_dict(rng, pairwise)
    kw = dict(x_grid=grid, n_boot=nb, pairwise_CI=pairwise, confidence=conf)
    det = dict(labels=y, table=tbl)
    ctx.log = []
    combined = rng.rand() < 0.6
    with np.errstate(invalid="ignore"):
        if not combined:
            out, dump = ctx.call(L.cl.curve_summary_table, tbl, y, cd, ref, **kw)
            curves_tbl = out
        else:
            ld = loss_dict(rng)
            method_EB = gen.pick(rng, ["t", "bernstein", "boot"])
            lim = some_limits(rng)
            out, dump = ctx.call(L.cl.summary_table, tbl, y, ld, cd, ref, method_EB=method_EB, limits=lim, **kw)
            ctx.check(set(out.columns) == set(itertools.product(list(ld) + list(cd), L.co.STD_STATS)), "columns are not losses and curves x (mean, error, p)", got=list(out.columns))
            ctx.check(list(out.columns.get_level_values(0)).index(next(iter(cd))) >= 3 * len(ld), "losses do not come first", got=list(out.columns))
            curves_tbl = out[[c for c in out.columns if c[0] in cd]]
            loss_part = out[[c for c in out.columns if c[0] in ld]]
        ctx.in_oracle = True
        try:
            judge_curve_tables(ctx, curves_tbl, dump, methods, cd, raws, y, D, ref, grid, nb, pairwise, conf, **det)
            if combined:
                LT = pd.DataFrame(
                    dict(((n, m), LOSSES[n](y, oracle.normalize(D[m]))) for n in ld for m in methods),
                    columns=pd.MultiIndex.from_product([list(ld), methods], names=["metric", "method"]),
                )
                p_stats.judge_summary(ctx, LT, ref, loss_part, pairwise, conf, method_EB, lim, [np.asarray(e.result) for e in ctx.log if e.name == "boot_util.boot_weights"], atol=1e-13)
                ctx.feature("combined", method_EB)
        finally:
            ctx.in_oracle = False
    ctx.feature("methods=%d" % len(methods), "pairwise" if pairwise else "marginal", *list(cd))
    if len(methods) >= 2 and N >= 2:
        ctx.note(tbl, y, ref, nb, pairwise, conf, sorted(cd))
    ctx.sample(methods=methods, ref=ref, curves=list(cd), N=N, row=out.iloc[0].to_dict())


@C22.scenario(20, 300)
def standard(ctx, rng):
    """The pre-built collections are the metrics they are named after."""
    N = gen.pick(rng, [6, 15])
    tbl, D, methods = a_pred_table(rng, N)
    y = (rng.rand(N) < 0.5).astype(int)
    y[0], y[1] = 0, 1
    ctx.check(set(L.cl.STD_CLASS_LOSS) == STD_LOSSES and set(L.cl.STD_BINARY_CURVES) == set(("AUC", "AP", "AUPRG")), "standard collections changed", got=(list(L.cl.STD_CLASS_LOSS), list(L.cl.STD_BINARY_CURVES)))
    ref = methods[0]
    out, dump = ctx.call(L.cl.summary_table, tbl, y, L.cl.STD_CLASS_LOSS, L.cl.STD_BINARY_CURVES, ref, n_boot=10)
    yb = y.astype(bool)
    for m in methods:
        lp = oracle.normalize(D[m])
        for n in sorted(STD_LOSSES):
            o = LOSSES[n]
            ctx.close(float(out.loc[m, (n, "mean")]), oracle.mean(o(y, lp)), "standard loss %s wrong" % n, rtol=1e-9, atol=1e-9)
        s = D[m][:, 1]
        ctx.close(float(out.loc[m, ("AUC", "mean")]), oracle.mann_whitney(yb, s), "AUC wrong", atol=1e-10)
        _, rec, prec = oracle.pr(yb, s)
        ctx.close(float(out.loc[m, ("AP", "mean")]), step_area(rec, prec), "AP wrong", atol=1e-10)
        _, rg, pg = oracle.prg(yb, s)
        ctx.close(float(out.loc[m, ("AUPRG", "mean")]), oracle.area_step(rg, pg), "AUPRG wrong", rtol=1e-9, atol=1e-9)
    ctx.note("std", tbl, y)
