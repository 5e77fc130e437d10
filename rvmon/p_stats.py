"""C09-C15: inference on a mean and the loss summary table."""
import itertools
import math

import numpy as np
import pandas as pd

from rvmon import gen, oracle
from rvmon.core import L, Prop, close

INF = np.inf


def sample(rng, N=None, limits=False):
    N = gen.size(rng, 150, vast=0.004) if N is None else N
    if not limits:
        x = gen.losses(rng, N)
        k = rng.randint(8)
        if k == 0:
            x = x - x.mean()
        elif k == 1:
            x = x * 10.0 ** rng.randint(-12, 13)
        elif k == 2:
            x = x + gen.pick(rng, [10.0, -3.0])
        elif k == 3:
            x = np.sign(rng.randn(N)) * 1.0
        elif k == 4:
            x = rng.randint(-2, 3, size=N)
        return x
    lower, upper = gen.pick(rng, [(0.0, 1.0), (-1.0, 1.0), (0.0, INF), (-INF, INF), (-INF, 2.0), (0.0, 0.7), (-0.3, 5.0), (0.25, 0.25), (0.0, 1e-3), (0.0, 4e6), (1.0, 2.0), (5.0, 6.0), (10.0, 12.0), (100.0, 101.0), (-3.0, -1.0), (0.5, INF)])
    return gen.losses(rng, N, lower, upper), lower, upper


# ---------------------------------------------------------------------------
C09 = Prop(
    "C09",
    "samples of size 1..150 (normal, heavy tailed, binary, constant, zero, tiny/huge scale, integers, lists, infinities) x confidence "
    "levels 0.01..0.999; non-trivial when the sample is finite, has >= 2 points and positive spread",
    assumptions=["scipy.special Student-t distribution functions", "p-values of numerically constant non-zero samples only checked against [0,1e-6]"],
)


def judge_t_EB(ctx, x, conf, got):
    x = list(np.asarray(x).tolist())
    want = oracle.t_EB(x, conf)
    ok = np.ndim(got) == 0 and (got == want or abs(got - want) <= 1e-7 * want + 1e-13 * oracle.scale_of(x))
    if not ok:
        ctx.record("t error bar is not the Student-t half width", x=np.asarray(x), confidence=conf, got=got, want=want)


def judge_t_p(ctx, x, got):
    x = list(np.asarray(x).tolist())
    want = oracle.t_p(x)
    if len(x) > 1 and oracle.finite(x) and oracle.degenerate(x):
        ok = (0.0 <= got <= 1e-6) if oracle.scale_of(x) > 0 and abs(oracle.mean(x)) > 1e-3 * oracle.scale_of(x) else (0.0 <= got <= 1.0)
        if oracle.scale_of(x) == 0:
            ok = got == 1.0
    else:
        good = len(x) > 1 and oracle.finite(x) and np.std(x) > 1e-3 * oracle.scale_of(x) and abs(np.mean(x)) > 1e-3 * oracle.scale_of(x)
        ok = 0.0 <= got <= 1.0 and abs(got - want) <= (1e-6 * want + 1e-290 if good else 1e-7 * want + 1e-12)
    if not ok:
        ctx.record("t p-value is not the two-sided one-sample p-value", x=np.asarray(x), got=got, want=want)


@C09.hook("mlpaper.t_EB")
def _tEB(ctx, ev):
    judge_t_EB(ctx, ev.arg(0, "x"), ev.arg(1, "confidence", 0.95), ev.result)


@C09.hook("mlpaper.t_test")
def _tp(ctx, ev):
    judge_t_p(ctx, ev.arg(0, "x"), ev.result)


@C09.scenario(2500, 50000)
def t_single(ctx, rng):
    x = sample(rng)
    conf = gen.confidence(rng)
    if rng.rand() < 0.06 and len(x) > 1:
        x = x.astype(float)
        x[rng.randint(len(x))] = gen.pick(rng, [INF, -INF])
    if rng.rand() < 0.08:
        x = np.zeros(len(x))
    ctx.feature("N=%s" % (len(x) if len(x) < 4 else "4+"), "dtype=" + x.dtype.kind)
    arg = x.tolist() if rng.rand() < 0.1 else x
    EB = ctx.call(L.mm.t_EB, arg, conf) if rng.rand() < 0.5 else ctx.call(L.mm.t_EB, arg, confidence=conf)
    if rng.rand() < 0.3:
        ctx.call(L.mm.t_EB, arg)
    p = ctx.call(L.mm.t_test, arg)
    if len(x) > 1 and np.all(np.isfinite(x)) and not oracle.degenerate(x):
        m = abs(oracle.mean(x))
        if abs(m - EB) > 1e-6 * (m + EB) and abs(p - (1 - conf)) > 1e-9:
            ctx.check((p < 1 - conf) == (m > EB), "test and interval disagree about zero", x=x, confidence=conf, EB=EB, p=p)
        # symmetry, scale and translation
        ctx.close(ctx.call(L.mm.t_test, -x), p, "p-value depends on the sign", rtol=1e-7)
        ctx.close(ctx.call(L.mm.t_test, x * 4.0), p, "p-value depends on the scale", rtol=1e-6)
        ctx.close(ctx.call(L.mm.t_EB, x * 4.0, conf), 4.0 * EB, "error bar not scale equivariant", rtol=1e-7)
        ctx.check(ctx.call(L.mm.t_EB, x, 1.0 - 0.97 * (1.0 - conf)) >= EB, "higher confidence gives a shorter error bar", x=x)
        ctx.note(np.asarray(x, dtype=float), conf)
    ctx.sample(x=x[:6], confidence=conf, EB=EB, p=p)


@C09.scenario(150, 2500)
def t_inside(ctx, rng):
    """The same oracle on calls made by the summary table."""
    tbl, ref, lim = loss_tbl(rng, inf_ok=True)
    with np.errstate(invalid="ignore"):
        ctx.call(L.mm.loss_summary_table, tbl, ref, pairwise_CI=bool(rng.rand() < 0.5), confidence=gen.confidence(rng), method_EB="t")
    ctx.note(tbl, ref)


# ---------------------------------------------------------------------------
C10 = Prop(
    "C10",
    "samples within limits (finite, one-sided, infinite, zero range) of size 1..150 x confidence levels; non-trivial "
    "when the range is positive and finite, and the sample has >= 2 points and non-zero mean",
)


def judge_b_EB(ctx, x, lower, upper, conf, got):
    want = oracle.bern_EB(list(np.asarray(x).tolist()), lower, upper, conf)
    if not (got == want or abs(got - want) <= 1e-8 * want + 1e-13 * oracle.scale_of(x)):
        ctx.record("not the empirical Bernstein error bar", x=x, limits=(lower, upper), confidence=conf, got=got, want=want)


def judge_b_p(ctx, x, lower, upper, got):
    want = oracle.bern_p(list(np.asarray(x).tolist()), lower, upper)
    # rounding of the moments is amplified by the exponent
    xs = np.asarray(x, dtype=float)
    good = len(xs) > 1 and oracle.finite(list(xs)) and np.std(xs) > 1e-3 * np.max(np.abs(xs)) and abs(np.mean(xs)) > 1e-3 * np.max(np.abs(xs))
    tol = 1e-6 * want + (1e-290 if good else 1e-12)
    if not (0.0 <= got <= 1.0 and abs(got - want) <= tol):
        ctx.record("not the p-value of the empirical Bernstein bound", x=x, limits=(lower, upper), got=got, want=want)


@C10.hook("mlpaper.bernstein_EB")
def _bEB(ctx, ev):
    judge_b_EB(ctx, ev.arg(0, "x"), float(ev.arg(1, "lower")), float(ev.arg(2, "upper")), ev.arg(3, "confidence", 0.95), ev.result)


@C10.hook("mlpaper.bernstein_test")
def _bp(ctx, ev):
    judge_b_p(ctx, ev.arg(0, "x"), float(ev.arg(1, "lower")), float(ev.arg(2, "upper")), ev.result)


@C10.scenario(2500, 50000)
def bern(ctx, rng):
    x, lower, upper = sample(rng, limits=True)
    conf = gen.confidence(rng)
    if rng.rand() < 0.06 and upper == INF:
        x[rng.randint(len(x))] = INF
    EB = ctx.call(L.mm.bernstein_EB, x, lower, upper, conf) if rng.rand() < 0.7 else ctx.call(L.mm.bernstein_EB, x, lower, upper, confidence=conf)
    if rng.rand() < 0.3:
        ctx.call(L.mm.bernstein_EB, x, lower, upper)
    p = ctx.call(L.mm.bernstein_test, x, lower, upper)
    ctx.feature("limits=(%g,%g)" % (lower, upper), "N=%s" % (len(x) if len(x) < 4 else "4+"))
    if len(x) > 1 and np.all(np.isfinite(x)) and 0 < upper - lower < INF and p < 1.0 and p > 1e-300:
        c = 1.0 - p
        if 0.0 < c < 1.0 - 1e-9:
            ctx.close(ctx.call(L.mm.bernstein_EB, x, lower, upper, c), abs(oracle.mean(x)), "zero is not on the edge of the interval at confidence 1 - p", rtol=1e-5, x=x, p=p)
        ctx.note(x, lower, upper, conf)
    if len(x) > 1:
        ctx.check(ctx.call(L.mm.bernstein_EB, x, lower, upper, 1.0 - 0.97 * (1.0 - conf)) >= EB, "higher confidence gives a shorter error bar", x=x)
    bad = np.array(x, dtype=float)
    if upper < INF:
        bad[rng.randint(len(x))] = upper + 0.5
    elif lower > -INF:
        bad[rng.randint(len(x))] = lower - 0.5
    else:
        bad = None
    if bad is not None:
        ctx.rejects(L.mm.bernstein_EB, "value outside the limits", bad, lower, upper)
        ctx.rejects(L.mm.bernstein_test, "value outside the limits", bad, lower, upper)
    ctx.sample(x=x[:6], limits=(lower, upper), confidence=conf, EB=EB, p=p)


@C10.scenario(120, 2000)
def bern_inside(ctx, rng):
    tbl, ref, lim = loss_tbl(rng, limits=True)
    ctx.call(L.mm.loss_summary_table, tbl, ref, pairwise_CI=bool(rng.rand() < 0.5), confidence=gen.confidence(rng), method_EB="bernstein", limits=lim)
    ctx.note(tbl, ref)


# ---------------------------------------------------------------------------
C11 = Prop(
    "C11",
    "samples of size 1..60 x confidence x replicate counts 1..1000; the resampling weights drawn during each call are observed and "
    "the error bar and p-value recomputed from them; non-trivial when finite with >= 2 points and positive spread",
    assumptions=["when no weight matrix of the right shape is observed the check falls back to statistical bounds"],
)


class Weights(object):
    """Records every weight matrix drawn while active."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.old = self.ctx.log
        self.ctx.log = []
        return self

    def __exit__(self, *a):
        self.events = [e for e in self.ctx.log if e.name == "boot_util.boot_weights" and e.error is None]
        self.ctx.log = self.old
        self.w = [np.asarray(e.result) for e in self.events]


def weights_ok(w, N):
    return w.ndim == 2 and w.shape[1] == N and np.all(w >= 0) and np.all(w == np.round(w)) and np.all(w.sum(axis=1) == N)


def boot_means(x, w):
    return (np.asarray(w, dtype=float) @ np.asarray(x, dtype=float)) / w.shape[1]


def EB_match(x, w, conf, got):
    b, m = boot_means(x, w), oracle.mean(x)
    tol = 1e-9 * (oracle.scale_of(x)) + 1e-300
    return any(abs(got - c) <= tol for c in oracle.boot_EB_candidates(b, m, conf))


def p_match(x, w, got):
    b = boot_means(x, w)
    tol = 1e-12 * oracle.scale_of(x)
    lo, hi = oracle.boot_p_range(b, 0.0, tol)
    return lo - 1e-9 <= got <= hi + 1e-9


def reference_boot(x, n=20000):
    """Bootstrap means drawn by the monitor itself, from its own generator."""
    r = np.random.RandomState(len(x) * 7919 + 13)
    x = np.asarray(x, dtype=float)
    step = max(1, 2000000 // len(x))
    return np.concatenate([x[r.randint(len(x), size=(min(step, n - i), len(x)))].mean(axis=1) for i in range(0, n, step)])


def stat_EB_ok(x, conf, got, nb):
    """Is the error bar one that nb resamples could give? Used when the
    weights were not observable: against an independent bootstrap."""
    b, m = np.sort(reference_boot(x)), oracle.mean(x)
    tol = 1e-9 * oracle.scale_of(x) + 1e-300
    al = 0.5 * (1.0 - conf)
    d = 6 * math.sqrt(al * (1 - al) * (1.0 / nb + 1.0 / len(b))) + 12.0 / nb

    def q(p):
        if p <= 0 or p >= 1:
            return np.min(x) if p <= 0 else np.max(x)
        return b[min(len(b) - 1, int(p * len(b)))]

    def width(a):
        return max(q(1 - a) - m, m - q(a))

    return width(al + d) - tol <= got <= width(al - d) + tol if al + d < 0.5 else 0.0 <= got <= width(al - d) + tol


def stat_p_ok(x, got, nb):
    b = reference_boot(x)
    tol = 1e-12 * oracle.scale_of(x)
    lo, hi = oracle.boot_p_range(b, 0.0, tol)

    def margin(p):
        t = 0.5 * p
        return 2 * (6 * math.sqrt(t * (1 - t) * (1.0 / nb + 1.0 / len(b))) + 12.0 / nb)

    return lo - margin(lo) <= got <= hi + margin(hi)


def boot_bounds(ctx, x, EB, p):
    """What holds for every resample: a resampled mean lies within the range
    of the sample."""
    sc = oracle.scale_of(x)
    reach = max(np.max(x) - oracle.mean(x), oracle.mean(x) - np.min(x))
    ctx.check(0.0 <= EB <= reach + 1e-9 * sc, "bootstrap error bar reaches past the sample", x=x, got=EB, want=reach)
    if np.min(x) > 1e-12 * sc or np.max(x) < -1e-12 * sc:
        ctx.check(p == 0.0, "bootstrap p-value positive for a sample on one side of zero", x=x, got=p)


C11.observe("boot_util.boot_weights", "mlpaper.boot_EB", "mlpaper.boot_test", "mlpaper.get_mean_EB_test")


@C11.scenario(700, 12000)
def boot_mean(ctx, rng):
    x = sample(rng, N=gen.size(rng, 60, vast=0.004)).astype(float)
    if rng.rand() < 0.05:
        x[rng.randint(len(x))] = gen.pick(rng, [INF, -INF])
    conf = gen.confidence(rng)
    nb = gen.pick(rng, [1, 2, 7, 41, 100, 200, 999, 1000, 1001, 2500])
    if len(x) <= 12 and rng.rand() < 0.06:
        nb = int(gen.pick(rng, [4097, 10001, 20000]))
    trivial = len(x) <= 1 or not np.all(np.isfinite(x))
    ctx.feature("n_boot=%d" % nb, "trivial" if trivial else "regular")
    kwE = dict(confidence=conf, n_boot=nb)
    if nb == 1000 and rng.rand() < 0.5:
        kwE.pop("n_boot")
    with Weights(ctx) as we:
        EB = ctx.call(L.mm.boot_EB, x, **kwE)
    with Weights(ctx) as wp:
        p = ctx.call(L.mm.boot_test, x, n_boot=nb)
    with Weights(ctx) as wj:
        mu, EBj, pj = ctx.call(L.mm.get_mean_EB_test, x, confidence=conf, method="boot")
    ctx.close(mu, oracle.mean(x), "reported mean is not the sample mean", rtol=1e-9, atol=1e-12 * oracle.scale_of(x))
    if trivial:
        ctx.check(EB == INF and EBj == INF, "error bar of a degenerate sample is not infinite", x=x, got=(EB, EBj))
        ctx.check(p == 1.0 and pj == 1.0, "p-value of a degenerate sample is not one", x=x, got=(p, pj))
        return
    for name, W, n, val, match in (
        ("error bar", we, nb, EB, lambda w: EB_match(x, w, conf, EB)),
        ("p-value", wp, nb, p, lambda w: p_match(x, w, p)),
        ("joint report", wj, None, (EBj, pj), lambda w: EB_match(x, w, conf, EBj) and p_match(x, w, pj)),
    ):
        wide = [w for w in W.w if w.ndim == 2 and w.shape[1] == len(x)]
        ws = [w for w in wide if n is None or w.shape[0] == n]
        if name == "p-value":
            ctx.check(p == 1.0 or abs(p * n / 2 - round(p * n / 2)) < 1e-6, "p-value is not a tail fraction of the requested replicates", got=p, n_boot=n)
        if not ws and wide:
            ctx.check(sum(len(w) for w in wide) >= n, "fewer replicates than requested", n_boot=n, got=[w.shape for w in wide])
            if sum(len(w) for w in wide) == n:  # drawn in parts
                ws = [np.concatenate(wide)]
        if not ws:
            ctx.feature("statistical fallback")
            if name == "error bar" and nb >= 100:
                ctx.check(stat_EB_ok(x, conf, EB, nb), "bootstrap error bar implausible", x=x, got=EB)
            if name == "p-value" and nb >= 100:
                ctx.check(stat_p_ok(x, p, nb), "bootstrap p-value implausible", x=x, got=p)
            if name == "joint report":
                ctx.check(stat_EB_ok(x, conf, EBj, 1000) and stat_p_ok(x, pj, 1000), "bootstrap report implausible", x=x, got=(EBj, pj))
            continue
        ctx.check(any(weights_ok(w, len(x)) for w in ws), "replicates are not resamples with replacement", weights=ws[0][:2])
        ctx.check(any(match(w) for w in ws), "bootstrap %s does not follow from its replicates" % name, x=x, confidence=conf, got=val, n_boot=n)
    ctx.check(0.0 <= p <= 1.0 and EB >= 0.0, "p-value or error bar out of range", got=(p, EB))
    boot_bounds(ctx, x, EB, p)
    boot_bounds(ctx, x, EBj, pj)
    if np.ptp(x) > 0:
        ctx.note(x, conf, nb)
    ctx.sample(x=x[:6], confidence=conf, n_boot=nb, EB=EB, p=p)


@C11.scenario(60, 600)
def boot_calibrated(ctx, rng):
    """On well behaved samples the bootstrap agrees with normal theory, which
    needs no knowledge of the replicates."""
    from scipy.stats import norm

    N = gen.pick(rng, [60, 120])
    x = rng.rand(N) + rng.randn(N) * 0.3
    conf = gen.pick(rng, [0.8, 0.9, 0.95])
    EB = ctx.call(L.mm.boot_EB, x, conf, 4000)
    se = math.sqrt(oracle.var(x, 0) / N)
    z = norm.ppf(0.5 + conf / 2)
    ctx.check(0.8 * z * se <= EB <= 1.4 * z * se, "bootstrap error bar far from normal theory", got=EB, want=z * se, confidence=conf)
    shift = gen.pick(rng, [0.0, 1.0, 2.0])
    xx = x - x.mean() + shift * se
    p = ctx.call(L.mm.boot_test, xx, 4000)
    want = 2 * norm.cdf(-shift)
    ctx.check(abs(p - want) <= 0.12 + 0.3 * want, "bootstrap p-value far from normal theory", got=p, want=want)
    ctx.note(x, conf)


# ---------------------------------------------------------------------------
C12 = Prop(
    "C12",
    "bootstrap arrays of 1..1001 replicates (ties, constants, infinities, trailing dimensions) x confidence x scalar and paired "
    "references placed on, between and outside the replicates; non-trivial when the replicates are not constant",
    assumptions=["when tail quantile times (n-1) is an integer up to rounding either adjacent order statistic is accepted"],
)


def _boots(rng):
    n = gen.pick(rng, [1, 2, 3, 5, 10, 21, 40, 41, 100, 200, 399, 1000, 1001])
    if rng.rand() < 0.02:
        n = int(gen.pick(rng, [2048, 4097, 5003, 9999, 10007, 20011]))
    k = rng.randint(7)
    if k == 0:
        b = rng.randn(n)
    elif k == 1:
        b = rng.randint(4, size=n).astype(float)
    elif k == 2:
        b = np.full(n, 0.3)
    elif k == 3:
        b = rng.randn(n) * 1e-9 + 1.0
    elif k == 4:
        b = np.exp(3 * rng.randn(n))
    elif k == 5:
        b = rng.randn(n)
        b[rng.rand(n) < gen.pick(rng, [0.01, 0.3])] = -INF
    else:
        b = rng.permutation(n).astype(float)
    return b


def judge_percentile(ctx, B, conf, LB, UB):
    B = np.asarray(B, dtype=float)
    LB, UB = np.asarray(LB, dtype=float), np.asarray(UB, dtype=float)
    if LB.shape != B.shape[1:] or UB.shape != B.shape[1:]:
        return ctx.record("interval has the wrong shape", got=(LB.shape, UB.shape), want=B.shape[1:])
    al = 0.5 * (1.0 - conf)
    flat = B.reshape(B.shape[0], -1)
    l, u = LB.ravel(), UB.ravel()
    for j in range(flat.shape[1]):
        cl = oracle.quantile_candidates(flat[:, j], al, "lower")
        cu = oracle.quantile_candidates(flat[:, j], 1.0 - al, "higher")
        if not any(l[j] == c for c in cl) or not any(u[j] == c for c in cu):
            return ctx.record("interval is not the outer order statistics at the tail quantiles", replicates=np.sort(flat[:, j]), confidence=conf, got=(l[j], u[j]), want=(cl, cu))


@C12.hook("boot_util.percentile")
def _perc(ctx, ev):
    B = np.asarray(ev.arg(0, "boot_estimates"))
    LB, UB = ev.result
    judge_percentile(ctx, B, ev.arg(1, "confidence", 0.95), LB, UB)


@C12.hook("boot_util.error_bar")
def _eb(ctx, ev):
    B, e, c = ev.arg(0, "boot_estimates"), float(ev.arg(1, "original_estimate")), ev.arg(2, "confidence", 0.95)
    got = float(ev.result)
    cands = oracle.boot_EB_candidates(B, e, c)
    sc = max(abs(e), oracle.scale_of(B)) if math.isfinite(e) else 0.0
    if not any(got == w or (math.isnan(got) and math.isnan(w)) or abs(got - w) <= 1e-12 * sc for w in cands):
        ctx.record("error bar does not just cover the percentile interval", replicates=np.sort(B), estimate=e, confidence=c, got=got, want=cands)


@C12.hook("boot_util.significance")
def _sig(ctx, ev):
    B, ref = np.asarray(ev.arg(0, "boot_estimates")), np.asarray(ev.arg(1, "ref"))
    want = oracle.boot_p(B, ref)
    if not abs(float(ev.result) - want) <= 1e-12:
        ctx.record("p-value is not twice the smaller tail fraction including ties", replicates=B, ref=ref, got=ev.result, want=want)


@C12.hook("boot_util.basic")
def _basic(ctx, ev):
    B, e, c = np.asarray(ev.arg(0, "boot_estimates")), np.asarray(ev.arg(1, "original_estimate")), ev.arg(2, "confidence", 0.95)
    lo, hi = ev.result
    judge_percentile_close(ctx, B, e, c, np.asarray(lo), np.asarray(hi))


def judge_percentile_close(ctx, B, e, conf, lo, hi):
    al = 0.5 * (1.0 - conf)
    B = np.asarray(B, float)
    if lo.shape != B.shape[1:] or hi.shape != B.shape[1:]:
        return ctx.record("interval has the wrong shape", got=(lo.shape, hi.shape))
    flat, ef, l, h = B.reshape(B.shape[0], -1), np.asarray(e, float).ravel(), lo.ravel(), hi.ravel()
    for j in range(flat.shape[1]):
        cl = oracle.quantile_candidates(flat[:, j], al, "lower")
        cu = oracle.quantile_candidates(flat[:, j], 1.0 - al, "higher")
        ok = lambda g, cs: any(close(g, 2 * ef[j] - c, 1e-11, 1e-13) for c in cs)
        if not ok(l[j], cu) or not ok(h[j], cl):
            return ctx.record("basic interval is not the mirrored percentile interval", replicates=np.sort(flat[:, j]), estimate=ef[j], confidence=conf, got=(l[j], h[j]))


@C12.hook("boot_util.confidence_to_percentiles")
def _c2p(ctx, ev):
    c = ev.arg(0, "confidence")
    lo, hi = ev.result
    if not (close(lo, 50.0 * (1 - c), 1e-9, 1e-12) and close(hi, 100.0 - 50.0 * (1 - c), 1e-12, 1e-12)):
        ctx.record("tail percentiles wrong", confidence=c, got=(lo, hi))


@C12.scenario(2000, 40000)
def intervals(ctx, rng):
    b = _boots(rng)
    n = len(b)
    conf = gen.confidence(rng)
    if rng.rand() < 0.2:
        conf = gen.pick(rng, [1 - 2.0 / (n + 1), 1 - 2.0 / n if n > 2 else 0.5, 0.95])
        conf = float(min(max(conf, 0.01), 0.999))
    extra = gen.pick(rng, [(), (), (3,), (2, 2), (1,)])
    B = b if extra == () else np.stack([_mixed(rng, n) for _ in range(int(np.prod(extra)))], axis=1).reshape((n,) + extra)
    LB, UB = ctx.call(L.bu.percentile, B, conf)
    ctx.check(np.all(LB <= UB), "interval is reversed", got=(LB, UB))
    est = np.zeros(extra) + rng.randn(*extra) if extra else float(rng.randn())
    if np.all(np.isfinite(B)):
        lo, hi = ctx.call(L.bu.basic, B, est, conf)
    est1 = gen.pick(rng, [float(np.median(b)) if np.all(np.isfinite(b)) else 0.0, 0.0, float(b[0]) if np.isfinite(b[0]) else 0.0, 5.0, -5.0])
    EB = ctx.call(L.bu.error_bar, b, est1, conf)
    ctx.check(EB >= 0, "negative error bar", got=EB)
    l1, u1 = ctx.call(L.bu.percentile, b, confidence=conf)
    if rng.rand() < 0.3:
        ctx.call(L.bu.percentile, b)
        ctx.call(L.bu.error_bar, b, est1)
    ctx.call(L.bu.confidence_to_percentiles, conf)
    if EB < INF:
        t = 1e-9 * max(1.0, oracle.scale_of(b), abs(est1))
        ctx.check(est1 - EB <= l1 + t and u1 <= est1 + EB + t, "error bar does not cover the percentile interval", EB=EB, est=est1, interval=(l1, u1))
    fin = np.sort(b[np.isfinite(b)])
    for ref in [0.0, float(gen.pick(rng, fin)) if len(fin) else 0.0, float(fin.min()) - 1 if len(fin) else 1.0, float(fin[0]) if len(fin) else 2.0, float(np.mean(fin[-2:])) if len(fin) else 0.5]:
        p = ctx.call(L.bu.significance, b, ref)
        ctx.check(0.0 <= p <= 1.0, "p-value outside [0,1]", got=p)
        if p >= (1 - conf) + 1e-9:
            ctx.check(l1 <= ref <= u1, "reference not rejected by the test lies outside the interval", replicates=np.sort(b), ref=ref, p=p, confidence=conf, interval=(l1, u1))
    rv = rng.permutation(b) if rng.rand() < 0.5 else rng.randn(n)
    p = ctx.call(L.bu.significance, b, rv)
    ctx.check(close(p, ctx.call(L.bu.significance, rv, b), 0, 1e-12), "paired test not symmetric", got=p)
    ctx.feature("n=%d" % n, "extra dims %d" % len(extra))
    if np.any(b != b[0]):
        ctx.note(b, conf, extra)
    ctx.sample(n=n, confidence=conf, interval=(l1, u1), estimate=est1, EB=EB)


def _mixed(rng, n):
    return gen.pick(rng, [rng.randn(n), rng.randint(3, size=n).astype(float), np.ones(n), rng.rand(n) * 1e6])


# ---------------------------------------------------------------------------
C13 = Prop(
    "C13",
    "all data sizes 1..60 and replicate counts 1..500 with several minimum weights, pooled moments per size, reproducibility, plus "
    "weights drawn inside the analyses; non-trivial when N >= 2",
    assumptions=["statistical comparisons at about 7 standard errors"],
)


@C13.hook("boot_util.boot_weights")
def _bw(ctx, ev):
    N, nb, eps = ev.arg(0, "N"), ev.arg(1, "n_boot"), ev.arg(2, "epsilon", 0)
    w = np.asarray(ev.result)
    if w.shape != (nb, N):
        return ctx.record("weights are not replicates x points", got=w.shape, want=(nb, N))
    if eps < 1e-3 or eps == 0:
        c = np.where(w <= eps, 0, w)
        ok = np.all(w >= eps) and np.all(c == np.round(c)) and np.all(c.sum(axis=1) == N)
        ok = ok and (eps == 0 or np.all((c > 0) | (w == eps)))
    else:
        k = np.where(w > eps, w, 0)
        ok = np.all(w >= eps) and np.all(k == np.round(k)) and np.all(k.sum(axis=1) <= N)
    if not ok:
        ctx.record("weights are not resampling counts of %d points" % N, epsilon=eps, got=w[:3], sums=w.sum(axis=1)[:5])
    if eps == 0 and w.dtype.kind not in "iuf":
        ctx.record("weights are not numbers", got=w.dtype)


@C13.scenario(600, 8000)
def shapes(ctx, rng):
    N = gen.size(rng, 60, vast=0.01)
    nb = gen.pick(rng, [1, 2, 3, 50, 500, 1001, 2100])
    eps = gen.pick(rng, [0, 0, 1e-10, 1e-6, 0.5, 1, 2])
    kw = {} if eps == 0 and rng.rand() < 0.5 else dict(epsilon=eps)
    s = int(rng.randint(2 ** 31))
    np.random.seed(s)
    w = np.asarray(ctx.call(L.bu.boot_weights, N, nb, **kw))
    w_next = np.asarray(ctx.call(L.bu.boot_weights, N, nb, **kw))
    np.random.seed(s)
    w2 = np.asarray(ctx.call(L.bu.boot_weights, N, nb, **kw))
    ctx.same(w2, w, "weights not reproducible from the seed")
    if N >= 20 and nb >= 3 and eps < 1:
        ctx.check(not np.array_equal(w, w_next), "consecutive draws are identical")
        ctx.check(len(set(map(tuple, w.tolist()))) == nb, "replicates repeat within a draw", N=N, n_boot=nb)
    if eps == 0:
        with_eps = None
        np.random.seed(s)
        with_eps = np.asarray(ctx.call(L.bu.boot_weights, N, nb, epsilon=1e-10))
        ctx.close(with_eps, np.maximum(w, 1e-10), "minimum weight changes more than the zeros", rtol=0, atol=0)
    ctx.feature("eps=%g" % eps, "n_boot=%d" % nb)
    if N >= 2:
        ctx.note(N, nb, eps, s)


@C13.scenario(48, 400)
def moments(ctx, rng):
    """Mean 1, var 1-1/N, cov -1/N, P(0)=(1-1/N)^N for every point; rows
    uncorrelated; each with a 7 sigma band."""
    N = [2, 3, 4, 5, 8, 13, 20, 40][ctx.index % 8]
    nb = 20000
    w = np.asarray(ctx.call(L.bu.boot_weights, N, nb)).astype(float)
    z = 7.0
    m = w.mean(axis=0)
    v = 1.0 - 1.0 / N
    ctx.check(np.all(np.abs(m - 1.0) <= z * math.sqrt(v / nb)), "a point's mean weight is not one", N=N, got=m)
    d = w - 1.0
    S = d.T @ d / nb
    want = np.full((N, N), -1.0 / N) + np.eye(N)
    # variance of the products from the sample
    q = np.sqrt(np.maximum(((d ** 2).T @ (d ** 2)) / nb - S ** 2, 1e-12) / nb)
    ctx.check(np.all(np.abs(S - want) <= z * q + 1e-12), "weights do not have multinomial (co)variances", N=N, got=S, want=want)
    p0 = (w == 0).mean(axis=0)
    w0 = (1 - 1.0 / N) ** N
    ctx.check(np.all(np.abs(p0 - w0) <= z * math.sqrt(w0 * (1 - w0) / nb)), "points are left out too often or too rarely", N=N, got=p0, want=w0)
    w1 = (1 - 1.0 / N) ** (N - 1)
    p1 = (w == 1).mean(axis=0)
    ctx.check(np.all(np.abs(p1 - w1) <= z * math.sqrt(w1 * (1 - w1) / nb)), "points appear once too often or too rarely", N=N, got=p1, want=w1)
    lag = (d[1:] * d[:-1]).mean()
    ctx.check(abs(lag) <= z * v / math.sqrt(N * (nb - 1)) * 1.5, "consecutive replicates are correlated", got=lag)
    half = (d[: nb // 2] * d[nb // 2 :]).mean()
    ctx.check(abs(half) <= z * v / math.sqrt(N * nb / 2) * 1.5, "replicates are correlated", got=half)
    if N >= 8:
        ctx.check(len(np.unique(w, axis=0)) > 0.5 * min(nb, 1000), "replicates repeat", got=len(np.unique(w, axis=0)))
    ctx.feature("moments N=%d" % N)
    ctx.note("moments", N, ctx.seed)
    ctx.sample(N=N, mean=m, var=np.diag(S))


@C13.scenario(40, 400)
def inside(ctx, rng):
    """The weights drawn inside the analyses obey the same oracle."""
    N = gen.upto(rng, 2, 25)
    with Weights(ctx) as W:
        ctx.call(L.mm.boot_EB, rng.randn(N), 0.9, gen.pick(rng, [10, 100]))
        y = rng.rand(N) < 0.5
        lp = np.log(rng.dirichlet([1, 1], size=N))
        ctx.call(L.cl.curve_boot, y, lp, 0.5, n_boot=20)
    ctx.note("inside", N, ctx.seed)


# ---------------------------------------------------------------------------
C14 = Prop(
    "C14",
    "samples x limits (finite, one-sided, infinite, touching) x minimum error bars x confidence x three methods, jointly and separately, "
    "plus the clipping function on scalars including infinities and NaN; non-trivial when the sample has >= 2 points",
)
C14.observe("boot_util.boot_weights")


@C14.hook("mlpaper.clip_EB")
def _clip(ctx, ev):
    mu, EB = float(ev.arg(0, "mu")), float(ev.arg(1, "EB"))
    lo, up, mn = float(ev.arg(2, "lower", -INF)), float(ev.arg(3, "upper", INF)), float(ev.arg(4, "min_EB", 0.0))
    got = float(ev.result)
    cap = INF if math.isnan(mu) else max([d for d in (up - mu, mu - lo) if not math.isnan(d)] or [INF])
    want = EB if math.isnan(EB) else min(max(EB, mn), cap)
    if math.isnan(mu) and math.isnan(got) and math.isnan(EB):
        return
    if not (got == want or (math.isnan(got) and math.isnan(want)) or abs(got - want) <= 1e-12 * max(1e-300, abs(want) if math.isfinite(want) else 0)):
        ctx.record("clipped error bar wrong", mu=mu, EB=EB, limits=(lo, up), min_EB=mn, got=got, want=want)


@C14.scenario(1500, 25000)
def clip(ctx, rng):
    lo, up = gen.pick(rng, [(0.0, 1.0), (-2.0, 3.0), (0.0, INF), (-INF, INF), (-INF, 1.0), (0.5, 0.5)])
    a, b = max(lo, -5.0), min(up, 5.0)
    mu = float(gen.pick(rng, [a, b, rng.uniform(a, b) if a < b else a, 0.5 * (a + b)]))
    EB = float(gen.pick(rng, [0.0, 0.1, 1.0, 10.0, INF, np.nan, rng.exponential(), 1e-9]))
    mn = float(gen.pick(rng, [0.0, 0.0, 0.05, 0.5, 2.0]))
    if 2 * mn > up - lo or (rng.rand() < 0.1 and mn == 0):
        mn = 0.0
    args = gen.pick(rng, ["pos", "kw"])
    if args == "pos":
        r = ctx.call(L.mm.clip_EB, mu, EB, lo, up, mn)
    else:
        r = ctx.call(L.mm.clip_EB, mu, EB, lower=lo, upper=up, min_EB=mn)
    if not math.isnan(EB):
        ctx.check(r >= mn, "error bar below the minimum", got=r, min_EB=mn)
        ctx.check(r <= max(up - mu, mu - lo), "error bar beyond the trivial one", got=r, mu=mu, limits=(lo, up))
        ctx.call(L.mm.clip_EB, np.nan, EB, lo, up)
        ctx.call(L.mm.clip_EB, mu, EB)
    if up < INF:
        ctx.rejects(L.mm.clip_EB, "estimate above its limit", up + 0.1, 0.1, lo, up)
    if lo > -INF:
        ctx.rejects(L.mm.clip_EB, "estimate below its limit", lo - 0.1, 0.1, lo, up)
    if up - lo < INF:
        ctx.rejects(L.mm.clip_EB, "minimum error bar too large", mu, 0.1, lo, up, 0.51 * (up - lo) + 0.01)
    ctx.note("clip", mu, EB, lo, up, mn)


def expected_EB(x, conf, lo, up, method, mn, raw):
    mu = min(max(oracle.mean(x), lo), up)
    if math.isnan(mu):
        return mu, min(max(raw, mn), INF)
    cap = max([d for d in (up - mu, mu - lo) if not math.isnan(d)] or [INF])
    return mu, min(max(raw, mn), cap)


def judge_mean(ctx, x, lo, up, mu, atol=0.0):
    want = oracle.mean(x)
    sc = oracle.scale_of(x)
    ctx.check(mu == want or (math.isnan(mu) and math.isnan(want)) or abs(mu - want) <= 1e-11 * sc + atol, "reported mean is not the sample mean", x=np.asarray(x), got=mu, want=want)
    ctx.check(math.isnan(mu) or lo <= mu <= up, "reported mean outside the limits", got=mu, limits=(lo, up))


def judge_pair(ctx, x, conf, lo, up, method, mn, EB, p, ws, joint, atol=0.0):
    """EB and/or p of sample x (None = not reported)."""
    xl = np.asarray(x).tolist()
    sc = oracle.scale_of(x) + 1e11 * atol
    trivial = len(xl) <= 1 or not oracle.finite(xl)
    if method == "t" or (method == "boot" and trivial):
        if EB is not None:
            raw = oracle.t_EB(xl, conf) if not trivial else INF
            _, want = expected_EB(x, conf, lo, up, method, mn, raw)
            ctx.check(EB == want or abs(EB - want) <= 1e-7 * want + 1e-11 * sc, "error bar of method %s wrong after clipping" % method, x=np.asarray(x), confidence=conf, limits=(lo, up), min_EB=mn, got=EB, want=want)
        if p is not None:
            if trivial:
                ctx.check(p == 1.0, "p-value of a degenerate sample is not one", got=p)
            else:
                judge_t_p(ctx, x, p)
    elif method == "bernstein":
        if EB is not None:
            _, want = expected_EB(x, conf, lo, up, method, mn, oracle.bern_EB(xl, lo, up, conf))
            ctx.check(EB == want or abs(EB - want) <= 1e-8 * want + 1e-11 * sc, "Bernstein error bar wrong after clipping", x=np.asarray(x), confidence=conf, limits=(lo, up), min_EB=mn, got=EB, want=want)
        if p is not None:
            judge_b_p(ctx, np.asarray(x), lo, up, p)
    else:
        m = oracle.mean(xl)
        # Plain counts only: weights with a minimum belong to a curve.
        ws = [w for w in ws if w.ndim == 2 and w.shape[1] == len(xl) and np.any(w == 0) and weights_ok(w, len(xl))]
        if not ws:  # the replicates were drawn out of sight
            ctx.feature("statistical fallback")
            if len(xl) > 3000:
                return
            rs = np.random.RandomState(len(xl) + 7)
            b = boot_means(x, rs.multinomial(len(xl), np.ones(len(xl)) / len(xl), size=2000))
            tol = 1e-9 * sc + 1e-300
            if EB is not None:
                # percentiles of two samples of replicates differ by their sampling error
                al = 0.5 * (1.0 - conf)
                gap = 7.0 * math.sqrt(al * (1 - al) * (1 / 1000.0 + 1 / 2000.0)) + 0.01
                low = min(oracle.boot_EB_candidates(b, m, 1 - 2 * (al + gap))) if al + gap < 0.5 else 0.0
                high = max(oracle.boot_EB_candidates(b, m, 1 - 2 * (al - gap))) if al - gap > 0 else float(np.max(np.abs(np.asarray(x, float) - m)))
                low = expected_EB(x, conf, lo, up, method, mn, max(0.0, low - tol))[1]
                high = expected_EB(x, conf, lo, up, method, mn, high + tol)[1]
                ctx.check(low - tol <= EB <= high + tol, "bootstrap error bar far from an independent bootstrap", x=np.asarray(x), confidence=conf, limits=(lo, up), EB=EB, want=(low, high))
            if p is not None:
                l, h = oracle.boot_p_range(b, 0.0, 1e-12 * sc)
                slack = lambda v: 14.0 * math.sqrt(0.5 * v * (1 - 0.5 * v) * (1 / 1000.0 + 1 / 2000.0)) + 0.02
                ctx.check(l - slack(l) <= p <= h + slack(h), "bootstrap p-value far from an independent bootstrap", x=np.asarray(x), p=p, want=(l, h))
            return

        def okE(w):
            b = boot_means(x, w)
            return any(abs(EB - expected_EB(x, conf, lo, up, method, mn, c)[1]) <= 1e-9 * sc + 1e-300 for c in oracle.boot_EB_candidates(b, m, conf))

        if joint and EB is not None and p is not None:
            ctx.check(any(okE(w) and p_match(x, w, p) for w in ws), "bootstrap report does not follow from one set of replicates", x=np.asarray(x), confidence=conf, limits=(lo, up), EB=EB, p=p)
        else:
            if EB is not None:
                ctx.check(any(okE(w) for w in ws), "bootstrap error bar does not follow from its replicates", x=np.asarray(x), confidence=conf, limits=(lo, up), EB=EB)
            if p is not None:
                ctx.check(any(p_match(x, w, p) for w in ws), "bootstrap p-value does not follow from its replicates", x=np.asarray(x), p=p)


@C14.scenario(1500, 25000)
def reports(ctx, rng):
    x, lo, up = sample(rng, N=gen.size(rng, 60, vast=0.003), limits=True)
    if up == INF and rng.rand() < 0.07:
        x[rng.randint(len(x))] = INF
    elif lo == -INF and rng.rand() < 0.07:
        x[rng.randint(len(x))] = -INF
    method = gen.pick(rng, ["t", "bernstein", "boot"])
    conf = gen.confidence(rng)
    mn = float(gen.pick(rng, [0.0, 0.0, 0.05, 0.3]))
    if 2 * mn > up - lo:
        mn = 0.0
    kw = dict(confidence=conf, min_EB=mn, lower=lo, upper=up, method=method)
    if method == "t" and rng.rand() < 0.5:
        kw.pop("method")
    if mn == 0.0 and rng.rand() < 0.5:
        kw.pop("min_EB")
    ctx.feature(method, "limits=(%g,%g)" % (lo, up), "min_EB=%g" % mn)
    seed = int(rng.randint(2 ** 31))
    with np.errstate(invalid="ignore"):
        np.random.seed(seed)
        with Weights(ctx) as W:
            mu, EB = ctx.call(L.mm.get_mean_and_EB, x, **kw)
        judge_mean(ctx, x, lo, up, mu)
        judge_pair(ctx, x, conf, lo, up, method, mn, EB, None, W.w, False)
        np.random.seed(seed)
        with Weights(ctx) as W:
            p = ctx.call(L.mm.get_test, x, lower=lo, upper=up, method=method)
        judge_pair(ctx, x, conf, lo, up, method, mn, None, p, W.w, False)
        np.random.seed(seed)
        with Weights(ctx) as W:
            mu3, EB3, p3 = ctx.call(L.mm.get_mean_EB_test, x, **kw)
        judge_mean(ctx, x, lo, up, mu3)
        judge_pair(ctx, x, conf, lo, up, method, mn, EB3, p3, W.w, True)
    if method != "boot":
        ctx.close((mu3, EB3, p3), (mu, EB, p), "joint and separate reports disagree", rtol=1e-12, method=method)
    else:
        # from the same point of the random stream
        tol = 1e-9 * oracle.scale_of(x)
        ctx.close((mu3, EB3), (mu, EB), "joint and separate reports disagree", rtol=1e-9, atol=tol)
        if not np.any(np.abs(boot_means(x, W.w[0])) <= tol) if W.w and W.w[0].ndim == 2 and W.w[0].shape[1] == len(x) else False:
            ctx.close(p3, p, "joint and separate p-values disagree", rtol=1e-9)
    bad = np.array(x, dtype=float)
    if up < INF:
        bad[rng.randint(len(x))] = up + 0.5
        ctx.rejects(L.mm.get_mean_and_EB, "value outside its limits", bad, lower=lo, upper=up, method=method)
        ctx.rejects(L.mm.get_mean_EB_test, "value outside its limits", bad, lower=lo, upper=up, method=method)
    if len(x) > 1:
        ctx.note(x, lo, up, method, conf, mn)
    ctx.sample(x=x[:6], limits=(lo, up), method=method, confidence=conf, min_EB=mn, report=(mu3, EB3, p3))


# ---------------------------------------------------------------------------
C15 = Prop(
    "C15",
    "loss tables with 1..4 metrics x 1..4 methods in arbitrary order and row index (ties with the reference, constants, infinite losses, "
    "one row) x reference x pairwise x confidence x method x limits; non-trivial when there are >= 2 methods and >= 2 rows",
    assumptions=["full metric x method tables", "infinite losses of method and reference on the same point are excluded here (known finding) and probed separately"],
)
C15.observe("mlpaper.loss_summary_table", "boot_util.boot_weights")


def loss_tbl(rng, limits=False, inf_ok=False, N=None):
    methods = gen.names(rng, rng.randint(1, 5) if rng.rand() < 0.97 else gen.pick(rng, [16, 21, 40]))
    metrics = gen.metric_names(rng, rng.randint(1, 4) if rng.rand() < 0.97 else 10)
    whole = rng.rand() < 0.06  # losses stored as integers
    N = gen.size(rng, 40, vast=0.004) if N is None else N
    lim = {}
    D = {}
    for me in metrics:
        lo, up = -INF, INF
        if limits and rng.rand() < 0.8:
            lo, up = gen.pick(rng, [(0.0, 1.0), (-1.0, 1.0), (0.0, INF), (0.0, 0.7), (-0.3, 5.0), (0.0, 4.0), (-INF, 0.0), (-INF, 2.5)])
            lim[me] = (lo, up)
        for k, m in enumerate(methods):
            x = gen.losses(rng, N, lo, up)
            if k > 0 and rng.rand() < 0.25:  # ties / exact copies / shifts of another method
                x = D[(me, methods[0])].copy()
                if rng.rand() < 0.3:  # the same up to a few units in the last place
                    x = np.clip(x * (1.0 + 2.0 ** -gen.pick(rng, [30, 44, 51]) * rng.randint(-3, 4, size=N)), lo, up)
                elif rng.rand() < 0.6:
                    x[rng.randint(N)] = gen.losses(rng, 1, lo, up)[0]
            if inf_ok and k == 0 and up == INF and rng.rand() < 0.12:
                x = x.astype(float)
                x[rng.randint(N)] = INF
            if whole and np.all(np.isfinite(x)):
                x = np.round(x)
                x = np.where((lo <= x) & (x <= up), x, np.ceil(lo) if lo > -INF else np.floor(up) if up < INF else 0.0)
                x = x.clip(-1e9, 1e9).astype(gen.pick(rng, [np.int64, np.int64, np.int32]))
            D[(me, m)] = x
    order = list(itertools.product(metrics, methods))
    if rng.rand() < 0.4:
        rng.shuffle(order)
    cols = pd.MultiIndex.from_tuples([tuple(o) for o in order], names=["metric", "method"])
    tbl = pd.DataFrame(dict((i, D[tuple(o)]) for i, o in enumerate(order)))
    tbl = gen.sliced(rng, tbl.set_axis(gen.index(rng, N), axis=0).set_axis(cols, axis=1))
    ref = gen.pick(rng, methods)
    for me in metrics:  # both infinite on one point: known finding, probed separately
        r = tbl[(me, ref)].values
        if any(m != ref and np.any(np.isinf(tbl[(me, m)].values) & np.isinf(r)) for m in methods):
            tbl = tbl.replace([INF], 3.0)
            break
    return tbl, ref, lim


def judge_summary(ctx, tbl, ref, out, pairwise, conf, method_EB, lim, ws, atol=0.0):
    """atol: rounding of the losses themselves, when they were recomputed."""
    metrics, methods = sorted(set(tbl.columns.get_level_values(0))), sorted(set(tbl.columns.get_level_values(1)))
    ctx.check(set(out.index) == set(methods) and len(out) == len(methods), "rows are not the methods", got=list(out.index), want=methods)
    ctx.check(set(out.columns) == set(itertools.product(metrics, ("mean", "error", "p"))) and out.shape[1] == 3 * len(metrics), "columns are not metric x (mean, error, p)", got=list(out.columns))
    ctx.check(list(out.columns.names) == ["metric", "stat"] and out.index.name == "method", "levels misnamed", got=(out.columns.names, out.index.name))
    for me in metrics:
        lo, up = lim.get(me, (-INF, INF))
        r = tbl[(me, ref)].values.astype(float)
        for m in methods:
            x = tbl[(me, m)].values.astype(float)
            mu, EB, p = [float(out.loc[m, (me, s)]) for s in ("mean", "error", "p")]
            judge_mean(ctx, x, lo, up, mu, atol)
            d = x - r
            rg = up - lo
            if m == ref:
                ctx.check(math.isnan(p), "reference method has a p-value", metric=me, got=p)
                if pairwise:
                    ctx.check(math.isnan(EB), "reference method has a pairwise error bar", metric=me, got=EB)
                else:
                    judge_pair(ctx, x, conf, lo, up, method_EB, 0.0, EB, None, ws, False, atol)
            elif pairwise:
                judge_pair(ctx, d, conf, -rg, rg, method_EB, 0.0, EB, p, ws, True, atol)
            else:
                judge_pair(ctx, x, conf, lo, up, method_EB, 0.0, EB, None, ws, False, atol)
                judge_pair(ctx, d, conf, -rg, rg, method_EB, 0.0, None, p, ws, False, atol)


@C15.scenario(700, 10000)
def summary(ctx, rng):
    method_EB = gen.pick(rng, ["t", "t", "bernstein", "boot"])
    tbl, ref, lim = loss_tbl(rng, limits=rng.rand() < 0.7, inf_ok=rng.rand() < 0.3)
    pairwise = bool(rng.rand() < 0.5)
    conf = gen.confidence(rng)
    kw = dict(pairwise_CI=pairwise, confidence=conf, method_EB=method_EB, limits=lim)
    if not pairwise and rng.rand() < 0.3:
        kw.pop("pairwise_CI")
    if conf == 0.95 and rng.rand() < 0.5:
        kw.pop("confidence")
    if method_EB == "t" and rng.rand() < 0.5:
        kw.pop("method_EB")
    if not lim and rng.rand() < 0.5:
        kw.pop("limits")
    with np.errstate(invalid="ignore"):
        with Weights(ctx) as W:
            out = ctx.call(L.mm.loss_summary_table, tbl, ref, **kw)
        judge_summary(ctx, tbl, ref, out, pairwise, conf, method_EB, lim, W.w)
    n_m = len(set(tbl.columns.get_level_values(1)))
    ctx.feature(method_EB, "pairwise" if pairwise else "marginal", "methods=%d" % n_m, "limits" if lim else "no limits", "N=1" if len(tbl) == 1 else "N>1", "inf" if np.any(np.isinf(tbl.values)) else "finite")
    bad = tbl.copy()
    bad.iloc[rng.randint(len(tbl)), rng.randint(tbl.shape[1])] = np.nan
    ctx.rejects(L.mm.loss_summary_table, "NaN loss", bad, ref, **kw)
    for me, (lo, up) in lim.items():
        if up < INF:
            bad = tbl.copy()
            c = [k for k, v in enumerate(tbl.columns) if v[0] == me]
            bad.iloc[rng.randint(len(tbl)), gen.pick(rng, c)] = up + 0.01 + rng.rand()
            ctx.rejects(L.mm.loss_summary_table, "loss above its limit", bad, ref, **kw)
        if lo > -INF:
            bad = tbl.copy()
            c = [k for k, v in enumerate(tbl.columns) if v[0] == me]
            bad.iloc[rng.randint(len(tbl)), gen.pick(rng, c)] = lo - 0.01 - rng.rand()
            ctx.rejects(L.mm.loss_summary_table, "loss below its limit", bad, ref, **kw)
        break
    if n_m >= 2 and len(tbl) >= 2:
        ctx.note(tbl, ref, pairwise, conf, method_EB, sorted(lim))
    ctx.sample(ref=ref, options=kw, row=out.iloc[0].to_dict())


@C15.scenario(8, 40)
def infinite_against_infinite(ctx, rng):
    """Probe of the known finding: both methods infinitely bad on one point."""
    N = rng.randint(1, 9)
    a, b = rng.rand(N), rng.rand(N)
    i = rng.randint(N)
    a[i] = b[i] = INF
    cols = pd.MultiIndex.from_product([["NLL"], ["x", "y"]], names=["metric", "method"])
    tbl = pd.DataFrame(np.stack((a, b), axis=1), columns=cols)
    method_EB = gen.pick(rng, ["t", "boot"])
    pairwise = bool(rng.rand() < 0.5)
    with np.errstate(invalid="ignore"):
        try:
            out = L.mm.loss_summary_table(tbl, "x", pairwise_CI=pairwise, method_EB=method_EB)
        except AssertionError:
            ctx.known_finding("inf-minus-inf-loss")
            ctx.note("inf", a, b)
            return
    ctx.check(float(out.loc["y", ("NLL", "mean")]) == INF, "mean of infinite losses is not infinite", got=out)
    ctx.check(float(out.loc["y", ("NLL", "p")]) == 1.0, "p-value of an undefined difference is not one", got=out)
