"""Independent reference computations.  Nothing here imports mlpaper."""
import math

import numpy as np
from scipy.special import stdtr, stdtrit

# ---------------------------------------------------------------------------
# Classification
# ---------------------------------------------------------------------------


def lse(row):
    row = [float(v) for v in row]
    m = max(row)
    if m == -math.inf:
        return -math.inf
    if m == math.inf:
        return math.inf
    return m + math.log(math.fsum(math.exp(v - m) for v in row))


def normalize(lp):
    lp = np.asarray(lp, dtype=float)
    return np.array([[v - z for v in row] for row, z in ((r, lse(r)) for r in lp)]).reshape(lp.shape)


def log_loss(y, lp):
    return np.array([-float(lp[n][int(y[n])]) for n in range(len(y))])


def brier(y, lp, rescale=True):
    out = []
    for n in range(len(y)):
        p = [math.exp(v) for v in lp[n]]
        K = len(p)
        s = math.fsum((pk - (1.0 if k == int(y[n]) else 0.0)) ** 2 for k, pk in enumerate(p))
        if rescale and K > 1:
            s = s * K / (K - 1.0)
        out.append(s)
    return np.array(out)


def spherical(y, lp, rescale=True):
    out = []
    for n in range(len(y)):
        row = [float(v) for v in lp[n]]
        K = len(row)
        m = max(row)
        den = math.sqrt(math.fsum(math.exp(2.0 * (v - m)) for v in row))
        s = -math.exp(row[int(y[n])] - m) / den
        if rescale:
            c = 1.0 - 1.0 / math.sqrt(K) if K > 1 else 1.0
            s = (1.0 + s) / c
        out.append(s)
    return np.array(out)


def expected_loss(lp, loss_mat):
    P = np.exp(np.asarray(lp, dtype=np.longdouble))
    return P @ np.asarray(loss_mat, dtype=np.longdouble)  # extended precision, no BLAS


def optimal_actions(lp, loss_mat):
    """Boolean (n, a): action a is Bayes optimal up to rounding."""
    E = expected_loss(lp, loss_mat)
    P = np.exp(np.asarray(lp, dtype=float))
    scale = P @ np.abs(np.asarray(loss_mat, dtype=float))
    tol = 1e-11 * (1e-300 + scale)  # each action's own rounding
    return E - tol <= np.min(E + tol, axis=1, keepdims=True)


# ---------------------------------------------------------------------------
# Regression
# ---------------------------------------------------------------------------


def gauss_nll(y, mu, std):
    return np.array([0.5 * math.log(2.0 * math.pi) + math.log(s) + 0.5 * ((float(a) - float(m)) / float(s)) ** 2 for a, m, s in zip(y, mu, std)])


def sq_loss(y, mu, std):
    return np.array([(float(a) - float(m)) ** 2 for a, m in zip(y, mu)])


def abs_loss(y, mu, std):
    return np.array([abs(float(a) - float(m)) for a, m in zip(y, mu)])


# ---------------------------------------------------------------------------
# Mean inference
# ---------------------------------------------------------------------------


def mean(x):
    x = [float(v) for v in x]
    if all(math.isfinite(v) for v in x):
        return math.fsum(x) / len(x)
    return float(np.mean(np.asarray(x)))


def var(x, ddof):
    m = mean(x)
    return math.fsum((float(v) - m) ** 2 for v in x) / (len(x) - ddof)


def finite(x):
    return all(math.isfinite(float(v)) for v in x)


def scale_of(x):
    return max([abs(float(v)) for v in x if math.isfinite(float(v))] or [0.0])


def degenerate(x):
    """Spread so small (relative to the values) that rounding decides it."""
    return math.sqrt(var(x, 1)) <= 1e-7 * scale_of(x) or math.sqrt(var(x, 1)) < 1e-140


def t_EB(x, confidence):
    N = len(x)
    if N <= 1 or not finite(x):
        return math.inf
    # upper tail quantile through the lower tail: accurate for confidence near 1
    q = -float(stdtrit(N - 1, 0.5 * (1.0 - confidence)))
    return q * math.sqrt(var(x, 1) / N)


def t_p(x):
    N = len(x)
    if N <= 1 or not finite(x):
        return 1.0
    v = var(x, 1)
    m = mean(x)
    if v == 0.0:
        return float(m == 0.0)
    t = m / math.sqrt(v / N)
    return float(min(1.0, 2.0 * stdtr(N - 1, -abs(t))))


def bern_EB(x, lower, upper, confidence):
    N = len(x)
    rng = upper - lower
    if N <= 1 or not finite(x):
        return rng
    A = math.log(3.0 / (1.0 - confidence))
    return math.sqrt(var(x, 0)) * math.sqrt(2.0 * A / N) + 3.0 * A * rng / N


def bern_p(x, lower, upper):
    N = len(x)
    rng = upper - lower
    if N <= 1 or not finite(x) or rng == 0.0 or rng == math.inf:
        return 1.0
    a, b, c = 3.0 * rng / N, math.sqrt(var(x, 0)) * math.sqrt(2.0 / N), abs(mean(x))
    if c == 0.0:
        return 1.0
    z = 2.0 * c / (b + math.sqrt(b * b + 4.0 * a * c))
    return min(1.0, 3.0 * math.exp(-z * z))


# ---------------------------------------------------------------------------
# Bootstrap intervals
# ---------------------------------------------------------------------------


def quantile_ok(b, q, side, value):
    """value is the 'lower'/'higher' order statistic of b (1d) at level q."""
    s = np.sort(np.asarray(b, dtype=float))
    n = len(s)
    pos = q * (n - 1)
    f = math.floor(pos) if side == "lower" else math.ceil(pos)
    cand = set([f])
    r = round(pos)
    if abs(pos - r) < 1e-6 * max(1.0, pos) :  # rounding of the level decides: either neighbour
        cand |= set([r, r - 1 if side == "lower" else r + 1])
    return any(0 <= k < n and (s[k] == value or abs(s[k] - value) <= 1e-9 * abs(s[k]) + 1e-13) for k in cand)


def quantile_candidates(b, q, side):
    s = np.sort(np.asarray(b, dtype=float))
    n = len(s)
    pos = q * (n - 1)
    f = math.floor(pos) if side == "lower" else math.ceil(pos)
    cand = [f]
    r = round(pos)
    if abs(pos - r) < 1e-6 * max(1.0, pos):
        cand += [r, r - 1 if side == "lower" else r + 1]
    return sorted(set(float(s[k]) for k in cand if 0 <= k < n))


def boot_EB_candidates(b, est, confidence):
    al = 0.5 * (1.0 - confidence)
    out = []
    for lo in quantile_candidates(b, al, "lower"):
        for hi in quantile_candidates(b, 1.0 - al, "higher"):
            with np.errstate(invalid="ignore"):
                out.append(float(np.fmax(hi - est, est - lo)))
    return out


def boot_p(b, ref):
    b = np.asarray(b, dtype=float)
    ref = np.broadcast_to(np.asarray(ref, dtype=float), b.shape)
    return min(1.0, 2.0 * min(float(np.sum(b <= ref)), float(np.sum(b >= ref))) / len(b))


def boot_p_range(b, ref, tol):
    """Interval of p-values compatible with a rounding error of tol in b-ref."""
    with np.errstate(invalid="ignore"):
        d = np.asarray(b, dtype=float) - np.asarray(ref, dtype=float)
    d = np.where(np.isnan(d), 0.0, d)  # equal infinities compare equal
    n = float(len(d))
    lo = min(np.sum(d <= -tol), np.sum(d >= tol)) / n
    hi = min(np.sum(d <= tol), np.sum(d >= -tol)) / n
    return min(1.0, 2.0 * lo), min(1.0, 2.0 * hi)


# ---------------------------------------------------------------------------
# Performance curves, from the definition (no cumulative sums)
# ---------------------------------------------------------------------------

EPS = 1e-10


def counts(y, score, w=None):
    """Thresholds and (fp, tp) at each, from the definition."""
    y = np.asarray(y).astype(bool)
    score = np.asarray(score, dtype=float)
    w = np.ones(len(y)) if w is None else np.asarray(w, dtype=float)
    th = sorted(set(score.tolist()), reverse=True)
    tp, fp = [0.0], [0.0]
    order = {}
    for s, yy, ww in zip(score.tolist(), y.tolist(), w.tolist()):
        order.setdefault(s, [[], []])[1 if yy else 0].append(ww)
    if len(th) > 300:  # extended precision running sums
        tp, fp = [np.longdouble(0)], [np.longdouble(0)]
        for t in th:
            fp.append(fp[-1] + np.longdouble(math.fsum(order[t][0])))
            tp.append(tp[-1] + np.longdouble(math.fsum(order[t][1])))
        return np.array([math.inf] + th), np.array(fp, dtype=float), np.array(tp, dtype=float)
    tl, fl = [], []
    for t in th:
        fl.extend(order[t][0])
        tl.extend(order[t][1])
        tp.append(math.fsum(tl))
        fp.append(math.fsum(fl))
    return np.array([math.inf] + th), np.array(fp), np.array(tp)


def roc(y, score, w=None):
    th, fp, tp = counts(y, score, w)
    if fp[-1] == 0:
        fp = tp.copy()
    elif tp[-1] == 0:
        tp = fp.copy()
    return th, fp / fp[-1], tp / tp[-1]


def pr(y, score, w=None):
    th, fp, tp = counts(y, score, w)
    if tp[-1] == 0:
        tp, fp = EPS * fp, fp
    elif fp[-1] == 0:
        fp = EPS * tp
    rec = tp / tp[-1]
    with np.errstate(all="ignore"):
        prec = tp / (tp + fp)
    prec[0] = prec[1]
    return th, rec, prec


def prg(y, score, w=None):
    th, fp, tp = counts(y, score, w)
    if fp[-1] == 0:
        fp = EPS * tp
    elif tp[-1] == 0:
        tp = EPS * fp
    P, N = tp[-1], fp[-1]
    with np.errstate(all="ignore"):
        rg = 1.0 - (P / N) * ((P - tp) / tp)
        pg = 1.0 - (P / N) * (fp / tp)
    pg[0] = pg[1]
    rg = np.where(np.isnan(rg), -np.inf, rg)
    rg = np.maximum(0.0, rg)
    return th, rg, pg


def mann_whitney(y, score, w=None):
    """P(score+ > score-) + P(tie)/2, None if a class is missing."""
    y = np.asarray(y).astype(bool)
    score = np.asarray(score, dtype=float)
    w = np.ones(len(y)) if w is None else np.asarray(w, dtype=float)
    sp, sn, wp, wn = score[y], score[~y], w[y], w[~y]
    if len(sp) == 0 or len(sn) == 0:
        return None
    M = (sp[:, None] > sn[None, :]) + 0.5 * (sp[:, None] == sn[None, :])
    return float((wp @ M @ wn) / (wp.sum() * wn.sum()))


def area_step(x, y):
    tot = []
    for i in range(len(x) - 1):
        dx = float(x[i + 1]) - float(x[i])
        if dx != 0.0:
            if math.isinf(y[i]):
                return math.copysign(math.inf, y[i])
            tot.append(float(y[i]) * dx)
    return math.fsum(tot)


def area_trapz(x, y):
    return math.fsum(0.5 * (float(y[i]) + float(y[i + 1])) * (float(x[i + 1]) - float(x[i])) for i in range(len(x) - 1))


def step_eval(grid, x, y):
    """cadlag step function: value at the last point with x_i <= g."""
    out = []
    for g in grid:
        k = max(i for i in range(len(x)) if x[i] <= g)
        out.append(float(y[k]))
    return np.array(out)


def linear_range(grid, x, y):
    """(lo, hi) at each grid point: single value except on a vertical jump."""
    lo, hi = [], []
    x, y = np.asarray(x, float), np.asarray(y, float)
    for g in grid:
        at = np.where(x == g)[0]
        if len(at):
            lo.append(min(y[at]))
            hi.append(max(y[at]))
            continue
        j = int(np.where(x < g)[0][-1])
        v = y[j] + (y[j + 1] - y[j]) * ((g - x[j]) / (x[j + 1] - x[j]))
        lo.append(v)
        hi.append(v)
    return np.array(lo), np.array(hi)
