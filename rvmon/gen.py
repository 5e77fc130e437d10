"""Hostile workload generators (deterministic given the RandomState)."""
import numpy as np
import pandas as pd

NAMES = ["zeta", "Alpha", "beta", "m_10", "m_9", "GP (iso)", "svm 2", "noise", "x", "_u", "Z9", "net-deep", "é", "0day", "Zeta", "alpha", "svm_2", "m_1", "gradient boosted trees, 500 rounds", "gradient boosted trees, 50 rounds", "a rather long method name that nobody would put into a table, v2"]
METRICS = ["NLL", "Brier", "zero_one", "a_b_c", "MSE", "err rate", "AUC", "q", "NLL_2", "err", "q q", "mean_absolute_percentage_error", "mean_absolute_percentage_error_2", "nll", "BRIER", "Q"]


def pick(rng, xs):
    return xs[rng.randint(len(xs))]


HUGE = (101, 129, 257, 300, 501, 513, 750, 1001, 1025, 1300, 2049, 2500)


VAST = (4100, 5003, 10007, 20011)


def size(rng, big=200, huge=0.02, vast=0.0):
    """Mostly small; now and then far above any plausible block size or
    "large sample" threshold."""
    r = rng.rand()
    if rng.rand() < huge:
        return int(pick(rng, HUGE))
    if vast and rng.rand() < vast:
        return int(pick(rng, VAST))
    if r < 0.10:
        return 1
    if r < 0.20:
        return 2
    if r < 0.32:
        return 3
    if r < 0.75:
        return rng.randint(4, max(5, min(30, big)))
    return rng.randint(min(30, big), max(big, 31) + 1)


def upto(rng, lo, hi, huge=0.02):
    """randint(lo, hi), now and then huge."""
    return int(pick(rng, HUGE)) if rng.rand() < huge else int(rng.randint(lo, hi))


def labels(rng, N, K, allow_bool=True):
    r = rng.rand()
    if r < 0.12:
        y = np.full(N, rng.randint(K))
    elif r < 0.2:
        y = np.full(N, K - 1)
        y[rng.randint(N)] = 0
    else:
        y = rng.randint(K, size=N)
    kinds = [np.int64, np.int64, np.int32, np.int16] + ([np.int8] if K <= 128 else [])
    if K == 2 and allow_bool:
        kinds += [bool, bool]
    return y.astype(pick(rng, kinds))


def log_probs(rng, N, K, normalized=True, neg_inf=True):
    """Rows of log probabilities of many shapes (peaked, flat, tied, -inf)."""
    kind = rng.randint(9)
    if kind == 8:  # near ties between labels, at many scales
        A = -np.log(K) + rng.randn(N, K) * 10.0 ** -rng.uniform(1, 11, size=(N, 1))
    elif kind == 0:
        A = np.log(rng.dirichlet(np.ones(K), size=N))
    elif kind == 1:
        A = np.log(np.maximum(rng.dirichlet(0.05 * np.ones(K), size=N), 1e-300))
    elif kind == 2:
        A = np.zeros((N, K))
    elif kind == 3:
        A = rng.randn(N, K) * 100.0
    elif kind == 4:  # many ties between rows and labels
        A = np.log(rng.randint(1, 4, size=(N, K)).astype(float))
    elif kind == 5:
        A = np.zeros((N, K)) - 700.0 * rng.rand(N, 1) + 1e-3 * rng.randn(N, K)
    elif kind == 6:
        A = np.log(rng.dirichlet(np.ones(K), size=1)).repeat(N, axis=0)
    else:
        A = np.log(rng.dirichlet(np.ones(K), size=N))
        if neg_inf and K > 1:
            for n in range(N):
                if rng.rand() < 0.5:
                    drop = rng.permutation(K)[: rng.randint(1, K)]
                    A[n, drop] = -np.inf
        elif neg_inf and K == 1:
            A[:] = 0.0
    if not neg_inf:
        A = np.maximum(A, -1e6)
    m = A.max(axis=1, keepdims=True)
    A = A - m
    A = A - np.log(np.sum(np.exp(A), axis=1, keepdims=True))
    if not normalized:
        r = rng.randint(4)
        if r == 0:
            A = A + rng.randn(N, 1) * 10.0
        elif r == 1:
            A = A + rng.choice([-800.0, 800.0, 0.0, 3.0], size=(N, 1))
        elif r == 2:
            A = A + 1e-6
    if rng.rand() < 0.2:
        A = np.asfortranarray(A)
    elif rng.rand() < 0.1:
        B = np.zeros((2 * N, K + 1))
        B[::2, :K] = A
        A = B[::2, :K]
    return A


def names(rng, n):
    pool = NAMES if n <= len(NAMES) else NAMES + ["run %d" % i for i in range(2 * n)]
    return [pool[i] for i in rng.permutation(len(pool))[:n]]


def n_methods(rng, hi=5):
    """Usually a few methods, now and then a whole leaderboard."""
    return int(rng.randint(1, hi)) if rng.rand() < 0.96 else int(pick(rng, [9, 12, 20, 35]))


def metric_names(rng, n):
    return [METRICS[i] for i in rng.permutation(len(METRICS))[:n]]


def index(rng, N, unique=False):
    r = rng.randint(9)
    if r <= 1:
        return pd.RangeIndex(N)
    if r == 6:
        return pd.Index(rng.permutation(N))
    if r == 7:  # nearly the default index
        a = np.arange(N)
        i, j = rng.randint(N, size=2)
        a[i], a[j] = a[j], a[i]
        return pd.Index(a)
    if r == 8:
        return pd.Index(np.arange(N)[::-1])
    if r == 2:
        return pd.Index(rng.permutation(N) + 17)
    if r == 3:
        return pd.Index(["r%d" % i for i in rng.permutation(N)])
    if r == 4 and not unique:
        return pd.Index(rng.randint(max(1, N // 2), size=N))
    return pd.date_range("2001-01-01", periods=N, freq="D")


def sliced(rng, tbl, p=0.12):
    """The same table, now and then as a selection from a larger one: pandas
    keeps what was dropped among the level values."""
    if rng.rand() >= p:
        return tbl
    c = tbl.columns
    a, b = c[0]
    extra = [("gone", x) for x in c.get_level_values(1)]
    if isinstance(b, str) and rng.rand() < 0.5:
        extra += [(a, "lost")]
    big = c.append(pd.MultiIndex.from_tuples(extra, names=c.names))
    return tbl.set_axis(big[: len(c)], axis=1)


def pred_table(rng, methods, K, N, idx=None, normalized=True, neg_inf=True):
    """Prediction table and the dict of arrays it was built from."""
    D = dict((m, log_probs(rng, N, K, normalized, neg_inf)) for m in methods)
    cols = pd.MultiIndex.from_product([methods, range(K)], names=["method", "label"])
    if rng.rand() < 0.25:
        cols = pd.MultiIndex.from_product([methods, range(K)])
    data = np.concatenate([D[m] for m in methods], axis=1)
    tbl = pd.DataFrame(data=data, index=index(rng, N) if idx is None else idx, columns=cols)
    if rng.rand() < 0.3:  # interleave the methods' columns; label order inside a method stays
        pos = list(range(len(cols)))
        order = [[methods.index(m), 0] for m, _ in cols]
        seq = [i for i, m in enumerate(methods) for _ in range(K)]
        rng.shuffle(seq)
        nxt = dict((i, 0) for i in range(len(methods)))
        pos = []
        for i in seq:
            pos.append(i * K + nxt[i])
            nxt[i] += 1
        tbl = tbl.iloc[:, pos]
    return sliced(rng, tbl), D


def losses(rng, N, lower=-np.inf, upper=np.inf):
    """One column of losses inside the limits."""
    kind = rng.randint(9)
    fl, fu = np.isfinite(lower), np.isfinite(upper)
    if kind == 0:
        x = rng.randn(N)
    elif kind == 1:
        x = rng.rand(N)
    elif kind == 2:
        x = (rng.rand(N) < 0.3).astype(float)
    elif kind == 3:
        x = np.full(N, pick(rng, [0.0, 1.0, 0.7, 0.1, -0.3]))
    elif kind == 4:
        x = np.exp(3.0 * rng.randn(N))
    elif kind == 5:
        x = rng.randint(4, size=N) / 4.0
    elif kind == 6:
        x = rng.randn(N) * 1e-8
    elif kind == 7:
        x = 5.0 + 100.0 * rng.standard_t(3, size=N)
    else:
        x = rng.rand(N)
        x[rng.randint(N)] = 1.0
    if fl and fu:
        span = upper - lower
        if kind in (1, 2, 5, 8):
            x = lower + span * np.clip(x, 0, 1)
        else:
            x = np.clip(x, lower, upper)
    elif fl:
        x = lower + np.abs(x)
    elif fu:
        x = upper * rng.rand(N) if upper > 0 and rng.rand() < 0.5 else upper - np.abs(x)
    return np.clip(x, lower, upper)


def confidence(rng):
    if rng.rand() < 0.05:
        return float(pick(rng, [0.9999, 0.99995, 0.002]))
    return float(pick(rng, [0.95, 0.95, 0.9, 0.99, 0.5, 0.683, 0.999, 0.05, 0.8, float(rng.uniform(0.01, 0.995))]))


def gen_offset(rng):
    return pick(rng, [0, -7, 1 << 27, 1 << 40])


def scores(rng, N):
    """Finite score vectors with and without ties."""
    k = rng.randint(10)
    if k == 0:
        return rng.randn(N)
    if k == 9:  # neighbouring floats
        return (1.0 + rng.randint(6, size=N) * 2.0 ** -52) * pick(rng, [1.0, -1.0, 3e5, 1e-9])
    if k == 8:  # integers: small, or too close together for single precision
        return rng.randint(max(2, N), size=N) + gen_offset(rng)
    if k == 1:
        return rng.randint(3, size=N).astype(float)
    if k == 2:
        return rng.randint(max(1, N // 2), size=N) / 7.0
    if k == 3:
        return np.full(N, 0.25)
    if k == 4:
        return np.log(rng.rand(N))
    if k == 5:
        return rng.permutation(N).astype(float) * 1e-12 + 1.0
    if k == 6:
        return rng.randn(N) * 1e8
    s = rng.randn(N)
    s[rng.rand(N) < 0.5] = -745.0
    return s


def binary(rng, N):
    r = rng.rand()
    if r < 0.1:
        return np.zeros(N, dtype=bool)
    if r < 0.2:
        return np.ones(N, dtype=bool)
    if r < 0.3:
        y = np.zeros(N, dtype=bool)
        y[rng.randint(N)] = True
        return y
    if r < 0.4:
        y = np.ones(N, dtype=bool)
        y[rng.randint(N)] = False
        return y
    return rng.rand(N) < pick(rng, [0.5, 0.2, 0.8])
