"""C25-C27: data splitting and lagged frames."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from rvmon import core, gen
from rvmon.core import L, Prop, same

KINDS_ALL = ["int", "float", "str", "date", "bool", "delta", "Int64", "neg", "big", "i8", "fine", "bigint", "u8", "f4", "grade", "string", "period"]
KINDS_LINEAR = ["int", "float", "delta", "neg", "big", "i8", "u8"]
KINDS_RANDOM = KINDS_ALL + ["tz", "category"]  # these have no order numpy and pandas agree on


# columns of pandas' masked types give masked conditions: only explored by the thorough tier
MASKED = {"Int64": "int", "string": "str"}


def pick_kind(rng, kinds):
    k = gen.pick(rng, kinds)
    return k if core.CTX is not None and core.CTX.tier == "thorough" else MASKED.get(k, k)


def column(rng, N, kind, unique=False, sort=False):
    D = max(1, N if rng.rand() < 0.3 else rng.randint(1, N + 1))
    if unique:
        k = rng.permutation(N)
    else:
        k = rng.randint(D, size=N)
    if sort:
        k = np.sort(k)
    if kind == "int":
        v = k * int(rng.randint(1, 4)) - 3
    elif kind == "i8":
        v = np.clip(k, 0, 120).astype(np.int8) if not unique or N < 120 else k
    elif kind == "u8":
        v = np.clip(k, 0, 250).astype(np.uint8) if not unique or N < 250 else k.astype(np.uint16)
    elif kind == "f4":
        v = (k * 0.1 - 3.0).astype(np.float32)
    elif kind == "bigint":  # more digits than a float has
        v = k.astype(np.int64) + gen.pick(rng, [2 ** 60, -(2 ** 60), 2 ** 53 - 2])
    elif kind in ("grade", "category"):  # ordered by rank, not by label
        lab = rng.permutation(max(N, D))
        v = pd.Categorical.from_codes(k, ["g%d" % i for i in lab], ordered=kind == "grade")
    elif kind == "string":
        v = pd.array(["w%04d" % i for i in k], dtype="string")
    elif kind == "period":
        v = pd.PeriodIndex.from_ordinals(k.astype(np.int64) + 500, freq=gen.pick(rng, ["M", "D"])) if hasattr(pd.PeriodIndex, "from_ordinals") else pd.period_range("2000-01", periods=int(k.max()) + 1, freq="M")[k]
    elif kind == "tz":
        v = pd.to_datetime("2000-03-01").tz_localize("US/Eastern") + pd.to_timedelta(k, unit="h")
    elif kind == "neg":
        v = k - 1000
    elif kind == "big":
        v = k.astype(float) * 1e12 + 0.5
    elif kind == "float":
        base = np.sort(rng.randn(max(N, D)))
        v = base[k]
    elif kind == "fine":  # neighbouring or tiny floats
        v = gen.pick(rng, [1.0 + k * 2.0 ** -52, k * 1e-15, k * 5e-324, -1e-13 * k, 1e9 + k * 2.0 ** -23])
    elif kind == "str":
        v = np.array(["v%05d" % i for i in k], dtype=object)
    elif kind == "date":
        v = pd.to_datetime("2000-01-01 05:06:07.000000089") + pd.to_timedelta(k, unit=gen.pick(rng, ["D", "D", "h", "s", "ns"]))
    elif kind == "delta":
        v = pd.to_timedelta(k * 7, unit="h")
    elif kind == "Int64":
        v = pd.array(k, dtype="Int64")
    elif kind == "bool":
        v = k % 2 == 0
    return v


def fraction(rng, n):
    r = rng.randint(6)
    if r == 0:
        return float(gen.pick(rng, [0.0, 1.0]))
    if r in (1, 2):  # exact multiples of 1/n
        return rng.randint(n + 1) / float(n)
    if r == 3:
        return float(gen.pick(rng, [0.5, 0.8, 0.1, 0.2, 0.3, 0.6, 0.7, 0.9, 1.0 / 3]))
    return float(rng.rand())


def values_of(S):
    if isinstance(getattr(S, "dtype", None), pd.CategoricalDtype):
        S = S.cat.codes
    return list(S.tolist() if hasattr(S, "tolist") else list(S))


def distinct(vals):
    return sorted(set(vals))


def counts_ok(k, n, frac):
    """k is frac*n rounded up (either side when rounding decides)."""
    if abs(frac * n - round(frac * n)) < 1e-7:
        r = round(frac * n)
        return k == r if frac in (0.0, 1.0) else k in (r, min(n, r + 1))
    return k == math.ceil(frac * n)


def judge_ordered(S, frac, mask):
    vals = values_of(S)
    u = distinct(vals)
    tr = set(v for v, m in zip(vals, mask) if m)
    te = set(v for v, m in zip(vals, mask) if not m)
    if tr & te:
        return "equal values separated"
    k = len(tr)
    if sorted(tr) != u[:k]:
        return "train does not hold the lowest values"
    n = len(u)
    if frac == 0.0:
        ok = k == 1
    else:
        ok = counts_ok(k, n, frac) or (k == 1 and frac * n <= 1 + 1e-7)
    return None if ok else "train holds %d of %d distinct values for fraction %r" % (k, n, frac)


def num(v):
    return v.value / 1e9 if isinstance(v, pd.Timedelta) else float(v)


def judge_linear(S, frac, mask):
    vals = [num(v) for v in values_of(S)]
    lo, hi = min(vals), max(vals)
    piv = lo + frac * (hi - lo)
    tol = 1e-9 * max(hi - lo, 1e-12 * max(abs(lo), abs(hi)))
    # where every way of computing the point is exact there is nothing to tolerate
    q = Fraction(lo) + Fraction(frac) * (Fraction(hi) - Fraction(lo))
    exact = S.dtype.kind in "iuf" and S.dtype.itemsize == 8 and all(Fraction(x) == q for x in (piv, (1.0 - frac) * lo + frac * hi, hi - (1.0 - frac) * (hi - lo)))
    for v, m in zip(vals, mask):
        if v == lo:
            want = True
        elif exact:
            want = v <= piv
        elif frac == 0.0:
            want = False
        elif abs(v - piv) <= tol:
            continue
        else:
            want = v <= piv
        if bool(m) != want:
            return "value %r is on the wrong side of the point %r" % (v, piv)
    t = [v for v, m in zip(vals, mask) if m]
    f = [v for v, m in zip(vals, mask) if not m]
    if t and f and max(t) >= min(f):
        return "split is not by value"
    return None


def judge_random(S, frac, mask):
    vals = values_of(S)
    tr = set(v for v, m in zip(vals, mask) if m)
    te = set(v for v, m in zip(vals, mask) if not m)
    if tr & te:
        return "equal values separated"
    n = len(set(vals))
    return None if counts_ok(len(tr), n, frac) else "train holds %d of %d distinct values for fraction %r" % (len(tr), n, frac)


JUDGE = {"random": judge_random, "ordered": judge_ordered, "linear": judge_linear}


# ---------------------------------------------------------------------------
C25 = Prop(
    "C25",
    "frames of 1..60 rows (range/shuffled/string/date/duplicate/several-level index, nineteen column types, heavy ties) x 1..3 criteria on columns or the "
    "index x three split types x fractions incl. 0, 1 and exact multiples x assumptions; non-trivial when train and test are both non-empty",
    assumptions=["a several-level index is not itself a criterion", "values orderable within a column"],
)
C25.observe("data_splitter.split_df", "data_splitter.random_split_series", "data_splitter.ordered_split_series", "data_splitter.linear_split_series")


def frame(rng):
    N = gen.size(rng, 60)
    ik = rng.randint(6)
    idx = gen.index(rng, N)
    ncol = rng.randint(1, 5)
    cols = gen.pick(rng, [["c%d" % i for i in range(ncol)], list(range(ncol)), ["x", 3, ("t", 1), "z"][:ncol], ["c", "cc", "cac", "acc"][:ncol]])
    meta = {}
    d = {}
    for j, c in enumerate(cols):
        kind = pick_kind(rng, KINDS_RANDOM)
        u, s = bool(rng.rand() < 0.3 and kind != "bool" and (kind != "i8" or N < 120)), bool(rng.rand() < 0.3 and kind not in ("bool",))
        d[j] = column(rng, N, kind, u, s)
        meta[c] = (kind, u, s)
    if rng.rand() < 0.08:  # splitting by column does not mind several index levels
        idx = pd.MultiIndex.from_arrays([rng.randint(1 + N // 2, size=N), ["r%d" % i for i in (rng.permutation(N) if rng.rand() < 0.7 else rng.randint(N, size=N))]], names=gen.pick(rng, [None, ["a", "b"]]))
    df = pd.DataFrame(d, index=idx)
    df.columns = pd.Index(cols, tupleize_cols=False)
    df["payload"] = rng.randn(N)
    df["row"] = np.arange(N)
    if rng.rand() < 0.2 and df.index.nlevels == 1:  # the index may carry a name, also that of a column
        df.index.name = gen.pick(rng, [cols[0], cols[-1], "payload", "when"])
    return df, meta


def criteria(rng, df, meta, n):
    cols = list(meta)
    out, uniq, srt = {}, [], []
    picks = [cols[i] for i in rng.permutation(len(cols))[:n]]
    if isinstance(df.index, pd.MultiIndex):
        picks = picks or cols[:1]
    elif rng.rand() < 0.35 or not picks:
        picks[rng.randint(len(picks)) if picks else slice(0, 0)] = None if picks else [None]
    for c in picks:
        if c is None:
            idx = df.index
            kinds = ["random", "ordered"]
            if idx.dtype.kind in "if":
                kinds.append("linear")
            vals = list(idx)
            u, s = len(set(vals)) == len(vals), vals == sorted(vals)
        else:
            kind, u, s = meta[c]
            vals = values_of(df[c])
            u, s = len(set(vals)) == len(vals), vals == sorted(vals)
            kinds = ["random"] + (["ordered"] if kind in KINDS_ALL else []) + (["linear"] if kind in KINDS_LINEAR else [])
        how = gen.pick(rng, kinds)
        out[c] = (how, fraction(rng, len(set(vals))))
        if u and rng.rand() < 0.5:
            uniq.append(c)
        if s and rng.rand() < 0.5:
            srt.append(c)
    return out, uniq, srt


@C25.scenario(900, 16000)
def split(ctx, rng):
    df, meta = frame(rng)
    N = len(df)
    if df.index.is_unique and rng.rand() < 0.3:  # rows told apart by the index alone
        df = df.drop(columns=["payload", "row"])
    splits, uniq, srt = criteria(rng, df, meta, gen.pick(rng, [1, 1, 2, 3, 4]))
    before = df.copy(deep=True)
    kw = {}
    if uniq or rng.rand() < 0.3:
        kw["assume_unique"] = gen.pick(rng, [uniq, tuple(uniq)])
    if srt or rng.rand() < 0.3:
        kw["assume_sorted"] = gen.pick(rng, [srt, tuple(srt)])
    if rng.rand() < 0.06 and None not in splits and df.index.nlevels == 1:
        args, splits = (df,), {None: ("random", 0.8)}
        kw = {}
    else:
        args = (df, splits)
    ctx.log = []
    parts = ctx.call(L.ds.split_df, *args, **kw)
    ctx.check(len(parts) == 3, "not three parts", got=len(parts))
    where = {}
    det = dict(splits=splits, frame=before.head(8), options=kw)
    for name, p in zip(("train", "test", "unused"), parts):
        ctx.check(list(p.columns) == list(before.columns) and list(map(str, p.dtypes)) == list(map(str, before.dtypes)), "columns or dtypes changed in %s" % name, got=list(p.columns), **det)
        rows = [int(r) for r in (p["row"].values if "row" in before.columns else before.index.get_indexer(p.index))]
        ctx.check(not rows or min(rows) >= 0, "index labels changed in %s" % name, got=p.head(5), **det)
        ctx.check(rows == sorted(rows), "row order changed in %s" % name, got=rows, **det)
        ctx.check(len(set(rows)) == len(rows), "row duplicated in %s" % name, got=rows, **det)
        for r in rows:
            ctx.check(r not in where, "row in two parts", row=r, **det)
            where[r] = name
        ctx.check(p.index.names == before.index.names and same(p, before.iloc[rows]), "row contents or index labels changed in %s" % name, got=p.head(5), want=before.iloc[rows].head(5), **det)
    ctx.check(len(where) == N, "row lost", got=len(where), want=N, **det)
    ctx.check(same(df, before), "the input frame was modified", **det)
    side = np.array([where[r] for r in range(N)])
    # criterion by criterion
    known, unknown = {}, []
    for c, (how, frac) in splits.items():
        S = pd.Series(before.index, index=before.index) if c is None else before[c]
        vals = values_of(S)
        if how == "random":
            unknown.append((c, vals, frac))
            continue
        u = distinct(vals)
        if how == "ordered":
            ok = []
            for k in range(1, len(u) + 1):
                m = np.array([v <= u[k - 1] for v in vals])
                if judge_ordered(S, frac, m) is None:
                    ok.append(m)
        else:
            ok, nv = [], sorted(set(num(v) for v in vals))
            for k in range(1, len(nv) + 1):
                m = np.array([num(v) <= nv[k - 1] for v in vals])
                if judge_linear(S, frac, m) is None:
                    ok.append(m)
        known[c] = ok
    masks = dict((c, None) for c, _, _ in unknown)
    for c, vals, frac in unknown:
        in_tr = set(v for v, s in zip(vals, side) if s == "train")
        in_te = set(v for v, s in zip(vals, side) if s == "test")
        ctx.check(not (in_tr & in_te), "rows with equal values separated by the random criterion", column=c, **det)
        n = len(set(vals))
        need = math.ceil(frac * n - 1e-7)
        ctx.check(len(in_tr) <= need + (1 if abs(frac * n - round(frac * n)) < 1e-7 else 0), "more values in train than the fraction allows", column=c, **det)
        ctx.check(n - len(in_te) >= need, "more values in test than the fraction allows", column=c, **det)
        # observed mask of this criterion, if the splitter was called for it
        for ev in ctx.log:
            S = ev.args[0] if ev.args else ev.kwargs.get("S")
            if ev.name == "data_splitter.random_split_series" and ev.error is None and len(S) == N and values_of(S) == vals and ev.arg(1, "frac") == frac:
                m = np.asarray(ev.result, dtype=bool)
                msg = judge_random(S, frac, m)
                ctx.check(msg is None, "random criterion: %s" % msg, column=c, **det)
                masks[c] = m
    import itertools

    def consistent(ms):
        tr = np.all(ms, axis=0)
        te = np.all(~np.array(ms), axis=0)
        want = np.where(tr, "train", np.where(te, "test", "unused"))
        return bool(np.all(want == side))

    if len(unknown) == 0:
        ctx.check(any(consistent(list(ms)) for ms in itertools.product(*known.values())), "rows are not placed by the conjunction of the criteria", got=side, **det)
    elif len(unknown) == 1 and len(splits) == 1:
        ctx.check(not np.any(side == "unused"), "rows unused with a single criterion", got=side, **det)
        c, vals, frac = unknown[0]
        msg = judge_random(pd.Series(vals), frac, side == "train")
        ctx.check(msg is None, "random criterion: %s" % msg, **det)
    elif all(m is not None for m in masks.values()):
        ctx.check(any(consistent(list(masks.values()) + list(ms)) for ms in itertools.product(*known.values())), "rows are not placed by the conjunction of the criteria", got=side, **det)
    elif len(unknown) == 1:
        # the random mask can be read off the rows that all other criteria put in train (test)
        c, vals, frac = unknown[0]
        good = False
        for ms in itertools.product(*known.values()):
            A, Z = np.all(ms, axis=0), np.all(~np.array(ms), axis=0)
            m = {}
            ok = True
            for v, s, a, z in zip(vals, side, A, Z):
                if a or z:
                    b = (s == "train") if a else (s != "test")
                    if a and s == "test" or z and s == "train" or m.setdefault(v, b) != b:
                        ok = False
                elif s != "unused":
                    ok = False
            good |= ok
        ctx.check(good, "rows are not placed by the conjunction of the criteria", got=side, **det)
    ctx.feature("criteria=%d" % len(splits), "idx:" + type(before.index).__name__, *["%s:%s" % (h, "index" if c is None else meta[c][0] if c in meta else "?") for c, (h, f) in splits.items()])
    if len(parts[0]) and len(parts[1]):
        ctx.note(before.drop(columns=["payload"], errors="ignore"), sorted((str(k), v) for k, v in splits.items()))
    ctx.sample(splits=splits, sizes=[len(p) for p in parts], options=kw)


# ---------------------------------------------------------------------------
C26 = Prop(
    "C26",
    "series of 1..60 values in nineteen types with heavy ties x fractions incl. 0, 1, exact multiples and their float neighbours x assumption "
    "flags x random streams; subset uniformity over thousands of draws; non-trivial when train and test are both non-empty",
    assumptions=["where fraction times count is an integer up to rounding, that integer or the next is accepted"],
)


def _judge(how):
    def f(ctx, ev):
        S, frac = ev.arg(0, "S"), float(ev.arg(1, "frac"))
        r = ev.result
        if not (isinstance(r, pd.Series) and r.index.equals(S.index) and len(r) == len(S)):
            return ctx.record("mask does not carry the index of the series", got=r)
        if np.asarray(r).dtype.kind not in "bO":
            return ctx.record("mask is not boolean", got=r.dtype)
        msg = JUDGE[how](S, frac, np.asarray(r, dtype=bool))
        if msg:
            ctx.record("%s split: %s" % (how, msg), S=S, frac=frac, mask=np.asarray(r, dtype=bool))

    return f


C26.hook("data_splitter.random_split_series")(_judge("random"))
C26.hook("data_splitter.ordered_split_series")(_judge("ordered"))
C26.hook("data_splitter.linear_split_series")(_judge("linear"))


@C26.hook("data_splitter.rand_subset")
def _rs(ctx, ev):
    x, frac = list(ev.arg(0, "x")), float(ev.arg(1, "frac"))
    got = list(ev.result)
    from collections import Counter

    def norm(v):
        if isinstance(v, np.datetime64):
            v = pd.Timestamp(v)
        elif isinstance(v, np.timedelta64):
            v = pd.Timedelta(v)
        return str(v)

    if Counter(map(norm, got)) - Counter(map(norm, x)):
        return ctx.record("subset holds something the list does not, or twice", got=got, x=x)
    if not counts_ok(len(got), len(x), frac):
        ctx.record("subset has the wrong size", got=len(got), n=len(x), frac=frac)


@C26.hook("data_splitter.rand_mask")
def _rm(ctx, ev):
    n, frac = int(ev.arg(0, "n_samples")), float(ev.arg(1, "frac"))
    m = np.asarray(ev.result)
    if m.shape != (n,) or m.dtype.kind != "b" or not counts_ok(int(m.sum()), n, frac):
        ctx.record("mask has the wrong shape or number of entries", got=m, frac=frac)


@C26.scenario(1800, 35000)
def splitter(ctx, rng):
    how = gen.pick(rng, ["random", "ordered", "linear"])
    N = gen.size(rng, 60, vast=0.003)
    kind = pick_kind(rng, {"linear": KINDS_LINEAR, "ordered": KINDS_ALL, "random": KINDS_RANDOM}[how])
    u, s = bool(rng.rand() < 0.4 and kind != "bool"), bool(rng.rand() < 0.4 and kind != "bool")
    S = pd.Series(column(rng, N, kind, u, s), index=gen.index(rng, N))
    if how == "random" and rng.rand() < 0.06:  # numbers and the strings naming them are different values
        kind = "mixed"
        S = pd.Series([v if rng.rand() < 0.5 else str(v) for v in rng.randint(1 + N // 2, size=N).tolist()], index=S.index, dtype=object)
    vals = values_of(S)
    u, s = len(set(vals)) == len(vals), kind != "mixed" and vals == sorted(vals)
    frac = fraction(rng, len(set(vals)))
    if rng.rand() < 0.15 and 0 < frac < 1:
        frac = float(np.nextafter(frac, gen.pick(rng, [0.0, 1.0])))
    f = L.ds.SPLITTER_LIB[how]
    seed = int(rng.randint(2 ** 31))
    np.random.seed(seed)
    base = ctx.call(f, S, frac)
    for flags in (dict(assume_sorted=True), dict(assume_unique=True), dict(assume_sorted=True, assume_unique=True), dict(assume_sorted=False, assume_unique=False)):
        if (flags.get("assume_sorted") and not s) or (flags.get("assume_unique") and not u):
            continue
        np.random.seed(seed)
        r = ctx.call(f, S, frac, **flags)
        ctx.check(np.array_equal(np.asarray(r, dtype=bool), np.asarray(base, dtype=bool)), "declaring what is true changed the split", how=how, S=S, frac=frac, flags=flags)
    # order of the rows is irrelevant for value based rules
    if how != "random" and N > 1:
        p = rng.permutation(N)
        r = ctx.call(f, S.iloc[p], frac)
        ctx.check(np.array_equal(np.asarray(r, dtype=bool), np.asarray(base, dtype=bool)[p]), "split depends on the order of the rows", how=how, S=S, frac=frac)
    if how == "random" and rng.rand() < 0.5:
        ctx.call(L.ds.rand_mask, N, frac)
        ctx.call(L.ds.rand_subset, gen.pick(rng, [range(N), list(range(N)), np.arange(N) * 3]), frac)
    if rng.rand() < 0.3:  # the same through the frame splitter
        df = pd.DataFrame({"v": S.values if S.index.is_unique else S.array, "row": np.arange(N)}, index=S.index)
        np.random.seed(seed)
        tr, te, un = ctx.call(L.ds.split_df, df, {"v": (how, frac)})
        m = np.zeros(N, dtype=bool)
        m[tr["row"].values] = True
        ctx.check(len(un) == 0 and sorted(tr["row"].tolist() + te["row"].tolist()) == list(range(N)), "a single criterion loses rows", sizes=(len(tr), len(te), len(un)))
        msg = JUDGE[how](S, frac, m)
        ctx.check(msg is None, "%s split of a frame: %s" % (how, msg), S=S, frac=frac, mask=m)
    for bad in (-0.01, 1.01):
        ctx.rejects(f, "fraction outside [0, 1]", S, bad)
    ctx.feature(how, kind, "unique" if u else "ties", "sorted" if s else "unsorted", "frac=0/1" if frac in (0.0, 1.0) else "frac inside")
    b = np.asarray(base, dtype=bool)
    if b.any() and not b.all():
        ctx.note(how, S, frac)
    ctx.sample(how=how, kind=kind, N=N, frac=frac, train=int(b.sum()))


@C26.scenario(40, 40)
def exact_fractions(ctx, rng):
    """Every k/n for n up to 40, in the arithmetic users write it."""
    n = ctx.index + 1
    S = pd.Series(np.arange(n))
    for k in range(n + 1):
        for frac in set((k / float(n), k * (1.0 / n), 1.0 - (n - k) / float(n))):
            if not 0.0 <= frac <= 1.0:
                continue
            m = np.asarray(ctx.call(L.ds.ordered_split_series, S, frac))
            ctx.check(m.sum() in (max(1, k), min(n, k + 1)), "ordered split has the wrong size", n=n, k=k, frac=frac, got=int(m.sum()))
            if frac == k / float(n):
                ctx.check(m.sum() == max(1, k), "more values than needed to reach the fraction", n=n, k=k, got=int(m.sum()))
            ctx.call(L.ds.random_split_series, S, frac)
            ctx.call(L.ds.linear_split_series, S, frac)
    ctx.note("exact", n)


@C26.scenario(240, 2400)
def large(ctx, rng):
    """Columns of hundreds or thousands of values, evenly spread or not."""
    how = gen.pick(rng, ["random", "ordered", "linear", "linear"])
    n = int(gen.pick(rng, [130, 257, 500, 1025, 3000]))
    v = gen.pick(rng, [lambda: rng.exponential(size=n) ** 3, lambda: rng.randn(n), lambda: rng.randint(0, 40, size=n) ** 4, lambda: np.r_[np.zeros(n - 1), 1.0], lambda: rng.permutation(n) * 1000])()
    if rng.rand() < 0.3:
        v = np.sort(v)
    if rng.rand() < 0.5:
        v = -v[::-1]
    S = pd.Series(v, index=gen.index(rng, n))
    ctx.call(L.ds.SPLITTER_LIB[how], S, fraction(rng, len(set(v.tolist()))))
    ctx.feature("large", how)
    ctx.note("large", how, S)


@C26.scenario(24, 200)
def uniform(ctx, rng):
    """Every value is equally likely, and pairs too."""
    n = gen.pick(rng, [2, 3, 4, 6, 9])
    frac = gen.pick(rng, [0.25, 0.5, 0.7])
    k = math.ceil(frac * n)
    reps = 3000
    vals = gen.pick(rng, [np.arange(n), np.array(["a%d" % i for i in range(n)], dtype=object), rng.randn(n)])
    S = pd.Series(np.repeat(vals, rng.randint(1, 4, size=n)))
    first = np.unique(pd.factorize(S)[0], return_index=True)[1]
    which = rng.rand() < 0.5
    C = np.zeros((n, n))
    ctx.in_oracle = True
    for _ in range(reps):
        m = np.asarray(L.ds.random_split_series(S, frac))[first] if which else np.asarray(L.ds.rand_mask(n, frac))
        C += np.outer(m, m)
    ctx.in_oracle = False
    p1 = k / float(n)
    z = 6.5
    ctx.check(bool(np.all(np.abs(np.diag(C) / reps - p1) <= z * math.sqrt(p1 * (1 - p1) / reps))), "values are not equally likely to be in train", got=np.diag(C) / reps, want=p1)
    p2 = p1 * (k - 1) / (n - 1.0)
    off = C[~np.eye(n, dtype=bool)] / reps
    ctx.check(bool(np.all(np.abs(off - p2) <= z * math.sqrt(max(p2 * (1 - p2), 1e-9) / reps) + 1e-9)), "pairs of values are not equally likely", got=(off.min(), off.max()), want=p2)
    ctx.note("uniform", n, frac, ctx.seed)


@C26.scenario(9, 60)
def uniform_large(ctx, rng):
    """Large splits are as random as small ones."""
    n = int(gen.pick(rng, [300, 600, 1100, 2300]))
    frac = gen.pick(rng, [0.4, 0.5, 0.6])
    k, reps = math.ceil(frac * n), 60
    vals = gen.pick(rng, [np.arange(n), rng.permutation(n) * 2, np.array(["v%05d" % i for i in rng.permutation(n)], dtype=object), rng.randn(n)])
    what = ["series", "mask", "subset"][ctx.index % 3]
    C, halves = np.zeros(n), []
    order = np.argsort(vals, kind="stable")
    ctx.in_oracle = True
    for _ in range(reps):
        if what == "series":
            m = np.asarray(L.ds.random_split_series(pd.Series(vals), frac), dtype=bool)
        elif what == "mask":
            m = np.asarray(L.ds.rand_mask(n, frac), dtype=bool)
        else:
            m = np.isin(vals, np.asarray(L.ds.rand_subset(vals, frac)))
        C += m
        halves.append((int(m[: n // 2].sum()), int(m[order][: n // 2].sum()), int(m[::2].sum())))
    ctx.in_oracle = False
    ctx.check(C.sum() == reps * k, "wrong number of values in train", n=n, frac=frac)
    ctx.check(bool(np.all((C > 0) & (C < reps))), "some values are always (or never) in train", what=what, n=n, frac=frac, got=C[:20])
    h = np.array(halves, dtype=float)
    for j, size in enumerate((n // 2, n // 2, (n + 1) // 2)):
        mean = k * size / float(n)
        sd = math.sqrt(k * (size / float(n)) * (1 - size / float(n)) * (n - k) / (n - 1.0))
        ctx.check(bool(np.all(np.abs(h[:, j] - mean) <= 7 * sd)) and abs(h[:, j].mean() - mean) <= 6.5 * sd / math.sqrt(reps) and len(set(h[:, j])) > 3, "one part of the data is preferred for train", what=what, n=n, got=h[:6, j], want=mean)
    ctx.note("uniform large", n, frac, what, ctx.seed)


# ---------------------------------------------------------------------------
C27 = Prop(
    "C27",
    "frames of 1..20 (now and then 300) rows x 1..5 columns (flat and hierarchical columns, named levels, six dtypes, any index) x 1..6 (now "
    "and then 14) lags x strides 1..5 (now and then 0, -1, -2) x "
    "feature subsets; every cell compared with its source cell; non-trivial when >= 2 lags and >= 2 rows",
    assumptions=["column labels are unique"],
)
C27.observe("data_splitter.build_lag_df")


def isna(v):
    r = pd.isnull(v)
    return bool(r) if np.ndim(r) == 0 else False


@C27.scenario(700, 12000)
def lags(ctx, rng):
    N, C = gen.pick(rng, [1, 2, 3, 5, 9, 20]), rng.randint(1, 6)
    if rng.rand() < 0.03:
        N = int(gen.pick(rng, [101, 150, 300, 700]))
    if rng.rand() < 0.3:
        tup = [("g%d" % (i % 2), "c%d" % i) for i in range(C)]
        cols = pd.MultiIndex.from_tuples(tup, names=gen.pick(rng, [None, ["grp", "col"], ["lagged", None]]))
    else:
        tup = gen.pick(rng, [["c%d" % i for i in range(C)], [C - i for i in range(C)], ["z", "a", 3, "L0", "L1"][:C]])
        cols = pd.Index(tup, name=gen.pick(rng, [None, "feature"]))
    data = [column(rng, N, gen.pick(rng, ["int", "float", "str", "date", "bool", "float"])) for _ in range(C)]
    df = pd.DataFrame(dict(enumerate(data)), index=gen.index(rng, N))
    df.columns = cols
    n_lags, stride = int(rng.randint(1, 7)), int(gen.pick(rng, [1, 1, 1, 2, 3, 5]))
    if rng.rand() < 0.08:
        n_lags = int(rng.randint(10, 15))
    if rng.rand() < 0.06:
        stride = int(gen.pick(rng, [0, -1, -2]))
    if N > 100:
        n_lags, stride = min(n_lags, 6), int(gen.pick(rng, [1, 7, 50, 130]))
    feats = None
    if rng.rand() < 0.6:
        k = rng.randint(1, C + 1)
        feats = [tup[i] for i in rng.permutation(C)[:k]]
    kw = {}
    if stride != 1 or rng.rand() < 0.4:
        kw["stride"] = stride
    if feats is not None or rng.rand() < 0.3:
        kw["features"] = feats if feats is None or rng.rand() < 0.6 or isinstance(cols, pd.MultiIndex) else gen.pick(rng, [tuple(feats), pd.Index(feats)])
    before = df.copy(deep=True)
    out = ctx.call(L.ds.build_lag_df, df, n_lags, **kw)
    det = dict(frame=before, n_lags=n_lags, options=kw)
    ctx.check(same(df, before), "the input frame was modified", **det)
    ctx.check(out.index.equals(before.index), "rows or index changed", got=out.index, **det)
    fl = tup if feats is None else feats
    want = [(t, 0) for t in tup] + [(t, k) for k in range(1, n_lags) for t in fl]
    as_t = lambda t: t if isinstance(t, tuple) else (t,)
    labels = [as_t(t) + ("L%d" % k,) for t, k in want]
    got = [as_t(c) for c in out.columns]
    ctx.check(len(got) == len(labels) and set(got) == set(labels), "columns are not the original columns at lag zero plus the features at each lag", got=got, want=labels, **det)
    ctx.check(got[: len(tup)] == labels[: len(tup)], "the original columns at lag zero do not come first", got=got, want=labels, **det)
    order = [int(g[-1][1:]) for g in got]
    ctx.check(order == sorted(order), "lags are not in increasing order", got=got, **det)
    ctx.check(list(out.columns.names) == list(cols.names) + ["lag"], "lag is not the innermost column level", got=list(out.columns.names), **det)
    pos = dict((g, i) for i, g in enumerate(got))
    for (t, k), lab in zip(want, labels):
        src = before.iloc[:, tup.index(t)].tolist()
        dst = out.iloc[:, pos[lab]].tolist()
        for r in range(N):
            q = r - k * stride
            if q < 0 or q >= N:
                ctx.check(isna(dst[r]), "value where there is no past", column=t, lag=k, row=r, got=dst[r], **det)
            else:
                ctx.check(dst[r] == src[q], "lagged value is not the value that many rows earlier", column=t, lag=k, row=r, got=dst[r], want=src[q], **det)
    ctx.same(out.iloc[:, : len(tup)].values.tolist(), before.values.tolist(), "lag zero differs from the original")
    ctx.feature("lags=%d" % n_lags, "stride=%d" % stride, "hier" if isinstance(cols, pd.MultiIndex) else "flat", "features" if feats else "all")
    if n_lags > 1 and N > 1:
        ctx.note(before, n_lags, stride, str(feats))
    ctx.sample(n_lags=n_lags, options=kw, columns=got[:8])
