"""C28-C33: rounding, printing, shifting and formatting of results tables."""
import decimal
import itertools
import re
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd

from rvmon import gen
from rvmon.core import L, Prop, same

INF = Decimal("Infinity")

# ---------------------------------------------------------------------------
# Exact arithmetic, independent of the decimal module's contexts
# ---------------------------------------------------------------------------


def frac10(k):
    return Fraction(10) ** k


def log10_floor(x):
    """floor(log10(x)) of a positive Fraction."""
    k = len(str(x.numerator)) - len(str(x.denominator))
    while frac10(k) > x:
        k -= 1
    while frac10(k + 1) <= x:
        k += 1
    return k


def ceil_frac(x):
    return -((-x.numerator) // x.denominator)


def half_up(x):
    """Nearest integer, ties away from zero."""
    s = -1 if x < 0 else 1
    x = abs(x)
    return s * ((2 * x.numerator + x.denominator) // (2 * x.denominator))


def dec_frac(d):
    return Fraction(d)


def n_digits(x):
    """Digits of the exact decimal expansion of a Fraction (None if infinite)."""
    d = Decimal(x.numerator) if x.denominator == 1 else None
    with decimal.localcontext() as c:
        c.prec = 2000
        d = Decimal(x.numerator) / Decimal(x.denominator)
    return len(d.as_tuple().digits)


def judge_eb(e, eb, digits, limit):
    """Message if Decimal eb is not float e rounded up to that many digits."""
    if np.isnan(e):
        return None if eb.is_nan() else "missing error bar became %s" % eb
    if np.isinf(e) or (limit is not None and Fraction(e) > frac10(limit)):
        return None if eb == INF else "error bar %r (limit %s) is not shown as infinite but as %s" % (e, limit, eb)
    if not eb.is_finite():
        return "finite error bar %r became %s" % (e, eb)
    x = Fraction(e)
    if x == 0:
        return None if eb == 0 else "zero error bar became %s" % eb
    a = log10_floor(x)
    q = frac10(a - digits + 1)
    want = ceil_frac(x / q) * q
    if dec_frac(eb) != want:
        return "error bar %r became %s, smallest value with %d digits not below it is %s" % (e, eb, digits, float(want))
    nd = len(eb.as_tuple().digits)
    if nd > digits:
        return "error bar %s has more than %d digits" % (eb, digits)
    if nd < digits and n_digits(x) != nd and not (want != x and n_digits(want) < nd):
        return "error bar %s of %r has fewer than %d digits" % (eb, e, digits)
    return None


def judge_mu(m, mu, eb, default_digits):
    if np.isnan(m):
        return None if mu.is_nan() else "missing estimate became %s" % mu
    if np.isinf(m):
        return None if mu == Decimal(m) else "infinite estimate became %s" % mu
    if not mu.is_finite():
        return "finite estimate %r became %s" % (m, mu)
    x = Fraction(m)
    if eb.is_finite() and eb != 0:
        ex = eb.as_tuple().exponent
        want = half_up(x / frac10(ex)) * frac10(ex)
        if dec_frac(mu) != want or mu.as_tuple().exponent != ex:
            return "estimate %r became %s, nearest at the precision of its error bar %s is %s" % (m, mu, eb, float(want))
        return None
    if x == 0:
        return None if mu == 0 else "zero estimate became %s" % mu
    a = log10_floor(abs(x))
    q = frac10(a - default_digits + 1)
    want = half_up(x / q) * q
    few = min(default_digits, len(Decimal(m).as_tuple().digits))
    if dec_frac(mu) != want or not few <= len(mu.as_tuple().digits) <= default_digits:
        return "estimate %r without a usable error bar became %s, at %d digits it is %s" % (m, mu, default_digits, float(want))
    return None


def judge_p(p, pd_, digits):
    if np.isnan(p):
        return None if pd_.is_nan() else "missing p-value became %s" % pd_
    if not pd_.is_finite():
        return "p-value %r became %s" % (p, pd_)
    want = ceil_frac(Fraction(p) * 10 ** digits)
    if dec_frac(pd_) != Fraction(want, 10 ** digits) or pd_.as_tuple().exponent != -digits:
        return "p-value %r became %s, rounded up to %d decimals it is %s" % (p, pd_, digits, want / 10.0 ** digits)
    return None


def judge_decimalize(tbl, out, err_digits, pval_digits, default_digits, limit):
    if not (isinstance(out, pd.DataFrame) and list(out.columns) == list(tbl.columns) and list(out.index) == list(tbl.index)):
        return "rows or columns changed"
    for i in range(len(tbl)):
        for metric in dict.fromkeys(c[0] for c in tbl.columns):
            pos = dict((c[1], j) for j, c in enumerate(tbl.columns) if c[0] == metric)
            m, e, p = (float(tbl.iat[i, pos[s]]) for s in ("mean", "error", "p"))
            mu, eb, pv = (out.iat[i, pos[s]] for s in ("mean", "error", "p"))
            if not all(isinstance(d, Decimal) for d in (mu, eb, pv)):
                return "entry is not a Decimal: %r" % ((mu, eb, pv),)
            msg = judge_eb(e, eb, err_digits, limit.get(metric)) or judge_mu(m, mu, eb, default_digits) or judge_p(p, pv, pval_digits)
            if msg:
                return "%s/%s: %s" % (tbl.index[i], metric, msg)
    return None


# ---------------------------------------------------------------------------
# Reader of printed numbers
# ---------------------------------------------------------------------------

NUM = r"(-?)((?:\d{1,3}(?:,\d{3})+)|\d+)(?:\.(\d+))?"
EST = re.compile(r"^%s(?:\((\d+)\))?$" % NUM)


def read_number(s):
    """(Fraction, decimals, bracketed digits or None) of a printed estimate."""
    m = EST.match(s)
    if not m:
        return None
    sign, ip, fp, br = m.groups()
    ip = ip.replace(",", "")
    if len(ip) > 3 and "," not in s.split(".")[0]:
        return None
    if len(ip) > 1 and ip[0] == "0":
        return None
    k = len(fp) if fp else 0
    v = Fraction(int(ip + (fp or "")), 10 ** k)
    return (-v if sign else v), k, (None if br is None else Fraction(int(br), 10 ** k))


def judge_printed(s, mu, eb, shift, lo=None, hi=None, nff=(), below="<", above=">"):
    """Message if text s does not denote Decimal estimate mu with error bar eb."""
    nff = dict(nff)
    if not isinstance(s, str):
        return "not a string: %r" % (s,)
    sc = frac10(shift)
    if not mu.is_nan():
        x = None if mu.is_infinite() else dec_frac(mu)
        for lim, beyond, sym in ((hi, mu.is_infinite() and mu > 0, above), (lo, mu.is_infinite() and mu < 0, below)):
            if lim is None:
                continue
            if beyond or (x is not None and ((sym is above and x > lim) or (sym is below and x < lim))):
                r = read_number(s[len(sym):]) if s.startswith(sym) else None
                if r is None or r[2] is not None or r[0] != lim * sc:
                    return "estimate %s beyond its limit %s prints as %r" % (mu, float(lim), s)
                return None
    if not mu.is_finite():
        name = "nan" if mu.is_nan() else "inf" if mu > 0 else "-inf"
        want = nff.get(name, name)
        return None if s == want else "estimate %s prints as %r, want %r" % (mu, s, want)
    r = read_number(s)
    if r is None:
        return "estimate %s (error bar %s, shift %d) prints as %r, which is not a number" % (mu, eb, shift, s)
    v, k, br = r
    if v != dec_frac(mu) * sc:
        return "estimate %s with shift %d prints as %r" % (mu, shift, s)
    if k != max(0, -(mu.as_tuple().exponent + shift)):
        return "estimate %s with shift %d prints as %r: not all its digits and no more" % (mu, shift, s)
    if eb.is_finite():
        if br is None or br != dec_frac(eb) * sc:
            return "error bar %s of %s with shift %d prints as %r" % (eb, mu, shift, s)
    elif br is not None:
        return "error bar %s prints as %r" % (eb, s)
    return None


def judge_printed_p(s, p, nff=(), below="<"):
    nff = dict(nff)
    if not isinstance(s, str):
        return "not a string: %r" % (s,)
    if p.is_nan():
        return None if s == nff.get("nan", "nan") else "missing p-value prints as %r" % s
    eps = frac10(p.as_tuple().exponent)
    x = dec_frac(p)
    if x <= eps:
        r = read_number(s[len(below):]) if s.startswith(below) else None
        return None if r is not None and r[0] == eps and r[2] is None else "p-value %s prints as %r" % (p, s)
    r = read_number(s)
    if r is None or r[0] != x or r[2] is not None or r[1] != -p.as_tuple().exponent:
        return "p-value %s prints as %r" % (p, s)
    return None


# ---------------------------------------------------------------------------
# Shift oracle
# ---------------------------------------------------------------------------


def printed_len(mu, eb, shift):
    t = mu.as_tuple()
    e = t.exponent + shift
    n = t.sign + max(1, len(t.digits) + e) - e
    if eb.is_finite():
        n += len(eb.as_tuple().digits) + 2
    return n


def allowed_shifts(mus, ebs, mod):
    """Every shift that satisfies the requirements (several only on +- ties)."""
    if len(mus) == 0:
        return [0]
    top = min(-mu.as_tuple().exponent for mu in mus)
    top = (top // mod) * mod
    nz = [mu for mu in mus if mu != 0]
    cand = []
    if nz:
        lo = min(-mu.adjusted() for mu in nz)
        cand = [s for s in range(lo, top + 1) if s % mod == 0]
    if not cand:
        return [top]
    cost = dict((s, (max(printed_len(m, e, s) for m, e in zip(mus, ebs)), abs(s))) for s in cand)
    best = min(cost.values())
    return [s for s in cand if cost[s] == best]


# ---------------------------------------------------------------------------
# Generators
# ---------------------------------------------------------------------------


def magnitude(rng, lo=-9, hi=9):
    return 10.0 ** rng.randint(lo, hi + 1)


def number(rng, scale):
    r = rng.randint(12)
    if r == 0:
        x = 0.0
    elif r == 1:
        x = scale  # exact power of ten (as a float)
    elif r == 2:
        x = float(np.nextafter(scale, gen.pick(rng, [0.0, np.inf])))
    elif r == 3:
        x = scale * gen.pick(rng, [0.5, 0.25, 2.5, 0.125, 1.5, 0.375])
    elif r == 4:
        x = scale * gen.pick(rng, [9.995, 99.5, 0.0996, 0.995, 999.95, 9.5, 0.99995])
    elif r == 5:
        x = scale * rng.randint(1, 1000) / 100.0
    elif r == 6:
        x = float(rng.randint(1, 20))
    elif r == 7:
        x = scale * rng.randint(1, 4000) / 16.0  # exact ties at several precisions
    else:
        x = scale * float(np.exp(rng.randn()))
    return x if rng.rand() < 0.6 else -x


def error_bar(rng, m, scale):
    r = rng.randint(14)
    if r == 0:
        return 0.0
    if r == 1:
        return np.nan
    if r == 2:
        return np.inf
    base = scale * 10.0 ** rng.randint(-6, 3)
    return abs(number(rng, base))


def p_value(rng):
    r = rng.randint(8)
    if r == 0:
        return np.nan
    if r == 1:
        return float(gen.pick(rng, [0.0, 1.0, 1e-300, 5e-5, 1e-4, 0.05, 0.99995, 0.0002, 0.2, 0.5]))
    if r == 2:
        return float(np.nextafter(gen.pick(rng, [1e-4, 0.05, 2e-4, 0.5, 0.0625]), gen.pick(rng, [0.0, 1.0])))
    if r == 3:
        return float(10.0 ** rng.uniform(-8, 0))
    if r == 4:
        return rng.randint(0, 10001) / 10000.0
    return float(rng.rand())


STATS = ["mean", "error", "p"]


def results_table(rng, clipmin=None, clipmax=None, nmax=4, big=0.0, wild=False, numbered=0.0):
    M = gen.pick(rng, [1, 1, 2, 3, 5, 8])
    methods = gen.names(rng, M)
    metrics = gen.metric_names(rng, rng.randint(1, nmax))
    if big and rng.rand() < big:  # longer or wider than any display default
        if rng.rand() < 0.5:
            M = int(gen.pick(rng, [30, 70, 120]))
            methods, metrics = ["net %03d" % i for i in rng.permutation(M)], metrics[:1]
        else:
            M = min(M, 2)
            methods, metrics = methods[:M], ["met_%02d" % i for i in rng.permutation(int(gen.pick(rng, [9, 15, 30])))]
    elif numbered and rng.rand() < numbered:
        methods = [int(i) for i in rng.permutation(M + 2)[:M]]
    cols, data = [], []
    for met in metrics:
        scale = magnitude(rng, -45, 45) if wild else magnitude(rng)
        mixed = rng.rand() < 0.3
        m, e, p = [], [], []
        const = rng.rand() < 0.15
        for i in range(M):
            sc = magnitude(rng, -6, 6) if mixed else scale
            x = number(rng, sc)
            if const and m:
                x = m[0]
            err = error_bar(rng, x, sc)
            if 0 < err < abs(x) * 1e-15:
                err = abs(x) * 1e-12
            m.append(x), e.append(err), p.append(p_value(rng))
        m = [0.0 if rng.rand() < 0.05 else x for x in m]
        for s, v in zip(STATS, (m, e, p)):
            cols.append((met, s))
            data.append(v)
    order = list(range(len(cols)))
    r = rng.rand()
    if r < 0.15:
        rng.shuffle(order)
    elif r < 0.3:
        order = sorted(order, key=lambda i: cols[i])
    tbl = pd.DataFrame(np.array([data[i] for i in order], dtype=float).T, index=pd.Index(methods, name="method"))
    tbl.columns = pd.MultiIndex.from_tuples([cols[i] for i in order], names=["metric", "stat"])
    return gen.sliced(rng, tbl), metrics


def own_round(e, m, p, limit, err_digits=2, pval_digits=4, default_digits=5):
    """Reference rounding as Decimals (exact rational arithmetic)."""

    def mk(v, ex):
        n = v / frac10(ex)
        assert n.denominator == 1
        n = int(n)
        return Decimal((1 if n < 0 else 0, tuple(int(c) for c in str(abs(n))), ex))

    if np.isnan(e):
        eb = Decimal("NaN")
    elif np.isinf(e) or (limit is not None and Fraction(e) > frac10(limit)):
        eb = INF
    elif e == 0:
        eb = Decimal(0)
    else:
        x = Fraction(e)
        a = log10_floor(x)
        ex = a - err_digits + 1
        v = ceil_frac(x / frac10(ex)) * frac10(ex)
        if v >= frac10(a + 1):
            ex += 1
        # floats with fewer digits keep their own precision
        while v == x and ex < a and (v / frac10(ex + 1)).denominator == 1 and n_digits(x) <= err_digits and ex < 0:
            ex += 1
        eb = mk(v, ex)
    if eb.is_finite() and eb != 0:
        ex = eb.as_tuple().exponent
        mu = mk(half_up(Fraction(m) / frac10(ex)) * frac10(ex), ex)
    elif m == 0:
        mu = Decimal(0)
    else:
        x = Fraction(m)
        ex = log10_floor(abs(x)) - default_digits + 1
        v = half_up(x / frac10(ex)) * frac10(ex)
        while (v / frac10(ex + 1)).denominator == 1 and ex < 0:
            ex += 1
        mu = mk(v, ex)
    return mu, eb


def limits(rng, tbl, metrics, out=True):
    """Random clip limits per metric and error bar limits."""
    cmax, cmin, ebl = {}, {}, {}
    for met in metrics:
        a = np.nanmax(np.abs(tbl[(met, "mean")].values))
        k = int(np.floor(np.log10(a))) if a > 0 and np.isfinite(a) else 0
        if rng.rand() < 0.35:
            cmax[met] = k + int(rng.randint(-2, 3))
        if rng.rand() < 0.35:
            cmin[met] = k + int(rng.randint(-2, 3))
        if rng.rand() < 0.3:
            e = tbl[(met, "error")].values
            e = e[np.isfinite(e) & (e > 0)]
            ebl[met] = (int(np.floor(np.log10(gen.pick(rng, list(e))))) if len(e) else 0) + int(rng.randint(-1, 3))
    return cmax, cmin, ebl


# ---------------------------------------------------------------------------
C28 = Prop(
    "C28",
    "tables of 1..8 methods x 1..3 metrics in any column order with magnitudes 1e-9..1e9, exact ties, powers of ten and their float "
    "neighbours, zero/infinite/missing error bars x digit settings x error bar limits; non-trivial when some error bar is finite and positive",
    assumptions=["the ratio of estimate to error bar stays below 1e20", "unique method names"],
)


@C28.hook("sciprint.decimalize")
def _dec(ctx, ev):
    tbl = ev.arg(0, "perf_tbl")
    msg = judge_decimalize(
        tbl, ev.result, ev.arg(1, "err_digits", 2), ev.arg(2, "pval_digits", 4), ev.arg(3, "default_digits", 5), ev.arg(4, "EB_limit", {})
    )
    if msg:
        ctx.record(msg, table=tbl, options=(ev.args[1:], ev.kwargs))


@C28.hook("sciprint.create_decimal")
def _cd(ctx, ev):
    x, digits = ev.arg(0, "x"), ev.arg(1, "digits")
    rounding = ev.arg(2, "rounding", decimal.ROUND_HALF_UP)
    got = ev.result
    x = Decimal(x)
    if not x.is_finite():
        ok = str(got) == str(x)
    elif x == 0:
        ok = got == 0
    else:
        f = Fraction(x)
        a = log10_floor(abs(f))
        q = frac10(a - digits + 1)
        n = {decimal.ROUND_HALF_UP: half_up, decimal.ROUND_CEILING: ceil_frac, decimal.ROUND_FLOOR: lambda z: z.numerator // z.denominator}.get(rounding)
        ok = n is None or (Fraction(got) == n(f / q) * q and len(got.as_tuple().digits) <= digits)
    if not ok:
        ctx.record("create_decimal(%r, %r, %r) is %s" % (x, digits, rounding, got))


@C28.scenario(700, 14000)
def rounding(ctx, rng):
    tbl, metrics = results_table(rng, wild=bool(rng.rand() < 0.15), big=0.04, numbered=0.08)
    _, _, ebl = limits(rng, tbl, metrics)
    kw = {}
    if rng.rand() < 0.6:
        kw["EB_limit"] = ebl
    if rng.rand() < 0.4:
        kw["err_digits"] = int(rng.randint(1, 6))
    if rng.rand() < 0.4:
        kw["pval_digits"] = int(rng.randint(1, 9))
    if rng.rand() < 0.4:
        kw["default_digits"] = int(rng.randint(1, 10))
    r = rng.rand()
    if r < 0.12:  # non-finite estimates are representable here
        tbl.iloc[rng.randint(len(tbl)), [i for i, c in enumerate(tbl.columns) if c[1] == "mean"][0]] = gen.pick(rng, [np.inf, -np.inf])
        met = [c[0] for c in tbl.columns if c[1] == "mean"][0]
        tbl[(met, "error")] = gen.pick(rng, [np.inf, np.nan])
        ctx.feature("infinite estimate")
    before = tbl.copy(deep=True)
    ctx.call(L.sp.decimalize, tbl, **kw)
    ctx.check(same(tbl, before), "the results table was modified", table=before)
    E = tbl.xs("error", axis=1, level=1).values
    if np.any(np.isfinite(E) & (E > 0)):
        ctx.note(tbl, sorted(map(str, kw.items())))
    ctx.feature("columns:" + ("standard" if [c[1] for c in tbl.columns] == STATS * len(metrics) else "reordered"), "metrics=%d" % len(metrics))
    ctx.feature(*["option:" + k for k in kw])
    ctx.sample(table=tbl, options=kw)


@C28.scenario(400, 8000)
def single(ctx, rng):
    x = number(rng, magnitude(rng, -20, 20)) if rng.rand() < 0.9 else gen.pick(rng, [np.inf, -np.inf, np.nan])
    for digits in (1, 2, 3, 5, 8):
        for r in (decimal.ROUND_HALF_UP, decimal.ROUND_CEILING, None):
            y = ctx.call(L.sp.create_decimal, x, digits, *([] if r is None else [r]))
            ctx.check(isinstance(y, Decimal), "not a Decimal", got=y)
    ctx.note(float(x))


# ---------------------------------------------------------------------------
C29 = Prop(
    "C29",
    "decimals of 1..20 digits with exponents -25..12, error bars of the same exponent (or zero/infinite/missing) x all printable shifts in "
    "a window x clip limits near the value x formats; non-trivial when the number is finite",
    assumptions=["at most 28 digits (the decimal context)", "min clip below max clip"],
)


@C29.hook("sciprint.print_estimate")
def _pe(ctx, ev):
    mu, eb = ev.arg(0, "mu"), ev.arg(1, "EB")
    shift = int(ev.arg(2, "shift", 0))
    lo, hi = ev.arg(3, "min_clip", -INF), ev.arg(4, "max_clip", INF)
    below, above = ev.arg(5, "below_fmt", "<{0:,f}"), ev.arg(6, "above_fmt", ">{0:,f}")
    msg = judge_printed(
        ev.result, mu, eb, shift, Fraction(lo) if lo.is_finite() else None, Fraction(hi) if hi.is_finite() else None,
        ev.arg(7, "non_finite_fmt", {}), below.split("{")[0], above.split("{")[0],
    )
    if msg:
        ctx.record(msg)


@C29.hook("sciprint.print_pval")
def _pp(ctx, ev):
    below = ev.arg(1, "below_fmt", "<{0:,f}")
    msg = judge_printed_p(ev.result, ev.arg(0, "pval"), ev.arg(2, "non_finite_fmt", {}), below.split("{")[0])
    if msg:
        ctx.record(msg)


NFF = [{}, {"nan": "N/A"}, {"nan": "--", "inf": r"\infty", "-inf": r"-\infty"}, {"inf": "big"}, {"-inf": "small"}]


def rand_decimal(rng, ex=None):
    nd = gen.pick(rng, [1, 1, 2, 2, 3, 4, 5, 8, 12, 20])
    ex = int(rng.randint(-25, 13)) if ex is None else ex
    dg = [int(d) for d in rng.randint(10, size=nd)]
    if rng.rand() < 0.1:
        dg = [9] * nd
    if rng.rand() < 0.1:
        dg = [1] + [0] * (nd - 1)
    if rng.rand() < 0.07:
        dg = [0]
    elif dg[0] == 0:
        dg[0] = 1
    return Decimal((int(rng.rand() < 0.4), tuple(dg), ex))


def rand_eb(rng, mu):
    r = rng.randint(8)
    if r == 0:
        return Decimal("NaN")
    if r == 1:
        return INF
    if r == 2:
        return Decimal(gen.pick(rng, ["0", "0.00", "0E+2"]))
    ex = mu.as_tuple().exponent
    return Decimal((0, tuple([int(rng.randint(1, 10))] + [int(d) for d in rng.randint(10, size=gen.pick(rng, [0, 1, 1, 1, 2]))]), ex))


@C29.scenario(900, 18000)
def estimates(ctx, rng):
    nff = gen.pick(rng, NFF)
    if rng.rand() < 0.12:
        mu = Decimal(gen.pick(rng, ["NaN", "Infinity", "-Infinity"]))
        eb = gen.pick(rng, [INF, Decimal("NaN"), Decimal("0.12")])
        shifts = [-3, 0, 4]
    else:
        mu = rand_decimal(rng)
        eb = rand_eb(rng, mu)
        top = -mu.as_tuple().exponent
        shifts = sorted(set([top, top - 1, top - 2, top - 3, top - 5, min(top, 0), min(top, 3), min(top, -3), min(top, 6)]))
        ctx.note(mu, eb)
    kw = {}
    if nff:
        kw["non_finite_fmt"] = nff
    if rng.rand() < 0.5:
        k = mu.adjusted() if mu.is_finite() and mu != 0 else 0
        kind = rng.randint(5)
        if kind <= 1:
            kw["max_clip"] = Decimal((0, (1,), k + int(rng.randint(-2, 3))))
        if kind >= 1 and kind <= 3:
            kw["min_clip"] = Decimal((1, (1,), k + int(rng.randint(-2, 3))))
        if kind == 4 and mu.is_finite():  # limit exactly at the value
            kw[gen.pick(rng, ["min_clip", "max_clip"])] = mu
            ctx.feature("value at the limit")
        if rng.rand() < 0.2:
            kw["below_fmt"], kw["above_fmt"] = "$<${0:,f}", "above {0:,f}"
    for s in shifts:
        ctx.call(L.sp.print_estimate, mu, eb, *([] if s == 0 and rng.rand() < 0.5 else [gen.pick(rng, [s, np.int64(s)])]), **kw)
    ctx.feature("eb:" + ("finite" if eb.is_finite() and eb else str(eb)), *["option:" + k for k in kw])
    ctx.sample(mu=mu, EB=eb, shifts=shifts, options=kw)


@C29.scenario(400, 8000)
def pvals(ctx, rng):
    d = int(rng.randint(1, 9))
    n = int(gen.pick(rng, [0, 1, 2, 10 ** d, 10 ** d - 1, int(rng.randint(10 ** min(d, 6)))]))
    n = min(n, 10 ** d)
    p = Decimal((0, tuple(int(c) for c in str(n)), -d)) if rng.rand() < 0.9 else Decimal("NaN")
    kw = {}
    nff = gen.pick(rng, NFF)
    if nff:
        kw["non_finite_fmt"] = nff
    if rng.rand() < 0.2:
        kw["below_fmt"] = "less than {0:f}"
    ctx.call(L.sp.print_pval, p, **kw)
    ctx.note(p)


@C29.scenario(150, 2500)
def through_tables(ctx, rng):
    tbl, metrics = results_table(rng)
    cmax, cmin, ebl = limits(rng, tbl, metrics)
    dec = ctx.call(L.sp.decimalize, tbl, EB_limit=ebl)
    ctx.call(L.sp.format_table, dec, shift_mod=gen.pick(rng, [1, 3]), crap_limit_max=cmax, crap_limit_min=cmin, non_finite_fmt=gen.pick(rng, NFF))
    ctx.note(tbl)


# ---------------------------------------------------------------------------
C30 = Prop(
    "C30",
    "columns of 1..8 decimals with equal or mixed exponents and magnitudes, zeros, all-small and all-large columns x moduli 1..4; every "
    "shift is enumerated by the oracle; non-trivial when more than one shift is admissible",
    assumptions=["ties between +k and -k may go either way"],
)


def column_dec(rng):
    n = gen.pick(rng, [1, 2, 3, 4, 8])
    if rng.rand() < 0.03:
        n = int(gen.pick(rng, [30, 70, 130]))
    kind = rng.randint(5)
    ex0 = int(rng.randint(-14, 9))
    mus, ebs = [], []
    for _ in range(n):
        ex = ex0 if kind in (0, 1) else ex0 + int(rng.randint(-4, 5)) if kind < 4 else int(rng.randint(-14, 9))
        mu = rand_decimal(rng, ex)
        if rng.rand() < 0.06:
            mu = Decimal((0, (0,), ex))
        mus.append(mu)
        ebs.append(rand_eb(rng, mu))
    if n >= 30 and rng.rand() < 0.6:  # one value far above the others
        i = rng.randint(n)
        mus[i] = mus[i].scaleb(6)
        ebs[i] = rand_eb(rng, mus[i])
    return mus, ebs


@C30.hook("sciprint.find_shift")
def _fs(ctx, ev):
    mus, ebs, mod = list(ev.arg(0, "mean_list")), list(ev.arg(1, "err_list")), int(ev.arg(2, "shift_mod", 1))
    ok = allowed_shifts(mus, ebs, mod)
    got = int(ev.result)
    if got != ev.result or got not in ok:
        ctx.record("shift %s chosen, admissible and most compact: %s" % (ev.result, ok), means=mus, errors=ebs, modulus=mod)


@C30.scenario(1500, 30000)
def columns(ctx, rng):
    mus, ebs = column_dec(rng)
    mod = gen.pick(rng, [1, 1, 2, 3, 3, 4])
    s = ctx.call(L.sp.find_shift, mus, ebs, **({} if mod == 1 and rng.rand() < 0.5 else {"shift_mod": mod}))
    for mu in mus:
        ctx.check(mu.as_tuple().exponent + int(s) <= 0, "an estimate loses digits under the shift", shift=s, means=mus)
    ctx.check(int(s) % mod == 0, "not a multiple of the modulus", shift=s, modulus=mod)
    for mu, eb in zip(mus, ebs):
        ctx.call(L.sp.print_estimate, mu, eb, s)
    top = min(-m.as_tuple().exponent for m in mus)
    nz = [-m.adjusted() for m in mus if m]
    if nz and min(nz) + mod <= top:
        ctx.note(mus, ebs, mod)
        ctx.feature("choice")
    elif nz and min(nz) > top:
        ctx.feature("all small")
    ctx.feature("mod=%d" % mod)
    ctx.sample(means=mus, errors=ebs, modulus=mod, shift=s)


@C30.scenario(250, 5000)
def in_tables(ctx, rng):
    tbl, metrics = results_table(rng)
    cmax, cmin, ebl = limits(rng, tbl, metrics)
    dec = ctx.call(L.sp.decimalize, tbl, EB_limit=ebl)
    mod = gen.pick(rng, [1, 2, 3])
    _, shifts = ctx.call(L.sp.format_table, dec, shift_mod=mod, crap_limit_max=cmax, crap_limit_min=cmin)
    for met in metrics:
        lo, hi = clips(met, cmin, cmax)
        keep = [(m, e) for m, e in zip(dec[(met, "mean")], dec[(met, "error")]) if not clipped(m, lo, hi)]
        ok = allowed_shifts([m for m, _ in keep], [e for _, e in keep], mod)
        ctx.check(int(shifts[met]) in ok, "shift of a table column", metric=met, got=shifts[met], want=ok, table=tbl)
    ctx.note(tbl)


def clips(met, cmin, cmax):
    return (-frac10(cmin[met]) if met in cmin else None), (frac10(cmax[met]) if met in cmax else None)


def clipped(m, lo, hi):
    if m.is_infinite():
        return (hi is not None) if m > 0 else (lo is not None)
    x = Fraction(m)
    return (lo is not None and x < lo) or (hi is not None and x > hi)


# ---------------------------------------------------------------------------
C31 = Prop(
    "C31",
    "rounded tables of 1..8 methods x 1..3 metrics (any column order, zeros, missing error bars, mixed magnitudes) x moduli x clip limits "
    "x padding x non-finite formats; every entry is read back; non-trivial when some column has a non-zero shift or a clipped entry",
    assumptions=["unclipped estimates are finite"],
)


def right_tail(s):
    """Characters from the last integer digit's right edge to the end."""
    for ch in ".(":
        if ch in s:
            return len(s) - s.index(ch)
    return len(s) - len(s.rstrip(" "))


def judge_format(dec, out, mod, pad, cmax, cmin, nff):
    try:
        tbl, shifts = out
    except Exception:
        return "not a pair of table and shifts"
    metrics = list(dict.fromkeys(c[0] for c in dec.columns))
    if list(tbl.index) != list(dec.index):
        return "rows changed"
    if sorted(tbl.columns.tolist()) != sorted((m, s) for m in metrics for s in ("estimate", "p")):
        return "columns are %s" % list(tbl.columns)
    if sorted(shifts) != sorted(metrics):
        return "shifts reported for %s" % sorted(shifts)
    for met in metrics:
        lo, hi = clips(met, cmin, cmax)
        s = shifts[met]
        keep = [(m, e) for m, e in zip(dec[(met, "mean")], dec[(met, "error")]) if not clipped(m, lo, hi)]
        if mod is None:
            if s != 0:
                return "shift %s without shifting" % s
        elif s % mod != 0 or int(s) not in allowed_shifts([m for m, _ in keep], [e for _, e in keep], mod):
            return "shift %s of %s is not the one of the unclipped entries" % (s, met)
        est = list(tbl[(met, "estimate")])
        for name, text, mu, eb, pt, p in zip(dec.index, est, dec[(met, "mean")], dec[(met, "error")], tbl[(met, "p")], dec[(met, "p")]):
            if not pad and isinstance(text, str) and text != text.strip():
                return "padding where none was asked for"
            msg = judge_printed(str(text).rstrip(" "), mu, eb, int(s), lo, hi, nff) or judge_printed_p(pt, p, nff)
            if msg:
                return "%s/%s: %s" % (name, met, msg)
        if pad and len(set(right_tail(t) for t in est)) != 1:
            return "decimal points not aligned: %s" % est
        if pad and not any(t == t.rstrip(" ") for t in est):
            return "superfluous padding: %s" % est
    return None


@C31.hook("sciprint.format_table")
def _ft(ctx, ev):
    dec = ev.arg(0, "perf_tbl_dec")
    msg = judge_format(dec, ev.result, ev.arg(1, "shift_mod", None), ev.arg(2, "pad", True), ev.arg(3, "crap_limit_max", {}), ev.arg(4, "crap_limit_min", {}), ev.arg(5, "non_finite_fmt", {}))
    if msg:
        ctx.record(msg, table=dec, options=(ev.args[1:], ev.kwargs))


@C31.hook("sciprint.pad_num_str")
def _pad(ctx, ev):
    src, ch, out = list(ev.arg(0, "num_str_list")), ev.arg(1, "pad", " "), list(ev.result)
    if len(out) != len(src) or any(o[: len(s)] != s or o[len(s):] != ch * (len(o) - len(s)) for s, o in zip(src, out)):
        return ctx.record("padding changed an entry", src=src, got=out)
    tails = [len(o) - (s.index(".") if "." in s else s.index("(") if "(" in s else len(s)) for s, o in zip(src, out)]
    if len(set(tails)) > 1:
        return ctx.record("decimal points not aligned", src=src, got=out)
    if not any(o == s for s, o in zip(src, out)):
        ctx.record("superfluous padding", src=src, got=out)


def dec_ok_unshifted(dec, metrics, cmax, cmin):
    for met in metrics:
        lo, hi = clips(met, cmin, cmax)
        if any(not clipped(m, lo, hi) and m.as_tuple().exponent > 0 for m in dec[(met, "mean")]):
            return False
    return True


@C31.scenario(700, 14000)
def tables(ctx, rng):
    tbl, metrics = results_table(rng, big=0.05, numbered=0.1)
    cmax, cmin, ebl = limits(rng, tbl, metrics)
    if rng.rand() < 0.1:
        met = gen.pick(rng, metrics)
        cmax[met] = cmax.get(met, 2)
        tbl.loc[gen.pick(rng, list(tbl.index)), [(met, "mean"), (met, "error")]] = [np.inf, np.nan]
        ctx.feature("infinite clipped")
    ctx.in_oracle = True
    dec = ctx.call(L.sp.decimalize, tbl, EB_limit=ebl)
    ctx.in_oracle = False
    before = dec.copy(deep=True)
    kw = {}
    mod = gen.pick(rng, [None, 1, 3, 3, 2])
    if mod is None and not dec_ok_unshifted(dec, metrics, cmax, cmin):
        mod = 3
    if mod is not None:
        kw["shift_mod"] = mod
    if rng.rand() < 0.4:
        kw["pad"] = bool(rng.rand() < 0.5)
    if cmax:
        kw["crap_limit_max"] = cmax
    if cmin:
        kw["crap_limit_min"] = cmin
    nff = gen.pick(rng, NFF)
    if nff:
        kw["non_finite_fmt"] = nff
    tb, shifts = ctx.call(L.sp.format_table, dec, **kw)
    ctx.check(same(dec, before), "the rounded table was modified", table=before)
    n_clip = 0
    for met in metrics:
        lo, hi = clips(met, cmin, cmax)
        n_clip += sum(clipped(m, lo, hi) for m in dec[(met, "mean")])
    if n_clip:
        ctx.feature("clipped entries")
    if n_clip or any(shifts.values()):
        ctx.note(dec, sorted(map(str, kw.items())))
    ctx.feature("mod=%s" % mod, *["option:" + k for k in kw])
    ctx.sample(table=tb, shifts=shifts, options=kw)


@C31.scenario(250, 4000)
def padding(ctx, rng):
    pool = ["0", "12", "1,234", "-3", "0.5", "1.25", "-0.001", "3.0(12)", "120(3)", "1,200.5(7)", ">100", "<0.1", "<-1,000", "nan", "N/A", "--", "5(0)", r"\infty"]
    xs = [gen.pick(rng, pool) for _ in range(rng.randint(1, 8))]
    ctx.call(L.sp.pad_num_str, xs, *([gen.pick(rng, ["_", " "])] if rng.rand() < 0.3 else []))
    ctx.note(xs)


# ---------------------------------------------------------------------------
C32 = Prop(
    "C32",
    "every shift from -40 to 40 x unit present or absent x prefix flag x TeX flag (exhaustive), metric names with and without underscores; "
    "the scaling is read back from the header text; non-trivial when the shift is not zero",
    assumptions=["metric names are strings"],
)

SI = {"y": -24, "z": -21, "a": -18, "f": -15, "p": -12, "n": -9, "u": -6, "m": -3, "c": -2, "d": -1, "": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21, "Y": 24}
SI_TEX = dict((r"$\mu$" if k == "u" else k, v) for k, v in SI.items())


def read_header(text, metric, unit, tex):
    """(explicit power or None, prefix power or None, message)."""
    name = metric.replace("_", " ")
    if tex:
        if not (text.startswith("{") and text.endswith("}")):
            return None, None, "header %r is not enclosed in braces" % text
        text = text[1:-1]
    if not text.startswith(name):
        return None, None, "header %r does not name the metric %r" % (text, metric)
    rest = text[len(name):]
    pw = None
    m = re.match(r"^ \$\\times 10\^\{(-?\d+)\}\$" if tex else r"^ x 1e(-?\d+)", rest)
    if m:
        pw = int(m.group(1))
        rest = rest[m.end():]
    if unit is None:
        return pw, None, None if rest == "" else "header %r cannot be read" % text
    m = re.match(r"^ \((.*)\)$", rest)
    if not m or not m.group(1).endswith(unit):
        return None, None, "header %r does not state the unit %r" % (text, unit)
    pre = m.group(1)[: len(m.group(1)) - len(unit)]
    table = SI_TEX if tex else SI
    if pre not in table:
        return None, None, "header %r has an unknown prefix %r" % (text, pre)
    return pw, table[pre], None


def judge_header(text, metric, stat, shift, unit, use_prefix, tex):
    if not isinstance(text, str):
        return "header is not a string: %r" % (text,)
    if stat == "p":
        return None if text == ("{p}" if tex else "p") else "p-value column labelled %r" % text
    pw, pre, msg = read_header(text, metric, unit, tex)
    if msg:
        return msg
    if pw == 0:
        return "header %r states a power of zero" % text
    by_prefix = unit is not None and use_prefix and -shift in SI.values()
    if by_prefix:
        ok = pw is None and pre == -shift
    else:
        ok = (pw or 0) == shift and not pre
    return None if ok else "header %r for shift %d (unit %r, prefixes %s)" % (text, shift, unit, use_prefix)


@C32.hook("sciprint.adjust_headers")
def _ah(ctx, ev):
    heads, shifts, units = list(ev.arg(0, "headers")), ev.arg(1, "shifts"), ev.arg(2, "unit_dict")
    out = list(ev.result)
    if len(out) != len(heads):
        return ctx.record("number of headers changed", got=out, headers=heads)
    for h, (metric, stat) in zip(out, heads):
        msg = judge_header(h, metric, stat, int(shifts[metric]), units.get(metric), ev.arg(3, "use_prefix", True), ev.arg(4, "use_tex", False))
        if msg:
            ctx.record(msg, metric=metric)


@C32.scenario(81, 81)
def every_shift(ctx, rng):
    shift = ctx.index - 40
    for unit, pre, tex in itertools.product([None, "nats", "s", "m", "$\\Omega$"], [True, False], [True, False]):
        for name in ("NLL", "zero_one", "a_b_c", "err rate", "x 1e3", "_u_", "a__b", "nLL (s)", "p"):
            kw = {}
            if not pre or rng.rand() < 0.5:
                kw["use_prefix"] = pre
            if tex or rng.rand() < 0.5:
                kw["use_tex"] = tex
            ctx.call(L.sp.adjust_headers, [(name, "estimate"), (name, "p")], {name: shift}, {} if unit is None else {name: unit}, **kw)
    if shift:
        ctx.note(shift)


@C32.scenario(250, 4000)
def many_metrics(ctx, rng):
    metrics = gen.metric_names(rng, rng.randint(1, 6))
    cols = list(itertools.product(metrics, ["estimate", "p"]))
    if rng.rand() < 0.5:
        cols = pd.MultiIndex.from_tuples(cols, names=["metric", "stat"])
    shifts = dict((m, gen.pick(rng, [int(rng.randint(-30, 31)), np.int64(rng.randint(-6, 7) * 3)])) for m in metrics)
    units = dict((m, gen.pick(rng, ["nats", "s", "bits", "g"])) for m in metrics + ["other"] if rng.rand() < 0.6)
    before = dict(shifts), dict(units)
    ctx.call(L.sp.adjust_headers, cols, shifts, units, use_prefix=bool(rng.rand() < 0.6), use_tex=bool(rng.rand() < 0.5))
    ctx.check((shifts, units) == before, "options were modified")
    ctx.note(sorted(map(str, shifts.items())), sorted(units.items()))
    ctx.sample(shifts=shifts, units=units)


# ---------------------------------------------------------------------------
C33 = Prop(
    "C33",
    "float tables of 1..8 methods x 1..3 metrics (any column order) and tables from real loss summaries x units x moduli x clip and error "
    "bar limits x non-finite formats x prefix flag x plain or LaTeX; the final text is read back entry by entry; non-trivial when scaled",
    assumptions=[
        "jinja2 is not installed, so pandas' LaTeX renderer cannot run here; a stand-in renders the frame handed to it (same booktabs layout)",
        "names contain no ampersand",
    ],
)
C33.observe("sciprint.decimalize", "sciprint.format_table", "sciprint.table_to_latex", "sciprint.table_to_string", "sciprint.adjust_headers")


def _tex_escape(s):
    for a, b in (("\\", r"\textbackslash "), ("_", r"\_"), ("$", r"\$"), ("{", r"\{"), ("}", r"\}"), ("%", r"\%"), ("#", r"\#")):
        s = s.replace(a, b)
    return s


def stand_in_to_latex(self, buf=None, columns=None, header=True, index=True, escape=None, column_format=None, index_names=True, **kw):
    esc = _tex_escape if escape in (True, None) else (lambda s: s)
    cf = column_format or "l" * (1 + self.shape[1])
    lines = [r"\begin{tabular}{%s}" % cf, r"\toprule"]
    heads = [esc(str(c)) for c in self.columns]
    lead = esc(str(self.index.name)) if index_names and self.index.name is not None else ""
    lines.append(" & ".join([lead] + heads) + r" \\")
    lines.append(r"\midrule")
    for i in range(self.shape[0]):
        lines.append(" & ".join([esc(str(self.index[i]))] + [esc(str(self.iat[i, j])) for j in range(self.shape[1])]) + r" \\")
    lines += [r"\bottomrule", r"\end{tabular}", ""]
    return "\n".join(lines)


def read_latex(text):
    m = re.search(r"\\begin\{tabular\}\{(.*)\}\n", text)
    if not m:
        return None
    ncol = len(re.findall(r"[a-zA-Z]", m.group(1)))
    rows = []
    for line in text.split("\n"):
        if line.rstrip().endswith(r"\\"):
            rows.append([c.strip() for c in line.rstrip()[:-2].split(" & ")])
    if not rows or any(len(r) != ncol for r in rows):
        return None
    return rows[0][1:], [(r[0], r[1:]) for r in rows[1:]]


def read_plain(text, metrics, units, n_methods):
    lines = text.split("\n")
    if len(lines) != n_methods + 1:
        return None
    rows = []
    for ln in lines[1:]:
        tok = ln.split()
        k = 2 * len(metrics)
        rows.append((" ".join(tok[:-k]), tok[-k:]))
    # header: any order of the metrics that reads the line completely
    pats = dict((met, re.compile(r"\s*(" + re.escape(met.replace("_", " ")) + r"(?: x 1e-?\d+)?" + ((r" \([yzafpnumcdkMGTPEZY]?" + re.escape(units[met]) + r"\)") if met in units else "") + r")\s+(p)(?=\s|$)")) for met in metrics)

    def walk(at, left):
        if not left:
            return ([], []) if not lines[0][at:].strip() else None
        for met in left:
            m = pats[met].match(lines[0], at)
            if m:
                r = walk(m.end(), [o for o in left if o != met])
                if r is not None:
                    return list(m.groups()) + r[0], [met] + r[1]
        return None

    r = walk(0, list(metrics))
    return None if r is None else (r[0], rows, r[1])


def tex_order(heads, metrics, units):
    """The order of metrics these headers state, if there is one."""
    if len(heads) != 2 * len(metrics):
        return None

    def walk(i, left):
        if not left:
            return []
        for met in left:
            if read_header(heads[2 * i], met, units.get(met), True)[2] is None:
                r = walk(i + 1, [o for o in left if o != met])
                if r is not None:
                    return [met] + r
        return None

    return walk(0, list(metrics))


def judge_text(ctx, tbl, metrics, text, tex, units, mod, cmax, cmin, ebl, nff, use_prefix):
    det = dict(table=tbl, text=text, limits=(cmax, cmin, ebl), shift_mod=mod)
    if tex:
        r = read_latex(text)
        ctx.check(r is not None, "LaTeX output cannot be read as a table", **det)
        heads, rows = r
        order = tex_order(heads, metrics, units)
    else:
        r = read_plain(text, metrics, units, len(tbl))
        ctx.check(r is not None, "output cannot be read as a table with these metrics", **det)
        heads, rows, order = r
    ctx.check(order is not None, "headers do not name the metrics", heads=heads, **det)
    ctx.check([a for a, _ in rows] == [" ".join(str(i).split()) for i in tbl.index], "rows are not the methods in order", got=[a for a, _ in rows], **det)
    for j, met in enumerate(order):
        pw, pre, msg = read_header(heads[2 * j], met, units.get(met), tex)
        ctx.check(msg is None, str(msg), **det)
        shift = (pw or 0) - (pre or 0)
        ctx.check(use_prefix or not pre, "prefix used although switched off", **det)
        ctx.check(not (use_prefix and met in units and -shift in SI.values()) or pw is None, "power of ten shown although a prefix exists", header=heads[2 * j], **det)
        ctx.check(heads[2 * j + 1] == ("{p}" if tex else "p"), "p column label", got=heads[2 * j + 1], **det)
        ctx.check(shift % (mod or 1) == 0 and (mod is not None or shift == 0), "scaling is not a multiple of the modulus", metric=met, **det)
        lo, hi = clips(met, cmin, cmax)
        for i, (name, cells) in enumerate(rows):
            m, e, p = (float(tbl[(met, s)].iloc[i]) for s in STATS)
            msg = judge_cell(cells[2 * j], m, e, shift, lo, hi, ebl.get(met)) or judge_pcell(cells[2 * j + 1], p, nff)
            ctx.check(msg is None, "%s/%s: %s" % (name, met, msg), header=heads[2 * j], **det)


def judge_cell(text, m, e, shift, lo, hi, eb_limit):
    """The displayed cell against the float estimate and error bar."""
    sc = frac10(shift)
    # a displayed limit
    if text[:1] in "<>":
        r = read_number(text[1:])
        lim = hi if text[0] == ">" else lo
        if r is None or lim is None or r[0] != lim * sc:
            return "%r shows a limit that is not set" % text
        if np.isinf(m):
            return None if (m > 0) == (text[0] == ">") else "%r shown for %r" % (text, m)
        mu, _ = own_round(e, m, 0.0, eb_limit)
        return None if (Fraction(mu) > lim if text[0] == ">" else Fraction(mu) < lim) else "%r shown for %r" % (text, m)
    r = read_number(text)
    if r is None:
        return "%r is not a number (estimate %r)" % (text, m)
    if np.isinf(m):
        return "%r shown for %r" % (text, m)
    v, k, br = r
    v, br = v / sc, None if br is None else br / sc
    no_eb = np.isnan(e) or np.isinf(e) or (eb_limit is not None and Fraction(e) > frac10(eb_limit))
    if no_eb:
        eb = INF
        if br is not None:
            return "%r shows an error bar for %r" % (text, e)
    else:
        if br is None:
            return "%r lacks the error bar %r" % (text, e)
        x = Fraction(e)
        want = Fraction(0)
        if x:
            q = frac10(log10_floor(x) - 1)
            want = ceil_frac(x / q) * q
        if br != want:
            return "%r: bracketed error %s, error bar %r rounded up is %s" % (text, float(br), e, float(want))
    x = Fraction(m)
    if no_eb or e == 0:
        if x:
            q = frac10(log10_floor(abs(x)) - 4)
            if v != half_up(x / q) * q:
                return "%r for estimate %r" % (text, m)
        elif v:
            return "%r for estimate 0" % text
        mu = v
    else:
        q = frac10(-k) / sc  # the precision displayed (that of the error bar)
        mu = half_up(x / q) * q
        if v != mu:
            return "%r for estimate %r" % (text, m)
        if q * 100 < br or (q > br):
            return "%r is not shown at the precision of its error bar %r" % (text, e)
    if (hi is not None and mu > hi) or (lo is not None and mu < lo):
        return "%r beyond its limit is not shown as such" % text
    return None


def judge_pcell(text, p, nff):
    if np.isnan(p):
        return None if text == nff.get("nan", "nan") else "missing p-value shown as %r" % text
    want = Fraction(ceil_frac(Fraction(p) * 10000), 10000)
    if want <= Fraction(1, 10000):
        return None if text == "<0.0001" else "p-value %r shown as %r" % (p, text)
    r = read_number(text)
    return None if r and r[0] == want and r[1] == 4 and r[2] is None else "p-value %r shown as %r" % (p, text)


def loss_based_table(rng):
    methods = gen.names(rng, rng.randint(2, 5))
    metrics = gen.metric_names(rng, rng.randint(1, 4))
    N = rng.randint(4, 40)
    cols = pd.MultiIndex.from_product([metrics, methods], names=["metric", "method"])
    sc = [magnitude(rng, -5, 5) for _ in metrics]
    data = np.concatenate([s * (rng.randn() + np.abs(rng.randn(N, len(methods)))) for s in sc], axis=1)
    return pd.DataFrame(data, columns=cols), methods, metrics


@C33.scenario(500, 9000)
def final_text(ctx, rng):
    if rng.rand() < 0.2:
        lt, methods, metrics = loss_based_table(rng)
        ctx.in_oracle = True
        tbl = L.mm.loss_summary_table(lt, methods[0], pairwise_CI=bool(rng.rand() < 0.5))
        ctx.in_oracle = False
        ctx.feature("from losses")
    else:
        tbl, metrics = results_table(rng, big=0.05, numbered=0.1)
    cmax, cmin, ebl = limits(rng, tbl, metrics)
    if rng.rand() < 0.5:
        ebl = {}
    if rng.rand() < 0.08:
        met = gen.pick(rng, metrics)
        cmin[met] = cmin.get(met, 2)
        tbl.loc[gen.pick(rng, list(tbl.index)), [(met, "mean"), (met, "error")]] = [-np.inf, np.nan]
        ctx.feature("infinite clipped")
    units = dict((m, gen.pick(rng, ["nats", "s", "bits"])) for m in metrics if rng.rand() < 0.5)
    nff = gen.pick(rng, NFF)
    mod = gen.pick(rng, [None, 1, 3, 3])
    if mod is None:  # only possible when the error bars reach the unit digit
        for met in metrics:
            lo, hi = clips(met, cmin, cmax)
            for m, e in zip(tbl[(met, "mean")], tbl[(met, "error")]):
                if np.isinf(m):
                    continue
                mu, eb = own_round(e, m, 0.0, ebl.get(met))
                if mu.as_tuple().exponent > 0 or (eb.is_finite() and eb >= 100) or abs(m) >= 1e5:
                    mod = 3
    tex = bool(rng.rand() < 0.4)
    use_prefix = bool(rng.rand() < 0.6)
    kw = {}
    for k, v in (("unit_dict", units), ("shift_mod", mod), ("crap_limit_max", cmax), ("crap_limit_min", cmin), ("EB_limit", ebl), ("non_finite_fmt", nff)):
        if v:
            kw[k] = v
    if tex or rng.rand() < 0.5:
        kw["use_tex"] = tex
    if not use_prefix or rng.rand() < 0.5:
        kw["use_prefix"] = use_prefix
    before = tbl.copy(deep=True)
    orig = pd.DataFrame.to_latex
    if tex:
        pd.DataFrame.to_latex = stand_in_to_latex
    try:
        text = ctx.call(L.sp.just_format_it, tbl, **kw)
    finally:
        pd.DataFrame.to_latex = orig
    ctx.check(isinstance(text, str), "not a string", got=text)
    ctx.check(same(tbl, before), "the results table was modified", table=before)
    judge_text(ctx, tbl, metrics, text, tex, units, mod, cmax, cmin, ebl, nff, use_prefix)
    if " x 1e" in text or "times" in text or units:
        ctx.note(tbl, sorted(map(str, kw.items())))
    ctx.feature("tex" if tex else "plain", "mod=%s" % mod, *["option:" + k for k in kw])
    ctx.sample(text=text, options=kw)
