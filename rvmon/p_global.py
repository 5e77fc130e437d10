"""C36-C38: purity and histories, refusal of malformed input, relational runs."""
import copy
import decimal
import inspect
import os
import pickle
import random
import signal
import warnings
from decimal import Decimal

import numpy as np
import pandas as pd

from rvmon import core, gen
from rvmon.core import CASE_CPU_S, L, MODULES, Abort, NoTermination, Prop, same, snap
from rvmon.p_format import limits, results_table
from rvmon.p_split import column, pick_kind

# ---------------------------------------------------------------------------
# A catalogue of valid public calls: name -> builder(rng) giving
# (module, attribute, args, kwargs, draws random numbers)
# ---------------------------------------------------------------------------
ACTIONS = {}


def action(f):
    ACTIONS[f.__name__] = f
    return f


def _cls(rng, K=None, N=None):
    K = K or int(rng.randint(2, 5))
    N = N or gen.upto(rng, 3, 25)
    return rng.randint(K, size=N), gen.log_probs(rng, N, K, neg_inf=False), K, N


def _bin(rng, lo=4, hi=25):
    N = gen.upto(rng, lo, hi)
    y = rng.randint(2, size=N)
    y[:2] = [0, 1]
    return y, N


def _ptbl(rng, K, N, n=3):
    methods = gen.names(rng, n)
    return gen.pred_table(rng, methods, K, N, neg_inf=False)[0], methods


@action
def a_hard_loss(rng):
    y, A, K, N = _cls(rng)
    kw = {} if rng.rand() < 0.5 else {"loss_mat": rng.rand(K, K + 1)}
    return "classification", "hard_loss", (y, A), kw, False


@action
def a_log_loss(rng):
    y, A, K, N = _cls(rng)
    return "classification", "log_loss", (y, A), {}, False


@action
def a_brier(rng):
    y, A, K, N = _cls(rng)
    return "classification", "brier_loss", (y, A), {"rescale": bool(rng.rand() < 0.5)}, False


@action
def a_spherical(rng):
    y, A, K, N = _cls(rng)
    return "classification", "spherical_loss", (y, A), {"rescale": bool(rng.rand() < 0.5)}, False


@action
def a_class_loss_table(rng):
    K, N = gen.upto(rng, 2, 5), int(rng.randint(2, 20))
    t, _ = _ptbl(rng, K, N)
    return "classification", "loss_table", (t, rng.randint(K, size=N), L.cl.STD_CLASS_LOSS), {}, False


@action
def a_curve_boot(rng):
    y, N = _bin(rng)
    if rng.rand() < 0.25:  # tiny, or one label only
        N = int(rng.randint(1, 5))
        y = np.full(N, rng.randint(2)) if rng.rand() < 0.5 else rng.randint(2, size=N)
    A, B = gen.log_probs(rng, N, 2, neg_inf=False), gen.log_probs(rng, N, 2, neg_inf=False)
    kw = {"n_boot": int(rng.randint(2, 20)), "pairwise_CI": bool(rng.rand() < 0.5), "curve_f": gen.pick(rng, [L.pc.roc_curve, L.pc.recall_precision_curve])}
    if rng.rand() < 0.5:
        kw["x_grid"] = np.linspace(0, 1, 7)
    return "classification", "curve_boot", (y.astype(gen.pick(rng, [int, bool])), A, gen.pick(rng, [0.5, B])), kw, True


@action
def a_curve_table(rng):
    y, N = _bin(rng)
    t, m = _ptbl(rng, 2, N, 2)
    d = {"AUC": L.pc.roc_curve, "AP": L.pc.recall_precision_curve}
    return "classification", "curve_summary_table", (t, y, d, m[0]), {"n_boot": 8}, True


@action
def a_summary_table(rng):
    y, N = _bin(rng)
    t, m = _ptbl(rng, 2, N, 2)
    d = {"AUC": L.pc.roc_curve}
    return "classification", "summary_table", (t, y, L.cl.STD_CLASS_LOSS, d, m[1]), {"n_boot": 6, "method_EB": gen.pick(rng, ["t", "boot"])}, True


def _clfs(rng):
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier

    return {"iid": L.cl.JustNoise(), "nb": GaussianNB(), "knn": KNeighborsClassifier(3)}


@action
def a_predict(rng):
    X, y = rng.randn(12, 2), np.arange(12) % 2
    return "classification", "get_pred_log_prob", (X, y, rng.randn(5, 2), 2, _clfs(rng)), {"min_log_prob": -20.0}, False


@action
def a_benchmark(rng):
    X, y = rng.randn(12, 2), np.arange(12) % 2
    return "classification", "just_benchmark", (X, y, rng.randn(8, 2), np.arange(8) % 2, 2, _clfs(rng), L.cl.STD_CLASS_LOSS, {"AUC": L.pc.roc_curve}, "iid"), {"min_pred_log_prob": -20.0}, True


def _reg(rng):
    N = gen.upto(rng, 2, 20)
    return rng.randn(N), rng.randn(N), np.exp(rng.randn(N)), N


@action
def a_square(rng):
    return "regression", gen.pick(rng, ["square_loss", "abs_loss", "log_loss"]), _reg(rng)[:3], {}, False


@action
def a_reg_table(rng):
    y, _, _, N = _reg(rng)
    m = gen.names(rng, 2)
    cols = pd.MultiIndex.from_product([m, ["mu", "std"]], names=["method", "moment"])
    t = pd.DataFrame(np.abs(rng.randn(N, 4)) + 0.1, columns=cols)
    return "regression", "loss_table", (t, y, L.rg.STD_REGR_LOSS), {}, False


@action
def a_reg_benchmark(rng):
    from sklearn.linear_model import BayesianRidge, LinearRegression

    ms = {"iid": L.rg.JustNoise(), "br": BayesianRidge(), "ols": LinearRegression()}
    X = rng.randn(12, 2)
    return "regression", "just_benchmark", (X, X.sum(axis=1) + rng.randn(12), rng.randn(6, 2), rng.randn(6), ms, L.rg.STD_REGR_LOSS, "iid"), {"min_std": 0.1}, False


@action
def a_loss_summary(rng):
    m, k = gen.names(rng, 3), gen.metric_names(rng, 2)
    N = gen.upto(rng, 3, 20)
    t = pd.DataFrame(rng.rand(N, 6), columns=pd.MultiIndex.from_product([k, m], names=["metric", "method"]))
    how = gen.pick(rng, ["t", "bernstein", "boot", "t"])
    kw = {"method_EB": how, "pairwise_CI": bool(rng.rand() < 0.5)}
    if how == "bernstein" or rng.rand() < 0.5:
        kw["limits"] = dict((a, (0.0, 1.0)) for a in k)
    return "mlpaper", "loss_summary_table", (t, m[1]), kw, how == "boot"


@action
def a_stats(rng):
    x = rng.rand(int(gen.pick(rng, [1, 2, 3, 7, 19])))
    if rng.rand() < 0.15:
        x[:] = gen.pick(rng, [0.0, 0.5])
    f, args, r = gen.pick(
        rng,
        [
            ("t_test", (x,), False), ("t_EB", (x,), False), ("bernstein_test", (x, 0.0, 1.0), False), ("bernstein_EB", (x, 0.0, 1.0), False),
            ("boot_test", (x, 20), True), ("boot_EB", (x, 0.9, 20), True), ("get_mean_and_EB", (x,), False), ("get_test", (x,), False),
            ("get_mean_EB_test", (x,), False), ("clip_EB", (0.5, 0.3, 0.0, 1.0), False),
        ],
    )
    return "mlpaper", f, args, {}, r


@action
def a_boot_util(rng):
    B = rng.randn(int(rng.randint(2, 30)))
    wN, wB = int(gen.pick(rng, [1, 2, 3, 5, 17])), int(gen.pick(rng, [1, 2, 6, 33]))
    f, args, r = gen.pick(
        rng,
        [
            ("boot_weights", (wN, wB), True), ("boot_weights", (wN, wB, 1e-3), True), ("percentile", (B, 0.9), False), ("basic", (B, 0.2, 0.5), False),
            ("error_bar", (B, 0.1), False), ("significance", (B, 0.0), False), ("significance", (B, rng.randn(len(B))), False), ("confidence_to_percentiles", (0.9,), False),
        ],
    )
    return "boot_util", f, args, {}, r


@action
def a_curves(rng):
    N = gen.upto(rng, 1, 20)
    y, s = gen.binary(rng, N), gen.scores(rng, N)
    kw = {} if rng.rand() < 0.5 else {"sample_weight": rng.rand(3, N) + 0.01}
    return "perf_curves", gen.pick(rng, ["roc_curve", "recall_precision_curve", "prg_curve"]), (y, s), kw, False


@action
def a_split(rng):
    N = gen.upto(rng, 2, 25)
    df = pd.DataFrame({"a": column(rng, N, "int"), "b": column(rng, N, "str"), "c": rng.randn(N)}, index=gen.index(rng, N))
    sp = gen.pick(rng, [{"a": ("random", 0.5)}, {"a": ("ordered", 0.3), "c": ("linear", 0.6)}, {None: ("ordered", 0.5)}, {"b": ("ordered", 0.7)}, {None: ("random", 0.3), "c": ("linear", 0.5)}, None])
    if sp is None:
        return "data_splitter", "split_df", (df,), {}, True
    return "data_splitter", "split_df", (df, sp), {"assume_unique": [], "assume_sorted": []}, any(v[0] == "random" for v in sp.values())


@action
def a_split_series(rng):
    N = gen.upto(rng, 2, 25)
    S = pd.Series(column(rng, N, "int"), index=gen.index(rng, N))
    f = gen.pick(rng, ["random_split_series", "ordered_split_series", "linear_split_series"])
    return "data_splitter", f, (S, float(gen.pick(rng, [rng.rand(), rng.rand(), rng.rand(), 0.0, 1.0]))), {}, f.startswith("random")


@action
def a_rand(rng):
    return "data_splitter", gen.pick(rng, ["rand_mask"]), (int(gen.pick(rng, [2, 3, 10, 40])), float(gen.pick(rng, [0.5, 0.3, 0.0, 1.0, 0.9]))), {}, True


@action
def a_lag(rng):
    df = pd.DataFrame(rng.randn(8, 3), columns=["x", "y", "z"])
    return "data_splitter", "build_lag_df", (df, 3), gen.pick(rng, [{}, {"stride": 2}, {"features": ["x"]}]), False


@action
def a_util(rng):
    N = gen.upto(rng, 2, 15)
    x = np.sort(rng.randint(6, size=N).astype(float))
    ux = np.unique(rng.randn(N))
    f, args, kw, r = gen.pick(
        rng,
        [
            ("one_hot", (rng.randint(3, size=N), 3), {}, False), ("normalize", (rng.randn(N, 3),), {}, False), ("epsilon_noise", (rng.randn(N),), {}, True),
            ("unique_take_last", (x, rng.randn(N)), {}, False), ("cummax_strict", (x,), {}, False),
            ("eval_step_func", (rng.randn(4), ux, rng.randn(len(ux))), {"ival": 0.0}, False),
            ("interp1d", (np.linspace(0, 1, 4), np.array([[0.0, 0.5, 1.0]]), np.array([[0.0, 2.0, 1.0]]), "linear"), {}, False),
            ("area", (np.array([[0.0, 0.5, 1.0]]), rng.randn(1, 3), gen.pick(rng, ["linear", "previous"])), {}, False),
        ],
    )
    return "util", f, args, kw, r


@action
def a_decimalize(rng):
    t, metrics = results_table(rng)
    return "sciprint", "decimalize", (t,), {"EB_limit": limits(rng, t, metrics)[2]}, False


@action
def a_format(rng):
    t, metrics = results_table(rng)
    cmax, cmin, ebl = limits(rng, t, metrics)
    return "sciprint", "just_format_it", (t,), {"shift_mod": 3, "crap_limit_max": cmax, "crap_limit_min": cmin, "EB_limit": ebl, "unit_dict": {metrics[0]: "s"}, "non_finite_fmt": {"nan": "--"}}, False


@action
def a_format_table(rng):
    def d(s):
        return Decimal(s)

    cols = pd.MultiIndex.from_product([["q", "a_b"], ["mean", "error", "p"]], names=["metric", "stat"])
    rows = [[d("1.23"), d("0.12"), d("0.0100"), d("120"), d("3"), d("NaN")], [d("0.03"), d("0.01"), d("1.0000"), d("-7"), d("Infinity"), d("0.2000")]]
    t = pd.DataFrame(rows, index=pd.Index(["u", "v"], name="method"), columns=cols, dtype=object)
    return "sciprint", "format_table", (t,), gen.pick(rng, [{}, {"shift_mod": 3}, {"shift_mod": 1, "pad": False, "crap_limit_max": {"q": 0}}]), False


@action
def a_headers(rng):
    return "sciprint", "adjust_headers", ([("m_1", "estimate"), ("m_1", "p")], {"m_1": int(rng.randint(-6, 7))}, gen.pick(rng, [{}, {"m_1": "s"}])), {"use_tex": bool(rng.rand() < 0.5)}, False


@action
def a_shift(rng):
    xs = [Decimal(int(rng.randint(-999, 1000))).scaleb(int(rng.randint(-5, 3))) for _ in range(3)]
    return "sciprint", "find_shift", (xs, [Decimal("NaN")] * 3), {"shift_mod": int(rng.randint(1, 4))}, False


NAMES_A = sorted(ACTIONS)

# ---------------------------------------------------------------------------
C36 = Prop(
    "C36",
    "histories of 3..7 public calls drawn from %d kinds of valid calls (with the caller scribbling over results and arguments in between), "
    "each replayed alone in a process that never called mlpaper before; non-trivial: distinct histories" % len(ACTIONS),
    assumptions=["processes are forked from one that imported mlpaper but never called it"],
)


# The settings and standard collections the package documents.  Anything else a
# module keeps for itself (a memo, a private table) is its own business: what
# it must not do is change an answer, and the repeated calls judge that.
_NAMES = set(
    "CURVE_STATS ERR_COL METHOD METRIC PAIRWISE_DEFAULT PVAL_COL STAT STD_STATS DEFAULT_NGRID LABEL STD_CLASS_LOSS "
    "STD_BINARY_CURVES HORIZON MEAN_COL EST_COL FMT_STATS GEN_FMT ABOVE_FMT BELOW_FMT XGRID YGRID LB UB _PREFIX "
    "_PREFIX_TEX RANDOM ORDRED LINEAR ORDERED SFT_FMT INDEX DEFAULT_SPLIT SPLITTER_LIB N_BOOT EPSILON PREV MOMENT "
    "STD_REGR_LOSS NAN_STR D_INF D_NINF STRICT_SPACING".split()
)


def _public_defaults(f):
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return ()
    return [(p.name, id(p.default) if callable(p.default) else repr(p.default)) for p in ps if p.default is not p.empty and not p.name.startswith("_")]


def _constants():
    """Defaults, module level collections: what later calls rely on."""
    out = {}
    for m in MODULES:
        mod = getattr(L, m)
        for k, v in vars(mod).items():
            if k in _NAMES:
                if isinstance(v, dict):
                    out[m, k] = sorted((repr(a), id(b) if callable(b) else repr(b)) for a, b in v.items())
                else:
                    out[m, k] = repr(v)
            elif callable(v) and not k.startswith("_") and getattr(v, "__module__", "").startswith("mlpaper"):
                out[m, k, "defaults"] = _public_defaults(v)
    return out


def _dec(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.clamp, c.capitals, sorted(map(str, [k for k, v in c.traps.items() if v])))


def _env():
    return {
        "numeric error settings": (np.geterr(), np.geterrcall()),
        "decimal settings": _dec(decimal.getcontext()),
        "decimal contexts": [_dec(c) for c in (decimal.DefaultContext, decimal.BasicContext, decimal.ExtendedContext)],
        "warning filters": [tuple(map(str, f)) for f in warnings.filters],
        "print options": np.get_printoptions(),
        "working directory": os.getcwd(),
        "pandas options": [pd.get_option(o) for o in ("display.precision", "display.max_rows", "display.max_columns", "display.width", "mode.chained_assignment", "display.max_colwidth", "display.float_format")],
        "python random stream": random.getstate(),
    }


def _rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def scribble(x, depth=0):
    """The caller overwrites what it was given (or passed)."""
    try:
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fiub" and x.flags.writeable:
            x[...] = 1
        elif isinstance(x, pd.DataFrame) and x.size:
            for j in range(x.shape[1]):
                x.isetitem(j, 1)
        elif isinstance(x, pd.Series) and len(x):
            x.iloc[:] = x.iloc[0]
        elif isinstance(x, dict) and depth < 4:
            for v in list(x.values()):
                scribble(v, depth + 1)
            x.clear()
        elif isinstance(x, (tuple, list)) and depth < 4:
            for v in x:
                scribble(v, depth + 1)
            if isinstance(x, list):
                del x[:]
    except Exception:
        pass


def twist(x, rng, inplace):
    """Other data of the same shape: numeric values rearranged between rows
    (so that every call stays valid)."""
    if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind in "fiub" and len(x) > 1 and x.flags.writeable:
        p = rng.permutation(len(x))
        if inplace:
            x[...] = x[p].copy()
            return x
        return x[p].copy()
    if isinstance(x, pd.DataFrame) and len(x) > 1:
        v = x.iloc[rng.permutation(len(x))].set_axis(x.index)
        if inplace:
            for j in range(x.shape[1]):
                x.isetitem(j, v.iloc[:, j].values)
            return x
        return v
    if isinstance(x, pd.Series) and len(x) > 1:
        v = x.values[rng.permutation(len(x))].copy()
        if inplace:
            x.iloc[:] = v
            return x
        return pd.Series(v, index=x.index, name=x.name)
    return x


# sorted input is part of what these promise nothing without
KEEP_ORDER = {"a_util"}


def perform(ctx, name, seed, stream, built=None):
    """One observed call; returns (result snapshot, random state after, live args, live result, draws)."""
    b = np.random.RandomState(seed)
    mod, attr, args, kw, draws = ACTIONS[name](b) if built is None else built
    f = getattr(getattr(L, mod), attr)
    np.random.seed(stream)
    before_args = (snap(args), snap(kw))
    env, const, st = _env(), _constants(), _rng_state()
    r = ctx.call(f, *args, **kw)
    ctx.events[mod + "." + attr] += 1
    st2 = _rng_state()
    env2, const2 = _env(), _constants()
    ctx.check(same(before_args, (args, kw)), "%s.%s modified its arguments" % (mod, attr), before=before_args, after=(args, kw))
    for k in env:
        ctx.check(env[k] == env2[k], "%s.%s changed %s" % (mod, attr, k), before=str(env[k])[:300], after=str(env2[k])[:300])
    for k in const:
        ctx.check(const[k] == const2.get(k), "%s.%s changed %s" % (mod, attr, ".".join(k)), before=const[k], after=const2.get(k))
    if not draws:
        ctx.check(st == st2, "%s.%s consumed or reset the random stream" % (mod, attr))
    ctx.feature(mod + "." + attr)
    return snap(r), st2, (args, kw), r, draws


def in_fork(ctx, fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = None
        try:
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
            ctx.violations = []
            ctx.events.clear(), ctx.judged.clear(), ctx.features.clear()
            try:
                out = fn()
            except Abort:
                pass
            except NoTermination:
                ctx.record("no termination")
            except Exception as e:
                ctx.record("the oracle could not read an observed result: %r" % (e,))
            data = pickle.dumps((out, ctx.violations, ctx.events, ctx.judged, ctx.features))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        ctx.fail("the observed process died without reporting")
    out, viol, ev, ju, fe = pickle.loads(data)
    ctx.events.update(ev), ctx.judged.update(ju), ctx.features.update(fe)
    if viol:
        ctx.violations.extend(viol)
        raise Abort()
    return out


@C36.scenario(150, 2500)
def histories(ctx, rng):
    n = rng.randint(3, 8)
    hist = [(NAMES_A[rng.randint(len(NAMES_A))], int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))) for _ in range(n)]
    hist[-1] = hist[rng.randint(n)] if rng.rand() < 0.5 else hist[-1]  # the very same call again
    if rng.rand() < 0.3:  # same call, other random stream or data, in between
        k = rng.randint(n)
        hist.insert(k, (hist[k][0], int(rng.randint(2 ** 31)), hist[k][2]))
    same_stream = rng.rand() < 0.2

    def whole():
        out = []
        for name, seed, stream in hist:
            r, st, (args, kw), live, draws = perform(ctx, name, seed, stream)
            out.append((r, st))
            keep_args = any(a is L.cl.STD_CLASS_LOSS or a is L.rg.STD_REGR_LOSS for a in args)
            scribble(live)
            if not keep_args:  # the standard collections themselves are not the caller's to clear
                scribble([a for a in args if isinstance(a, (np.ndarray, pd.DataFrame, pd.Series))])
                for v in kw.values():
                    scribble(v)
        return out

    seq = in_fork(ctx, whole)
    # each distinct call alone in a pristine process
    pick = sorted(set([n - 1, len(hist) - 1] + [int(rng.randint(len(hist))) for _ in range(2)]))
    for i in pick:
        name, seed, stream = hist[i]

        def alone():
            r, st, _, _, draws = perform(ctx, name, seed, stream)
            other = None
            if draws:
                other = perform(ctx, name, seed, (stream + 1) % 2 ** 31)[1]
            return r, st, other

        r, st, other = in_fork(ctx, alone)
        det = dict(call=name, history=[h[0] for h in hist], position=i)
        ctx.check(same(seq[i][0], r), "the result depends on the history of earlier calls", got=seq[i][0], alone=r, **det)
        ctx.check(seq[i][1] == st, "the random stream consumed depends on the history", **det)
        if other is not None:
            ctx.check(other != st, "the random stream is reset to a fixed state", **det)
    for i, h in enumerate(hist):
        for j in range(i):
            if hist[j] == h:
                ctx.check(same(seq[i][0], seq[j][0]), "repeating a call gives another result", got=seq[i][0], first=seq[j][0], call=h[0], history=[x[0] for x in hist])
                ctx.feature("repeated call")
    ctx.note([h[:2] for h in hist])
    ctx.sample(history=[h[0] for h in hist])


@C36.scenario(4 * len(ACTIONS), 60 * len(ACTIONS))
def twins(ctx, rng):
    """A call, then the same call on equally shaped other data: the first must leave no trace."""
    names = [n for n in NAMES_A if n not in KEEP_ORDER]
    name = names[ctx.index % len(names)]
    seed, stream, ps = int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))
    inplace = bool(rng.rand() < 0.5)

    def other(built):
        mod, attr, args, kw, draws = built
        r = np.random.RandomState(ps)
        return mod, attr, tuple(twist(a, r, inplace) for a in args), dict((k, twist(v, r, inplace)) for k, v in kw.items()), draws

    def both():
        b = ACTIONS[name](np.random.RandomState(seed))
        perform(ctx, name, seed, stream, b)
        r = perform(ctx, name, seed, stream, other(b))
        return r[:2]

    def alone():
        return perform(ctx, name, seed, stream, other(ACTIONS[name](np.random.RandomState(seed))))[:2]

    a, b = in_fork(ctx, both), in_fork(ctx, alone)
    det = dict(call=name, same_objects=inplace)
    ctx.check(same(a[0], b[0]), "the result depends on an earlier call with other data", got=a[0], alone=b[0], **det)
    ctx.check(a[1] == b[1], "the random stream consumed depends on an earlier call with other data", **det)
    ctx.feature("same objects, other values" if inplace else "other objects, other values")
    ctx.note("twins", name, seed)


def _options(rng):
    """One call on one set of data under two settings of its options."""
    c1 = float(gen.pick(rng, [0.9, 0.95, 0.5, 0.99, 0.05 + 0.9 * rng.rand()]))
    c2 = float(np.clip(c1 + gen.pick(rng, [-0.3, -0.004, -1e-4, 1e-4, 0.004, 0.3]), 0.01, 0.995))
    two = lambda k, a, b: ({k: a}, {k: b})
    flag = lambda k: two(k, *gen.pick(rng, [(True, False), (False, True)]))
    x = rng.rand(int(gen.pick(rng, [2, 3, 7, 19])))
    how = gen.pick(rng, ["t", "bernstein", "boot"])
    lim = ({"lower": 0.0, "upper": 1.0}, {"lower": float(-rng.rand()), "upper": float(1.0 + rng.rand())})
    kind = gen.pick(rng, ["t", "bern", "berntest", "boot", "mean", "mean limits", "mean method", "percentile", "table", "table limits", "table method", "table ref", "curve", "curve n_boot", "hard", "brier", "losses", "linear", "ordered", "random", "lag", "decimal", "format", "estimate", "header", "noise", "step"])
    if kind in ("t", "bern", "boot"):
        f, a = {"t": ("t_EB", (x,)), "bern": ("bernstein_EB", (x, 0.0, 1.0)), "boot": ("boot_EB", (x,))}[kind]
        return ("mlpaper", f, a) + two("confidence", c1, c2) + (kind == "boot",)
    if kind == "berntest":
        return ("mlpaper", "bernstein_test", (x,)) + lim + (False,)
    if kind == "mean":
        a, b = two("confidence", c1, c2)
        o = dict(method=how, lower=0.0, upper=1.0)
        return "mlpaper", gen.pick(rng, ["get_mean_and_EB", "get_mean_EB_test"]), (x,), dict(o, **a), dict(o, **b), how == "boot"
    if kind == "mean limits":
        return "mlpaper", gen.pick(rng, ["get_mean_and_EB", "get_mean_EB_test", "get_test"]), (x,), dict(lim[0], method="bernstein"), dict(lim[1], method="bernstein"), False
    if kind == "mean method":
        m1, m2 = gen.pick(rng, [("t", "bernstein"), ("bernstein", "t")])
        return "mlpaper", gen.pick(rng, ["get_mean_and_EB", "get_mean_EB_test", "get_test"]), (x,), dict(lim[0], method=m1), dict(lim[0], method=m2), False
    if kind == "percentile":
        return ("boot_util", gen.pick(rng, ["percentile"]), (rng.randn(int(rng.randint(3, 60))),)) + two("confidence", c1, c2) + (False,)
    if kind.startswith("table"):
        m, k = gen.names(rng, 3), gen.metric_names(rng, 2)
        t = pd.DataFrame(rng.rand(gen.upto(rng, 3, 20), 6), columns=pd.MultiIndex.from_product([k, m], names=["metric", "method"]))
        l0 = dict((a, (0.0, 1.0)) for a in k)
        o = dict(method_EB=gen.pick(rng, ["t", "bernstein"]), limits=l0, pairwise_CI=bool(rng.rand() < 0.5))
        if kind == "table ref":
            return "mlpaper", "loss_summary_table", (t,), dict(o, ref_method=m[0]), dict(o, ref_method=m[1]), False
        if kind == "table limits":
            a, b = dict(limits=l0), dict(limits=dict((q, (-1.0, 3.0)) for q in k[:1]))
            o["method_EB"] = "t"
        elif kind == "table method":
            a, b = gen.pick(rng, [two("method_EB", "t", "bernstein"), flag("pairwise_CI")])
        else:
            a, b = two("confidence", c1, c2)
        return "mlpaper", "loss_summary_table", (t, m[1]), dict(o, **a), dict(o, **b), False
    if kind.startswith("curve"):
        y, N = _bin(rng)
        A, B = gen.log_probs(rng, N, 2, neg_inf=False), gen.log_probs(rng, N, 2, neg_inf=False)
        o = dict(ref=B, n_boot=12, x_grid=np.linspace(0, 1, 5))
        a, b = two("n_boot", 12, 9) if kind == "curve n_boot" else gen.pick(rng, [two("confidence", c1, c2), flag("pairwise_CI"), two("curve_f", L.pc.roc_curve, L.pc.recall_precision_curve), two("x_grid", np.linspace(0, 1, 5), np.array([0.0, 0.1, 0.2, 0.3, 1.0])), two("ref", A, B)])
        return "classification", "curve_boot", (y, A), dict(o, **a), dict(o, **b), True
    y, A, K, N = _cls(rng)
    if kind == "hard":
        return ("classification", "hard_loss", (y, A)) + two("loss_mat", rng.rand(K, K), rng.rand(K, K)) + (False,)
    if kind == "brier":
        return ("classification", gen.pick(rng, ["brier_loss", "spherical_loss"]), (y, A)) + flag("rescale") + (False,)
    if kind == "losses":
        t, _ = _ptbl(rng, K, N)
        return ("classification", "loss_table", (t, y)) + two("metrics_dict", {"a": L.cl.log_loss}, {"a": L.cl.brier_loss}) + (False,)
    if kind in ("linear", "ordered", "random"):
        S = pd.Series(rng.randint(30, size=gen.upto(rng, 2, 25)))
        return ("data_splitter", kind + "_split_series", (S,)) + two("frac", *[float(v) for v in rng.rand(2)]) + (kind == "random",)
    if kind == "lag":
        df = pd.DataFrame(rng.randn(8, 3), columns=["x", "y", "z"])
        return ("data_splitter", "build_lag_df", (df, 3)) + gen.pick(rng, [two("stride", 1, 2), two("features", ["x"], ["y"])]) + (False,)
    if kind == "decimal":
        t, metrics = results_table(rng)
        return ("sciprint", "decimalize", (t,)) + two(gen.pick(rng, ["err_digits", "pval_digits", "default_digits"]), 4, 3) + (False,)
    if kind == "format":
        t, metrics = results_table(rng)
        a, b = gen.pick(rng, [two("shift_mod", 1, 3), two("non_finite_fmt", {"nan": "--"}, {"nan": "n/a"}), two("unit_dict", {metrics[0]: "s"}, {metrics[0]: "m"})])
        return "sciprint", "just_format_it", (t,), dict({"shift_mod": 3}, **a), dict({"shift_mod": 3}, **b), False
    if kind == "estimate":
        mu, e = Decimal(int(rng.randint(-9999, 9999))).scaleb(-3), Decimal(int(rng.randint(1, 99))).scaleb(-3)
        return ("sciprint", "print_estimate", (mu, e)) + two("shift", 0, int(gen.pick(rng, [1, 2, 3]))) + (False,)
    if kind == "header":
        return ("sciprint", "adjust_headers", ([("m_1", "estimate"), ("m_1", "p")], {"m_1": 3}, {"m_1": "s"})) + gen.pick(rng, [flag("use_tex"), flag("use_prefix")]) + (False,)
    if kind == "noise":
        return ("util", "epsilon_noise", (rng.randint(5, size=6).astype(float),)) + two("max_epsilon", 1.0, 0.01) + (True,)
    ux = np.unique(rng.randn(6))
    return ("util", "eval_step_func", (rng.randn(4), ux, rng.randn(len(ux)))) + two("ival", 0.0, 1.0) + (False,)


@C36.scenario(240, 4000)
def options(ctx, rng):
    """The same data under other options: no answer of the first call leaks into the second."""
    ds, stream = int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))

    def call(which):
        mod, attr, args, a, b, draws = _options(np.random.RandomState(ds))
        return mod, attr, args, (a, b)[which], draws

    def both():
        b = _options(np.random.RandomState(ds))
        perform(ctx, b[1], ds, stream, b[:4] + (b[5],))
        return perform(ctx, b[1], ds, stream, b[:3] + (b[4], b[5]))[:2]

    def alone():
        return perform(ctx, "", ds, stream, call(1))[:2]

    a, b = in_fork(ctx, both), in_fork(ctx, alone)
    mod, attr, args, kw, _ = call(1)
    det = dict(call=attr, options=kw, before=call(0)[3])
    ctx.check(same(a[0], b[0]), "the result depends on an earlier call with other options", got=a[0], alone=b[0], **det)
    ctx.check(a[1] == b[1], "the random stream consumed depends on an earlier call with other options", **det)
    ctx.feature("options:" + attr + ":" + "/".join(sorted(k for k in kw)))
    ctx.note("options", attr, ds)


@C36.scenario(6 * len(ACTIONS), 60 * len(ACTIONS))
def each_call(ctx, rng):
    name = NAMES_A[ctx.index % len(NAMES_A)]
    seed, stream = int(rng.randint(2 ** 31)), int(rng.randint(2 ** 31))

    def run():
        a = perform(ctx, name, seed, stream)
        b = perform(ctx, name, seed, stream)
        c = perform(ctx, name, seed, (stream + 7) % 2 ** 31) if a[4] else None
        return a[:2], b[:2], None if c is None else c[:2]

    a, b, c = in_fork(ctx, run)
    ctx.check(same(a[0], b[0]), "repeating a call gives another result", got=b[0], first=a[0], call=name)
    ctx.check(a[1] == b[1], "repeating a call consumes the random stream differently", call=name)
    if c is not None:
        ctx.check(c[1] != a[1], "the random stream is reset to a fixed state", call=name)
    ctx.note(name, seed)


# ---------------------------------------------------------------------------
# C37: one fault at a time
# ---------------------------------------------------------------------------
ENTRIES = []


def entry(f):
    ENTRIES.append(f)
    return f


def put(x, i, v):
    x = np.array(x, dtype=float if isinstance(v, float) else None, copy=True, order="C")
    x.reshape(-1)[i] = v
    return x


def pos(rng, x):
    return int(rng.randint(np.size(x)))


BAD_CONF = [0.0, 1.0, -0.1, 1.5, float("nan")]


def conf_faults():
    return [("confidence %r" % c, dict(confidence=c)) for c in BAD_CONF]


def _label_faults(rng, y, A, K, N, an="log_pred_prob"):
    i = pos(rng, y)
    out = [
        ("label above the range", dict(y=put(y, i, K))), ("label far above the range", dict(y=put(y, i, K + 7))),
        ("negative label", dict(y=put(y, i, -1))), ("float labels", dict(y=y.astype(float))), ("too many labels", dict(y=np.append(y, 0))),
        ("labels not a vector", dict(y=y[:, None])), ("string labels", dict(y=y.astype(str))),
    ]
    if N > 1:
        out.append(("too few labels", dict(y=y[:-1])))
    if an == "log_pred_prob":
        out += [("predictions not a matrix", dict(log_pred_prob=A[:, 0])), ("predictions for other points", dict(log_pred_prob=np.vstack((A, A[:1]))))]
        if N:
            out.append(("empty data", dict(y=y[:0], log_pred_prob=A[:0])))
    return out


@entry
def e_class_losses(rng):
    y, A, K, N = _cls(rng)
    f = gen.pick(rng, [L.cl.hard_loss, L.cl.log_loss, L.cl.brier_loss, L.cl.spherical_loss])
    fs = _label_faults(rng, y, A, K, N)
    if f is L.cl.hard_loss:
        fs += [("loss matrix with too few rows", dict(loss_mat=rng.rand(K - 1, K))), ("loss matrix with too many rows", dict(loss_mat=rng.rand(K + 1, K))), ("loss matrix without actions", dict(loss_mat=np.zeros((K, 0))))]
    return f, dict(y=y, log_pred_prob=A), fs


def put_df(t, i, j, v):
    t = t.copy()
    t.iat[i, j] = v
    return t


@entry
def e_class_table(rng):
    K, N = gen.upto(rng, 2, 5), int(rng.randint(2, 20))
    t, m = _ptbl(rng, K, N)
    y = rng.randint(K, size=N)
    i, j = int(rng.randint(N)), int(rng.randint(t.shape[1]))
    fs = [f for f in _label_faults(rng, y, None, K, N, "table")]
    fs += [("missing prediction", dict(log_pred_prob_table=put_df(t, i, j, np.nan))), ("missing prediction, assumed normalized", dict(log_pred_prob_table=put_df(t, i, j, np.nan), assume_normalized=True))]
    sw = t.copy()
    sw.columns = pd.MultiIndex.from_tuples([(a, K - 1 - b) if a == m[0] else (a, b) for a, b in t.columns])
    fs += [("label columns in another order", dict(log_pred_prob_table=sw)), ("a label column missing", dict(log_pred_prob_table=t.drop(columns=[(m[0], 0)]))), ("empty data", dict(log_pred_prob_table=t.iloc[:0], y=y[:0]))]
    return L.cl.loss_table, dict(log_pred_prob_table=t, y=y, metrics_dict=dict(L.cl.STD_CLASS_LOSS)), fs


@entry
def e_curve_boot(rng):
    y, N = _bin(rng)
    A, B = gen.log_probs(rng, N, 2, neg_inf=False), gen.log_probs(rng, N, 2, neg_inf=False)
    i = int(rng.randint(N))
    f = gen.pick(rng, [L.pc.roc_curve, L.pc.recall_precision_curve, L.pc.prg_curve])
    fs = [x for x in _label_faults(rng, y, A, 2, N)]
    fs += [("missing prediction", dict(log_pred_prob=put(A, pos(rng, A), float("nan")))), ("missing reference prediction", dict(ref=put(B, pos(rng, B), float("nan"))))]
    fs += [("infinite score", dict(log_pred_prob=put(A, 2 * i + 1, float(gen.pick(rng, [np.inf, -np.inf]))))), ("infinite reference score", dict(ref=put(B, 2 * i + 1, float("-inf"))))]
    fs += [("missing reference value", dict(ref=float("nan"))), ("reference of another shape", dict(ref=B[:, :1])), ("no replicates", dict(n_boot=0)), ("three labels", dict(log_pred_prob=np.hstack((A, A[:, :1]))))]
    fs += [("grid beyond the curve", dict(x_grid=np.linspace(0, 1.1, 5))), ("grid before the curve", dict(x_grid=np.linspace(-0.1, 1, 5)))]
    fs += conf_faults()
    return L.cl.curve_boot, dict(y=y, log_pred_prob=A, ref=B, curve_f=f, n_boot=6), fs


@entry
def e_curve_table(rng):
    y, N = _bin(rng)
    t, m = _ptbl(rng, 2, N, 2)
    t = t[[(a, b) for a in m for b in (0, 1)]]
    d = {"AUC": L.pc.roc_curve}
    i, j = int(rng.randint(N)), int(rng.randint(4))
    fs = [f for f in _label_faults(rng, y, None, 2, N, "table")]
    fs += [("missing prediction", dict(log_pred_prob_table=put_df(t, i, j, np.nan))), ("infinite score", dict(log_pred_prob_table=put_df(t, i, gen.pick(rng, [1, 3]), -np.inf)))]
    fs += [("unknown reference method", dict(ref_method="nobody")), ("no curves", dict(curve_dict={}))] + conf_faults()
    kw = dict(log_pred_prob_table=t, y=y, curve_dict=d, ref_method=m[0], n_boot=4)
    if rng.rand() < 0.5:
        return L.cl.curve_summary_table, kw, fs
    return L.cl.summary_table, dict(kw, loss_dict=dict(L.cl.STD_CLASS_LOSS)), fs + [("loss outside its limits", dict(limits={"NLL": (-5.0, -4.0)})), ("unknown error bar method", dict(method_EB="nope"))]


@entry
def e_perf_curves(rng):
    N = gen.upto(rng, 2, 20)
    y, s = gen.binary(rng, N), gen.scores(rng, N)
    W = rng.rand(3, N) + 0.01
    f = gen.pick(rng, [L.pc.roc_curve, L.pc.recall_precision_curve, L.pc.prg_curve])
    fs = [("score %r" % v, dict(y_score=put(s, pos(rng, s), v))) for v in (float("nan"), float("inf"), float("-inf"))]
    fs += [("weight %r" % v, dict(sample_weight=put(W, pos(rng, W), v))) for v in (0.0, -0.5, float("nan"), float("inf"))]
    fs += [("weights of another length", dict(sample_weight=W[:, :-1])), ("weights not a matrix", dict(sample_weight=W[0])), ("scores of another length", dict(y_score=s[:-1])), ("labels not boolean", dict(y_true=y.astype(int)))]
    fs += [("labels not boolean (float)", dict(y_true=y.astype(float))), ("empty data", dict(y_true=y[:0], y_score=s[:0], sample_weight=None)), ("no weight rows", dict(sample_weight=W[:0]))]
    return f, dict(y_true=y, y_score=s, sample_weight=W), fs


@entry
def e_loss_summary(rng):
    m, k = gen.names(rng, 3), gen.metric_names(rng, 2)
    N = gen.upto(rng, 3, 20)
    t = pd.DataFrame(rng.rand(N, 6), columns=pd.MultiIndex.from_product([k, m], names=["metric", "method"]))
    i, j = int(rng.randint(N)), int(rng.randint(6))
    how, pw = gen.pick(rng, ["t", "bernstein", "boot"]), bool(rng.rand() < 0.5)
    lim = dict((a, (0.0, 1.0)) for a in k)
    met = t.columns[j][0]
    fs = [("missing loss", dict(loss_table=put_df(t, i, j, np.nan))), ("loss above its limit", dict(loss_table=put_df(t, i, j, 1.0 + gen.pick(rng, [1e-3, 5.0])))), ("loss below its limit", dict(loss_table=put_df(t, i, j, -1e-3)))]
    fs += [("infinite loss beyond its limit", dict(loss_table=put_df(t, i, j, np.inf))), ("unknown reference method", dict(ref_method="nobody")), ("limits reversed", dict(limits=dict(lim, **{met: (1.0, 0.0)})))]
    fs += [("unknown error bar method", dict(method_EB="nope")), ("empty data", dict(loss_table=t.iloc[:0])), ("missing limit", dict(limits=dict(lim, **{met: (float("nan"), 1.0)})))] + conf_faults()
    fs += [("columns not named", dict(loss_table=t.rename_axis(columns=["foo", "bar"])))]
    return L.mm.loss_summary_table, dict(loss_table=t, ref_method=m[0], pairwise_CI=pw, method_EB=how, limits=lim), fs


@entry
def e_samples(rng):
    x = rng.rand(int(rng.randint(2, 20)))
    nan = ("missing value", dict(x=put(x, pos(rng, x), float("nan"))))
    mat = ("not a vector", dict(x=np.stack((x, x))))
    out = ("value above the limit", dict(x=put(x, pos(rng, x), 1.5)))
    out2 = ("value below the limit", dict(x=put(x, pos(rng, x), -0.5)))
    rev = ("limits reversed", dict(lower=1.0, upper=0.0))
    d = dict(x=x)
    dl = dict(x=x, lower=0.0, upper=1.0)
    how = gen.pick(rng, ["t", "bernstein", "boot"])
    bad = ("unknown method", dict(method="nope"))
    return gen.pick(
        rng,
        [
            (L.mm.t_test, d, [nan, mat]), (L.mm.t_EB, d, [nan, mat] + conf_faults()), (L.mm.bernstein_test, dl, [nan, mat, out, out2, rev]),
            (L.mm.bernstein_EB, dl, [nan, mat, out, out2, rev] + conf_faults()), (L.mm.boot_test, d, [nan, mat, ("no replicates", dict(n_boot=0))]),
            (L.mm.boot_EB, dict(d, n_boot=20), [nan, mat, ("no replicates", dict(n_boot=0))] + conf_faults()),
            (L.mm.get_mean_and_EB, dict(dl, method=how), [nan, out, out2, rev, bad] + conf_faults()),
            (L.mm.get_mean_EB_test, dict(dl, method=how), [nan, out, out2, rev, bad] + conf_faults()),
            (L.mm.get_test, dict(dl, method=how), [nan, bad]),
        ],
    )


@entry
def e_boot_util(rng):
    B = rng.randn(int(rng.randint(2, 30)))
    ref = rng.randn(len(B))
    nan = ("missing replicate", dict(boot_estimates=put(B, pos(rng, B), float("nan"))))
    return gen.pick(
        rng,
        [
            (L.bu.confidence_to_percentiles, dict(confidence=0.9), conf_faults()), (L.bu.percentile, dict(boot_estimates=B), [nan] + conf_faults()),
            (L.bu.basic, dict(boot_estimates=B, original_estimate=0.1), [nan, ("estimate of another shape", dict(original_estimate=np.zeros(2)))] + conf_faults()),
            (L.bu.error_bar, dict(boot_estimates=B, original_estimate=0.1), [nan, ("estimate not a number", dict(original_estimate=np.zeros(len(B))))] + conf_faults()),
            (L.bu.significance, dict(boot_estimates=B, ref=ref), [nan, ("missing reference", dict(ref=put(ref, pos(rng, ref), float("nan")))), ("missing reference value", dict(ref=float("nan"))), ("reference of another length", dict(ref=ref[:-1]))]),
            (L.bu.boot_weights, dict(N=4, n_boot=3), [("no data", dict(N=0)), ("no replicates", dict(n_boot=0))]),
        ],
    )


@entry
def e_regression(rng):
    y, mu, std, N = _reg(rng)
    fs = []
    for nm, v in (("y", y), ("mu", mu), ("std", std)):
        fs += [("%s is %r" % (nm, b), {nm: put(v, pos(rng, v), b)}) for b in (float("nan"), float("inf"), float("-inf"))]
        fs += [("%s of another length" % nm, {nm: np.append(v, 1.0)}), ("%s not a vector" % nm, {nm: v[:, None]})]
    fs += [("std %r" % b, dict(std=put(std, pos(rng, std), b))) for b in (0.0, -1.0, -1e-300)] + [("empty data", dict(y=y[:0], mu=mu[:0], std=std[:0]))]
    r = rng.rand()
    if r < 0.5:
        return gen.pick(rng, [L.rg.square_loss, L.rg.abs_loss, L.rg.log_loss]), dict(y=y, mu=mu, std=std), fs
    t = pd.DataFrame({("a", "mu"): mu, ("a", "std"): std, ("b", "mu"): mu + 1, ("b", "std"): std})
    fs2 = []
    for label, d in fs:
        if "y" in d and len(d) == 1:
            fs2.append((label, d))
        elif len(d) == 1:
            (nm, v), = d.items()
            if v.shape == (N,):
                t2 = t.copy()
                t2[(gen.pick(rng, ["a", "b"]), nm)] = v
                fs2.append((label, dict(pred_tbl=t2)))
    fs2 += [("no std column", dict(pred_tbl=t[[("a", "mu"), ("b", "mu")]])), ("no std column for one method", dict(pred_tbl=t[[("a", "mu"), ("a", "std"), ("b", "mu")]]))]
    return L.rg.loss_table, dict(pred_tbl=t, y=y, metrics_dict=dict(L.rg.STD_REGR_LOSS)), fs2


class Fixed(object):
    """Estimator returning a prepared answer."""

    def __init__(self, out, log=True):
        self.out, self.log = out, log

    def fit(self, X, y):
        return self

    def predict_log_proba(self, X):
        if not self.log:
            raise AttributeError("predict_log_proba")
        return self.out

    def predict_proba(self, X):
        return np.exp(self.out)

    def predict(self, X, return_std=False):
        return self.out


@entry
def e_predict(rng):
    N, T, K = int(rng.randint(4, 15)), int(rng.randint(2, 8)), int(rng.randint(2, 4))
    X, Z, y = rng.randn(N, 2), rng.randn(T, 2), rng.randint(K, size=N)
    A = gen.log_probs(rng, T, K, neg_inf=False)
    log = bool(rng.rand() < 0.6)
    good = {"a": Fixed(A, log), "b": Fixed(A.copy())}
    i = pos(rng, y)
    fs = [
        ("label above the range", dict(y_train=put(y, i, K))), ("negative label", dict(y_train=put(y, i, -1))), ("float labels", dict(y_train=y.astype(float))),
        ("labels of another length", dict(y_train=y[:-1])), ("no test points", dict(X_test=Z[:0])), ("test features differ", dict(X_test=Z[:, :1])),
        ("test data of another type", dict(X_test=Z.astype(int))), ("positive log probability floor", dict(min_log_prob=0.5)), ("zero log probability floor", dict(min_log_prob=0.0)),
        ("predictions for fewer points", dict(methods=dict(good, c=Fixed(A[:-1], log)))), ("predictions for more labels", dict(methods=dict(good, c=Fixed(np.hstack((A, A[:, :1])), log)))),
        ("predictions for fewer labels", dict(methods=dict(good, c=Fixed(A[:, :-1], log)))), ("features not a matrix", dict(X_train=X[:, 0], X_test=Z[:, 0])),
    ]
    return L.cl.get_pred_log_prob, dict(X_train=X, y_train=y, X_test=Z, n_labels=K, methods=good), fs


@entry
def e_benchmark(rng):
    N, T = int(rng.randint(4, 15)), int(rng.randint(4, 10))
    X, Z, y, z = rng.randn(N, 2), rng.randn(T, 2), np.arange(N) % 2, np.arange(T) % 2
    A = gen.log_probs(rng, T, 2, neg_inf=False)
    log = bool(rng.rand() < 0.6)
    good = {"a": Fixed(A, log), "b": Fixed(A.copy())}
    bad = dict(good, c=Fixed(put(A, pos(rng, A), float("nan")), log))
    fs = [
        ("missing prediction", dict(methods=bad)), ("unknown reference method", dict(ref_method="nobody")), ("test label above the range", dict(y_test=put(z, pos(rng, z), 2))),
        ("negative test label", dict(y_test=put(z, pos(rng, z), -1))), ("test labels of another type", dict(y_test=z.astype(float))), ("test labels of another length", dict(y_test=z[:-1])),
        ("loss outside its limits", dict(limits={"zero_one": (2.0, 3.0)})), ("train label above the range", dict(y_train=put(y, pos(rng, y), 2))),
    ]
    return L.cl.just_benchmark, dict(X_train=X, y_train=y, X_test=Z, y_test=z, n_labels=2, methods=good, loss_dict=dict(L.cl.STD_CLASS_LOSS), curve_dict={"AUC": L.pc.roc_curve}, ref_method="a"), fs


@entry
def e_reg_predict(rng):
    N, T = int(rng.randint(4, 15)), int(rng.randint(2, 8))
    X, Z, y, z = rng.randn(N, 2), rng.randn(T, 2), rng.randn(N), rng.randn(T)
    mu, std = rng.randn(T), np.exp(rng.randn(T))
    good = {"a": Fixed((mu, std)), "b": Fixed((mu + 1, std))}
    shape = [
        ("targets of another length", dict(y_train=y[:-1])), ("no test points", dict(X_test=Z[:0])), ("test features differ", dict(X_test=Z[:, :1])),
        ("test data of another type", dict(X_test=Z.astype(int))), ("negative std floor", dict(min_std=-0.1)), ("missing std floor", dict(min_std=float("nan"))),
        ("predictions for fewer points", dict(methods=dict(good, c=Fixed((mu[:-1], std))))), ("std for fewer points", dict(methods=dict(good, c=Fixed((mu, std[:-1]))))),
        ("mean of another shape", dict(methods=dict(good, c=Fixed((mu[:, None], std))))),
    ]
    if rng.rand() < 0.5:
        return L.rg.get_gauss_pred, dict(X_train=X, y_train=y, X_test=Z, methods=good), shape
    vals = [("predicted %s %r" % (nm, b), dict(methods=dict(good, c=Fixed((put(mu, pos(rng, mu), b), std) if nm == "mean" else (mu, put(std, pos(rng, std), b)))))) for nm in ("mean", "std") for b in (float("nan"), float("inf"))]
    vals += [("zero predicted std", dict(methods=dict(good, c=Fixed((mu, put(std, pos(rng, std), 0.0)))))), ("negative predicted std", dict(methods=dict(good, c=Fixed((mu, put(std, pos(rng, std), -1.0))))))]
    vals += [("missing test target", dict(y_test=put(z, pos(rng, z), float("nan")))), ("infinite test target", dict(y_test=put(z, pos(rng, z), float("inf")))), ("test targets of another type", dict(y_test=z.astype(int)))]
    vals += [("unknown reference method", dict(ref_method="nobody")), ("loss outside its limits", dict(limits={"MAE": (-2.0, -1.0)})), ("test targets of another length", dict(y_test=z[:-1]))]
    return L.rg.just_benchmark, dict(X_train=X, y_train=y, X_test=Z, y_test=z, methods=good, loss_dict=dict(L.rg.STD_REGR_LOSS), ref_method="a"), shape + vals


BAD_FRAC = [-0.1, 1.1, -1e-9, 1.0 + 1e-9, float("nan"), float("inf")]


@entry
def e_split(rng):
    N = gen.upto(rng, 3, 25)
    idx = gen.index(rng, N)
    kind = pick_kind(rng, ["float", "str", "date", "Int64", "obj"])
    how = gen.pick(rng, ["random", "ordered", "linear"] if kind == "float" else ["random", "ordered"])
    c = pd.Series(column(rng, N, "str" if kind == "obj" else kind), index=idx)
    i = int(rng.randint(N))
    cn = c.astype(object) if kind in ("str", "obj") else c.copy()
    cn.iloc[i] = pd.NaT if kind == "date" else pd.NA if kind == "Int64" else gen.pick(rng, [None, np.nan]) if kind in ("str", "obj") else np.nan
    fl = dict(assume_unique=bool(rng.rand() < 0.2), assume_sorted=bool(rng.rand() < 0.2))
    fs = [("fraction %r" % f, dict(frac=f)) for f in BAD_FRAC] + [("missing value in the split column", dict(S=cn)), ("missing value in the split column, assumptions", dict(S=cn, **fl))]
    if how == "linear":
        ci = c.copy()
        ci.iloc[i] = gen.pick(rng, [np.inf, -np.inf])
        fs.append(("infinite value in a linear split", dict(S=ci)))
    if rng.rand() < 0.5:
        return L.ds.SPLITTER_LIB[how], dict(S=c, frac=0.5), fs
    df = pd.DataFrame({"c": c, "d": np.arange(N)}, index=idx)
    good = {"c": (how, 0.5), "d": ("ordered", 0.7)}
    out = []
    for label, d in fs:
        if "frac" in d:
            out.append((label, dict(splits=dict(good, c=(how, d["frac"])))))
            out.append((label + " (default column)", dict(splits={None: (gen.pick(rng, ["random", "ordered"]), d["frac"])})))
        else:
            df2 = df.copy()
            df2["c"] = d["S"]
            out.append((label, dict(df=df2)))
    out += [("unknown split type", dict(splits={"c": ("nope", 0.5)})), ("no criteria", dict(splits={})), ("empty frame", dict(df=df.iloc[:0])), ("unknown column", dict(splits={"zzz": (how, 0.5)}))]
    return L.ds.split_df, dict(df=df, splits=good), out


@entry
def e_rand(rng):
    return gen.pick(rng, [(L.ds.rand_mask, dict(n_samples=7, frac=0.4), [("fraction %r" % f, dict(frac=f)) for f in BAD_FRAC]), (L.ds.rand_subset, dict(x=list(range(9)), frac=0.4), [("fraction %r" % f, dict(frac=f)) for f in BAD_FRAC])])


@entry
def e_util(rng):
    N = gen.upto(rng, 3, 15)
    x = np.sort(rng.randint(6, size=N).astype(float))
    ux = np.unique(rng.randn(N))
    X = np.sort(rng.rand(2, N), axis=1)
    Y = rng.randn(2, N)
    nan = float("nan")
    y = rng.randint(3, size=N)
    return gen.pick(
        rng,
        [
            (L.ut.one_hot, dict(y=y, n_labels=3), [("label above the range", dict(y=put(y, pos(rng, y), 3))), ("negative label", dict(y=put(y, pos(rng, y), -1))), ("float labels", dict(y=y.astype(float))), ("no labels", dict(n_labels=0))]),
            (L.ut.normalize, dict(log_pred_prob=rng.randn(N, 3)), [("not a matrix", dict(log_pred_prob=rng.randn(N))), ("no labels", dict(log_pred_prob=np.zeros((N, 0))))]),
            (L.ut.epsilon_noise, dict(x=rng.randn(N)), [("value %r" % v, dict(x=put(x, pos(rng, x), v))) for v in (nan, float("inf"))] + [("not a vector", dict(x=X))]),
            (L.ut.unique_take_last, dict(xp=x, yp=rng.randn(N)), [("not sorted", dict(xp=np.append(x[1:], x[0] - 1))), ("missing abscissa", dict(xp=put(x, pos(rng, x), nan))), ("lengths differ", dict(yp=rng.randn(N + 1)))]),
            (L.ut.eval_step_func, dict(x_grid=rng.randn(4), xp=ux, yp=rng.randn(len(ux)), ival=0.0), [("duplicate steps", dict(xp=np.append(ux[:-1], ux[0]) if len(ux) > 1 else ux[:0])), ("lengths differ", dict(yp=rng.randn(len(ux) + 1))), ("point before the first step", dict(ival=None, x_grid=np.array([ux[0] - 1.0, ux[-1]])))]),
            (L.ut.area, dict(x_curve=X, y_curve=Y, kind=gen.pick(rng, ["linear", "previous"])), [("missing abscissa", dict(x_curve=put(X, pos(rng, X), nan))), ("missing ordinate", dict(y_curve=put(Y, pos(rng, Y), nan))), ("shapes differ", dict(y_curve=Y[:, :-1])), ("unknown kind", dict(kind="nope")), ("one point", dict(x_curve=X[:, :1], y_curve=Y[:, :1]))]),
        ],
    )


@entry
def e_format(rng):
    t, metrics = results_table(rng)
    met = gen.pick(rng, metrics)
    i = int(rng.randint(len(t)))

    def bad(stat, v):
        t2 = t.copy()
        t2.iloc[i, list(t.columns).index((met, stat))] = v
        return dict({"perf_tbl" if f is L.sp.decimalize else "perf_tbl_fp": t2})

    f = gen.pick(rng, [L.sp.decimalize, L.sp.just_format_it])
    key = "perf_tbl" if f is L.sp.decimalize else "perf_tbl_fp"
    fs = [("negative error bar", bad("error", -1.0)), ("p-value above one", bad("p", 1.5)), ("p-value above one (slightly)", bad("p", 1.001)), ("negative p-value", bad("p", -0.5))]
    fs += [("columns not named", {key: t.rename_axis(columns=["foo", "bar"])}), ("rows not named", {key: t.rename_axis(index="foo")})]
    kw = {key: t}
    if f is L.sp.decimalize:
        fs += [("no digits for the error bar", dict(err_digits=0)), ("no digits for the p-value", dict(pval_digits=0))]
    else:
        kw["shift_mod"] = 3
        fs += [("modulus zero", dict(shift_mod=0)), ("negative modulus", dict(shift_mod=-3))]
    return f, kw, fs


@entry
def e_print(rng):
    D = Decimal
    return gen.pick(
        rng,
        [
            (L.sp.print_estimate, dict(mu=D("1.25"), EB=D("0.12")), [("shift beyond the precision", dict(shift=3)), ("limits reversed", dict(min_clip=D(2), max_clip=D(1))), ("error bar of another precision", dict(EB=D("0.1"))), ("negative error bar", dict(EB=D("-0.12")))]),
            (L.sp.find_shift, dict(mean_list=[D("1.2"), D("30")], err_list=[D("0.1"), D("1")], shift_mod=3), [("missing estimate", dict(mean_list=[D("NaN"), D(1)])), ("infinite estimate", dict(mean_list=[D(1), D("Infinity")])), ("lengths differ", dict(err_list=[D("0.1")])), ("modulus zero", dict(shift_mod=0))]),
            (L.sp.adjust_headers, dict(headers=[("a", "estimate"), ("a", "p")], shifts={"a": 3}, unit_dict={}), [("metric without a shift", dict(shifts={"b": 3})), ("unknown column", dict(headers=[("a", "error")]))]),
            (L.sp.create_decimal, dict(x=0.1, digits=2), [("no digits", dict(digits=0))]),
        ],
    )


C37 = Prop(
    "C37",
    "%d public entry points x every single fault of their catalogue (bad label, shape, NaN, infinity, range, name, fraction, confidence) at "
    "a random position of random valid data; the same call without the fault must succeed; non-trivial: distinct (entry, fault, data)" % len(ENTRIES),
    assumptions=["python assertions are enabled (no -O)"],
)


@C37.scenario(25 * len(ENTRIES), 400 * len(ENTRIES))
def single_fault(ctx, rng):
    f, good, faults = ENTRIES[ctx.index % len(ENTRIES)](rng)
    name = getattr(f, "__name__", str(f))
    ctx.call(f, **snap(good))
    ctx.events[name] += 1
    for label, change in faults:
        kw = dict(snap(good))
        kw.update(snap(change))
        ctx.rejects(f, "%s: %s" % (name, label), **kw)
        ctx.feature("%s: %s" % (name, label))
        ctx.events[name] += 1
        ctx.note(name, label, ctx.seed)
    ctx.sample(function=name, faults=[a for a, _ in faults])


# ---------------------------------------------------------------------------
C38 = Prop(
    "C38",
    "loss tables (2..16 methods, 1..11 metrics, 2..40 points, t and Bernstein, paired or not, with limits), prediction tables and regression "
    "tables; each run is paired with a transformed run (permuted points or labels, renamed, added/removed/reordered methods and metrics, "
    "translated, rescaled); non-trivial: distinct pairs",
    assumptions=["samples are either constant or not nearly constant (otherwise rounding alone decides the t-test)"],
)


C38.observe("mlpaper.loss_summary_table", "classification.loss_table", "classification.summary_table", "regression.loss_table")


def loss_tbl(rng):
    M, K, N = rng.randint(2, 6), rng.randint(1, 4), gen.upto(rng, 2, 41)
    if rng.rand() < 0.08:
        M, K = [(int(rng.randint(6, 17)), K), (M, int(rng.randint(4, 12)))][rng.randint(2)]
    methods, metrics = gen.names(rng, M), gen.metric_names(rng, K)
    data, lim = {}, {}
    for k in metrics:
        r = rng.randint(3)
        for m in methods:
            if r == 0:
                x = rng.rand(N)
            elif r == 1:
                x = rng.randint(9, size=N) / 8.0
            else:
                x = np.abs(rng.randn(N)) + 0.5
            data[k, m] = x
        lim[k] = (0.0, 1.0) if r == 0 else (-0.25, 1.5) if r == 1 else (0.0, 8.0)
        if r == 2:
            for m in methods:
                data[k, m] = np.minimum(data[k, m], 8.0)
    t = pd.DataFrame(data, index=gen.index(rng, N))
    t.columns = pd.MultiIndex.from_tuples(list(data), names=["metric", "method"])
    return t, methods, metrics, lim


def nearly_constant(t, ref):
    for k, m in t.columns:
        for x in (t[(k, m)].values, t[(k, m)].values - t[(k, ref)].values):
            s = np.std(x)
            if 0 < s < 1e-6 * (1e-3 + np.max(np.abs(x))) or (s == 0 and not np.all(x == x[0])):
                return True
    return False


def table_close(ctx, got, want, msg, rtol=1e-7, atol=1e-9, **det):
    """Compare entry by entry by label."""
    ctx.check(sorted(map(str, got.index)) == sorted(map(str, want.index)), msg + ": methods", got=got, want=want, **det)
    ctx.check(sorted(got.columns) == sorted(want.columns), msg + ": metrics", got=got, want=want, **det)
    w = want.loc[list(got.index), list(got.columns)]
    for c in got.columns:
        ctx.close(got[c].values.astype(float), w[c].values.astype(float), msg, rtol=rtol, atol=atol, column=c, table=got, expected=w, **det)


@C38.scenario(500, 9000)
def losses(ctx, rng):
    t, methods, metrics, lim = loss_tbl(rng)
    ref = gen.pick(rng, methods)
    if nearly_constant(t, ref):
        ctx.feature("skipped: nearly constant")
        return
    kw = dict(pairwise_CI=bool(rng.rand() < 0.5), method_EB=gen.pick(rng, ["t", "bernstein"]), confidence=gen.confidence(rng))
    if kw["method_EB"] == "bernstein" or rng.rand() < 0.5:
        kw["limits"] = lim
    base = ctx.call(L.mm.loss_summary_table, t, ref, **kw)
    run = lambda tt, rr=ref, **k2: ctx.call(L.mm.loss_summary_table, tt, rr, **dict(kw, **k2))  # noqa: E731
    det = dict(losses=t.head(6), ref=ref, options=kw)
    how = gen.pick(rng, ["permute", "rename", "remove", "reorder", "translate", "scale", "add", "one metric", "relabel rows"])
    if how == "permute":
        table_close(ctx, run(t.iloc[rng.permutation(len(t))]), base, "permuting the data points changed the summary", **det)
    elif how == "relabel rows":
        t2 = t.copy()
        t2.index = gen.index(rng, len(t))
        table_close(ctx, run(t2), base, "relabelling the data points changed the summary", rtol=0, atol=0, **det)
    elif how == "rename":
        nm = dict(zip(methods, gen.names(rng, len(methods))))
        nk = dict(zip(metrics, gen.metric_names(rng, len(metrics))))
        t2 = t.copy()
        t2.columns = pd.MultiIndex.from_tuples([(nk[a], nm[b]) for a, b in t.columns], names=["metric", "method"])
        k2 = {"limits": dict((nk[a], v) for a, v in lim.items())} if "limits" in kw else {}
        want = base.rename(index=nm)
        want.columns = pd.MultiIndex.from_tuples([(nk[a], b) for a, b in base.columns])
        table_close(ctx, run(t2, nm[ref], **k2), want, "renaming changed the summary", rtol=1e-12, atol=1e-14, renamed=(nm, nk), **det)
    elif how == "remove":
        keep = [m for m in methods if m == ref or rng.rand() < 0.5]
        cols = [c for c in t.columns if c[1] in keep]
        t2 = t[cols]  # as a selection, or as a table of its own
        if rng.rand() < 0.5:
            t2 = pd.DataFrame(t2.values, index=t.index, columns=pd.MultiIndex.from_tuples(cols, names=["metric", "method"]))
        table_close(ctx, run(t2), base.loc[[m for m in base.index if m in keep]], "removing other methods changed the summary", rtol=1e-12, atol=1e-14, kept=keep, **det)
    elif how == "add":
        t2 = t.copy()
        for k in metrics:
            t2[(k, "newcomer")] = rng.permutation(t[(k, ref)].values)
        got = run(t2)
        ctx.check("newcomer" in got.index, "the added method is missing", got=got, **det)
        table_close(ctx, got.drop(index=["newcomer"]), base, "adding a method changed the summary of the others", rtol=1e-12, atol=1e-14, **det)
    elif how == "one metric":
        k = gen.pick(rng, metrics)
        cols = [c for c in t.columns if c[0] == k]
        t2 = t[cols]  # as a selection, or as a table of its own
        if rng.rand() < 0.5:
            t2 = pd.DataFrame(t2.values, index=t.index, columns=pd.MultiIndex.from_tuples(cols, names=["metric", "method"]))
        table_close(ctx, run(t2), base[[c for c in base.columns if c[0] == k]], "removing other metrics changed the summary", rtol=1e-12, atol=1e-14, kept=k, **det)
    elif how == "reorder":
        table_close(ctx, run(t.iloc[:, rng.permutation(t.shape[1])]), base, "reordering the columns changed the summary", rtol=1e-12, atol=1e-14, **det)
    elif how == "translate":
        c = float(gen.pick(rng, [1.0, -2.5, 10.0, 0.125, -0.75]))
        k2 = {"limits": dict((a, (v[0] + c, v[1] + c)) for a, v in lim.items())} if "limits" in kw else {}
        want = base.copy()
        for k in metrics:
            want[(k, "mean")] = want[(k, "mean")] + c
        t2 = t + c
        if k2:  # rounding must not push a loss past its translated limit
            for a, b in t2.columns:
                t2[(a, b)] = np.clip(t2[(a, b)], *k2["limits"][a])
        table_close(ctx, run(t2, **k2), want, "translating losses and limits by %r did not just move the means" % c, **det)
    else:
        c = float(gen.pick(rng, [2.0, 0.5, 10.0, 1e-3, 1024.0, 3.0]))
        k2 = {"limits": dict((a, (v[0] * c, v[1] * c)) for a, v in lim.items())} if "limits" in kw else {}
        want = base.copy()
        for k in metrics:
            want[(k, "mean")] = want[(k, "mean")] * c
            want[(k, "error")] = want[(k, "error")] * c
        t2 = t * c
        if k2:
            for a, b in t2.columns:
                t2[(a, b)] = np.clip(t2[(a, b)], *k2["limits"][a])
        table_close(ctx, run(t2, **k2), want, "rescaling losses and limits by %r did not just rescale means and error bars" % c, rtol=1e-7, atol=1e-12 * c + 1e-9, **det)
    ctx.feature(how, "%s/%s" % (kw["method_EB"], "paired" if kw["pairwise_CI"] else "unpaired"))
    ctx.note(t, how, ref, sorted(map(str, kw.items())))
    ctx.sample(transformation=how, base=base)


@C38.scenario(250, 4500)
def predictions(ctx, rng):
    """The same relations through the classification pipeline."""
    K, N = gen.pick(rng, [2, 2, 3, 4, 20]), gen.upto(rng, 3, 30)
    methods = gen.names(rng, 3)
    y = rng.randint(K, size=N)
    y[:2] = [0, 1]
    D = dict((m, np.log(rng.dirichlet(np.ones(K), size=N))) for m in methods)
    if rng.rand() < 0.4 and K == 2:  # tied scores
        D = dict((m, np.log(np.stack((1 - p, p), axis=1))) for m, p in ((m, rng.randint(1, 8, size=N) / 8.0) for m in methods))
    mk = lambda DD, ms, idx: pd.DataFrame(np.concatenate([DD[m] for m in ms], axis=1), index=idx, columns=pd.MultiIndex.from_product([ms, range(K)], names=["method", "label"]))  # noqa: E731
    ref = gen.pick(rng, methods)
    loss, curves = dict(L.cl.STD_CLASS_LOSS), dict(L.cl.STD_BINARY_CURVES)
    kw = dict(pairwise_CI=bool(rng.rand() < 0.5), confidence=gen.confidence(rng))

    def run(DD, ms, yy, losses=loss, rr=ref):
        t = mk(DD, ms, gen.index(rng, len(yy)))
        lt = ctx.call(L.cl.loss_table, t, yy, losses)
        s = ctx.call(L.mm.loss_summary_table, lt, rr, **kw)
        areas = {}
        if K == 2:
            for c, f in curves.items():
                for m in ms:
                    try:
                        (a, _, _), _ = L.cl.curve_boot(yy, DD[m], 0.5, curve_f=f, n_boot=2)
                    except AssertionError:
                        a = None if c == "AUPRG" else ctx.fail("curve_boot failed on valid input", curve=c, y=yy, scores=DD[m])
                    areas[c, m] = a
        return lt, s, areas

    def same_areas(a, b, msg, **det):
        for k in a:
            if k in b and a[k] is not None and b[k] is not None:
                ctx.close(float(a[k]), float(b[k]), msg, rtol=1e-8, atol=1e-9, curve=k, **det)

    ls, base, areas = run(D, methods, y)
    bad = nearly_constant(ls, ref)
    det = dict(y=y, predictions=mk(D, methods, range(N)).head(5), ref=ref, options=kw)
    how = gen.pick(rng, ["permute", "rename", "labels", "remove", "losses", "shift rows"])
    if how == "permute":
        p = rng.permutation(N)
        _, s2, a2 = run(dict((m, D[m][p]) for m in methods), methods, y[p])
        if not bad:
            table_close(ctx, s2, base, "permuting the data points changed the summary", **det)
        same_areas(a2, areas, "permuting the data points changed an area", **det)
    elif how == "rename":
        nm = dict(zip(methods, gen.names(rng, 3)))
        _, s2, a2 = run(dict((nm[m], D[m]) for m in methods), [nm[m] for m in methods], y, rr=nm[ref])
        table_close(ctx, s2, base.rename(index=nm), "renaming methods changed the summary", rtol=1e-12, atol=1e-14, renamed=nm, **det)
        same_areas(dict(((c, nm[m]), v) for (c, m), v in areas.items()), a2, "renaming methods changed an area", **det)
    elif how == "labels":
        p = rng.permutation(K)  # new label p[k] for old label k
        inv = np.argsort(p)
        top2 = all(np.min(np.diff(np.sort(D[m], axis=1)[:, -2:], axis=1)) > 1e-9 for m in methods)
        lt2, s2, a2 = run(dict((m, D[m][:, inv]) for m in methods), methods, p[y])
        for c in ls.columns:
            if c[0] != "zero_one" or top2:
                ctx.close(lt2[c].values, ls[c].values, "permuting the class labels changed a loss", rtol=1e-8, atol=1e-10, column=c, permutation=p, **det)
        if K == 2 and p[0] == 1:  # the two ROC curves are mirror images
            for m in methods:
                ctx.close(float(a2["AUC", m]), float(areas["AUC", m]), "exchanging the two classes changed the AUC", rtol=1e-8, atol=1e-9, **det)
    elif how == "remove":
        ms = [ref] + [m for m in methods if m != ref][:1]
        rng.shuffle(ms)
        _, s2, a2 = run(D, ms, y)
        table_close(ctx, s2, base.loc[[m for m in base.index if m in ms]], "removing other methods changed the summary", rtol=1e-12, atol=1e-14, **det)
        same_areas(a2, areas, "removing other methods changed an area", **det)
    elif how == "losses":
        ks = [k for k in loss if rng.rand() < 0.5] or ["NLL"]
        rng.shuffle(ks)
        _, s2, _ = run(D, methods, y, losses=dict((k, loss[k]) for k in ks))
        table_close(ctx, s2, base[[c for c in base.columns if c[0] in ks]], "removing other metrics changed the summary", rtol=1e-12, atol=1e-14, **det)
    else:  # unnormalized rows denote the same predictions
        c = rng.randn(N, 1) * 5
        lt2, _, _ = run(dict((m, D[m] + c) for m in methods), methods, y)
        for k in ls.columns:
            if k[0] != "zero_one":
                ctx.close(lt2[k].values, ls[k].values, "unnormalized predictions changed a loss", rtol=1e-7, atol=1e-9, column=k, **det)
    ctx.feature("predictions: " + how, "labels=%d" % K)
    ctx.note(y, how, *[D[m] for m in methods])


@C38.scenario(200, 3500)
def regressions(ctx, rng):
    N = gen.upto(rng, 3, 30)
    methods = gen.names(rng, 3)
    y = rng.randn(N)
    P = dict((m, (rng.randn(N), np.exp(0.5 * rng.randn(N)))) for m in methods)
    ref = gen.pick(rng, methods)
    kw = dict(pairwise_CI=bool(rng.rand() < 0.5), confidence=gen.confidence(rng))

    def run(PP, yy, rr=ref):
        cols = pd.MultiIndex.from_product([list(PP), ["mu", "std"]], names=["method", "moment"])
        t = pd.DataFrame(np.stack([v for m in PP for v in PP[m]], axis=1), columns=cols, index=gen.index(rng, len(yy)))
        if rng.rand() < 0.3:
            t = t.iloc[:, rng.permutation(t.shape[1])]
        return ctx.call(L.mm.loss_summary_table, ctx.call(L.rg.loss_table, t, yy, dict(L.rg.STD_REGR_LOSS)), rr, **kw)

    base = run(P, y)
    det = dict(y=y, ref=ref, options=kw)
    how = gen.pick(rng, ["permute", "rename", "translate", "scale", "remove", "mirror"])
    want = base.copy()
    if how == "permute":
        p = rng.permutation(N)
        got = run(dict((m, (a[p], b[p])) for m, (a, b) in P.items()), y[p])
    elif how == "rename":
        nm = dict(zip(methods, gen.names(rng, 3)))
        got, want = run(dict((nm[m], v) for m, v in P.items()), y, nm[ref]), base.rename(index=nm)
    elif how == "translate":
        c = float(gen.pick(rng, [3.0, -0.5, 10.0]))
        got = run(dict((m, (a + c, b)) for m, (a, b) in P.items()), y + c)
    elif how == "mirror":
        got = run(dict((m, (-a, b)) for m, (a, b) in P.items()), -y)
    elif how == "scale":
        c = float(gen.pick(rng, [2.0, 0.25, 10.0]))
        got = run(dict((m, (a * c, b * c)) for m, (a, b) in P.items()), y * c)
        want[("NLL", "mean")] += np.log(c)
        for k, s in (("MSE", c * c), ("MAE", c)):
            want[(k, "mean")] *= s
            want[(k, "error")] *= s
    else:
        ms = [m for m in methods if m == ref or rng.rand() < 0.5]
        got, want = run(dict((m, P[m]) for m in ms), y), base.loc[[m for m in base.index if m in ms]]
    table_close(ctx, got, want, "regression summary after '%s'" % how, **det)
    ctx.feature("regression: " + how)
    ctx.note(y, how, ref)
