"""Monitoring core: contract hooks on the live mlpaper modules, event log,
case scheduler, verdicts, evidence.

A *case* is one deterministic workload (scenario, index, seed).  While a case
runs, every call of a hooked public function is recorded as an event (argument
snapshot before the call, result after it) and handed to the oracles registered
for that function, no matter whether the workload or mlpaper itself made the
call.  Scenario code adds oracles over the whole history of the case.
"""
import argparse
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter, OrderedDict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RVMON_REPO", "/repo")
CASE_CPU_S = 120.0  # CPU seconds of one case after which it counts as not terminating

import numpy as np  # noqa: E402

MODULES = ("constants", "util", "boot_util", "perf_curves", "mlpaper", "classification", "regression", "data_splitter", "sciprint")


class Abort(BaseException):
    """Ends the current case after a violation was recorded (BaseException so
    that no bare/broad handler in the monitored code can swallow it)."""


class NoTermination(BaseException):
    pass


class Lib(object):
    """The live mlpaper modules."""

    def load(self):
        sys.path.insert(0, REPO)
        for name in MODULES:
            mod = importlib.import_module("mlpaper." + name)
            assert os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep), mod.__file__
            setattr(self, name, mod)
        self.mm = self.mlpaper
        self.bu, self.pc, self.ut = self.boot_util, self.perf_curves, self.util
        self.cl, self.rg = self.classification, self.regression
        self.ds, self.sp, self.co = self.data_splitter, self.sciprint, self.constants


L = Lib()

# ---------------------------------------------------------------------------
# Snapshots and digests
# ---------------------------------------------------------------------------


def snap(x):
    """Deep snapshot of an argument or result (values, not identities)."""
    import pandas as pd

    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.copy(deep=True)
    if isinstance(x, tuple):
        return tuple(snap(e) for e in x)
    if isinstance(x, list):
        return [snap(e) for e in x]
    if isinstance(x, dict):
        return OrderedDict((k, snap(v)) for k, v in x.items())
    return x


def same(a, b):
    """Exact (bitwise up to nan) structural equality of two snapshots."""
    import pandas as pd

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == "O":
            return all(same(u, v) for u, v in zip(a.ravel().tolist(), b.ravel().tolist()))
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (pd.DataFrame, pd.Series)) or isinstance(b, (pd.DataFrame, pd.Series)):
        if type(a) is not type(b) or a.shape != b.shape or dict(a.attrs) != dict(b.attrs):
            return False
        if isinstance(a, pd.DataFrame):
            if not (a.columns.equals(b.columns) and list(a.columns.names) == list(b.columns.names)):
                return False
            if list(map(str, a.dtypes)) != list(map(str, b.dtypes)):
                return False
        if not (a.index.equals(b.index) and list(a.index.names) == list(b.index.names)):
            return False
        return same(np.asarray(a.values), np.asarray(b.values))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    try:
        if a is b:
            return True
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        r = a == b
        if isinstance(r, (bool, np.bool_)):
            if r:
                return True
            return bool(str(a) == str(b) and type(a) is type(b) and str(a) in ("nan", "NaN", "NaT", "<NA>"))
    except Exception:
        pass
    return type(a) is type(b) and repr(a) == repr(b)


def digest(*xs):
    h = hashlib.blake2b(digest_size=8)
    for x in xs:
        if isinstance(x, np.ndarray) and x.dtype.kind != "O":
            h.update(str((x.shape, x.dtype)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif hasattr(x, "values") and hasattr(x, "index"):
            h.update(repr(list(map(str, x.index))).encode())
            h.update(repr(np.asarray(x.values).tolist()).encode())
        elif isinstance(x, (tuple, list)):
            h.update(digest(*x).to_bytes(8, "little"))
        else:
            h.update(repr(x).encode())
        h.update(b"|")
    return int.from_bytes(h.digest(), "little")


def show(x, n=600):
    """Readable, bounded rendering for replay files and samples."""
    try:
        if isinstance(x, np.ndarray):
            s = "array(%s, %s%s)" % (json.dumps(x.ravel()[:60].tolist(), default=str), x.shape, ", " + str(x.dtype))
        elif hasattr(x, "to_string"):
            s = x.to_string(max_rows=20)
        else:
            s = repr(x)
    except Exception as e:
        s = "<unprintable %s>" % type(e).__name__
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------------------
# Case context
# ---------------------------------------------------------------------------


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.reset_totals()

    def reset_totals(self):
        self.events = Counter()  # hooked function -> observed calls
        self.judged = Counter()  # oracle -> judgements
        self.features = Counter()  # workload classes reached
        self.digests = set()
        self.samples = []

    def start(self, scenario, index, seed):
        self.scenario, self.index, self.seed = scenario, index, seed
        self.violations = []
        self.known = []
        self.log = None  # list of events when recording is on
        self.depth = 0
        self.rng = np.random.RandomState(seed)
        np.random.seed((seed ^ 0x5BD1E995) & 0xFFFFFFFF)
        random.seed(seed)

    # -- verdicts -----------------------------------------------------------
    def record(self, msg, **details):
        if len(self.violations) < 20:
            self.violations.append((msg, dict((k, show(v)) for k, v in details.items())))

    def fail(self, msg, **details):
        self.record(msg, **details)
        raise Abort()

    def check(self, cond, msg, **details):
        self.judged[self.scenario] += 1
        if not cond:
            self.fail(msg, **details)

    def same(self, got, want, msg, **details):
        self.judged[self.scenario] += 1
        if not same(got, want):
            self.fail(msg, got=got, want=want, **details)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12, **details):
        self.judged[self.scenario] += 1
        if not close(got, want, rtol, atol):
            self.fail(msg, got=np.asarray(got), want=np.asarray(want), **details)

    def call(self, f, *args, **kwargs):
        """In-domain call: an exception is itself a violation."""
        try:
            return f(*args, **kwargs)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-3:]]
            self.fail(
                "call failed on valid input: %s: %s" % (type(e).__name__, str(e)[:200]),
                function=getattr(f, "__name__", str(f)),
                where=where,
                args=[show(a, 300) for a in args],
                kwargs=dict((k, show(v, 200)) for k, v in kwargs.items()),
            )

    def rejects(self, f, msg, *args, **kwargs):
        """The call must raise; a returned value is a violation."""
        self.judged[self.scenario] += 1
        try:
            r = f(*args, **kwargs)
        except Exception:
            return
        self.fail("accepted input that must be refused: " + msg, result=r, args=[show(a, 300) for a in args], kwargs=kwargs)

    # -- coverage -----------------------------------------------------------
    def note(self, *xs):
        self.digests.add(digest(*xs))

    def feature(self, *names):
        for n in names:
            self.features[n] += 1

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(dict(scenario=self.scenario, index=self.index, **dict((k, show(v, 300)) for k, v in kw.items())))

    def known_finding(self, key):
        self.known.append(key)


def close(got, want, rtol=1e-9, atol=1e-12):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if got.dtype.kind not in "fiub" or want.dtype.kind not in "fiub":
        try:
            got, want = got.astype(float), want.astype(float)
        except Exception:
            return False
    got, want = got.astype(float), want.astype(float)
    with np.errstate(all="ignore"):
        ok = (got == want) | (np.isnan(got) & np.isnan(want))
        ok |= np.isfinite(got) & np.isfinite(want) & (np.abs(got - want) <= atol + rtol * np.maximum(np.abs(want), np.abs(got)))
    return bool(np.all(ok))


# ---------------------------------------------------------------------------
# Contract hooks
# ---------------------------------------------------------------------------

CTX = None  # current Ctx (one per worker process)


class Event(object):
    __slots__ = ("name", "args", "kwargs", "result", "error", "depth", "np_in", "live_args")

    def arg(self, pos, name, default=None):
        if name in self.kwargs:
            return self.kwargs[name]
        if pos < len(self.args):
            return self.args[pos]
        return default


def _wrap(orig, name, oracles):
    def hooked(*args, **kwargs):
        ctx = CTX
        if ctx is None or getattr(ctx, "in_oracle", False):
            return orig(*args, **kwargs)
        ev = Event()
        ev.name, ev.depth = name, ctx.depth
        ev.args, ev.kwargs = tuple(snap(a) for a in args), dict((k, snap(v)) for k, v in kwargs.items())
        ev.result = ev.error = None
        ev.live_args = (args, kwargs)
        ctx.depth += 1
        try:
            ev.result = orig(*args, **kwargs)
        except Exception as e:
            ev.error = e
            raise
        finally:
            ctx.depth -= 1
            ctx.events[name] += 1
            if ctx.log is not None:
                ev2 = copy.copy(ev)
                ev2.result = snap(ev.result)
                ctx.log.append(ev2)
            if ev.error is None:
                ctx.in_oracle = True
                try:
                    for oracle in oracles:
                        ctx.judged[name] += 1
                        oracle(ctx, ev)
                except Abort:
                    pass  # recorded; the case is judged when it ends
                except Exception as e:
                    ctx.record("%s returned something the oracle cannot read: %s" % (name, repr(e)[:200]), result=ev.result)
                finally:
                    ctx.in_oracle = False
        return ev.result

    hooked.__name__ = getattr(orig, "__name__", name)
    hooked.__wrapped__ = orig
    return hooked


def install(hooks):
    """hooks: {'module.attr': [oracle, ...]}.  Rebind the public attribute in
    its module, in every mlpaper module that imported it, and in the module
    level dicts that hold it."""
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "mlpaper" or n.startswith("mlpaper."))]
    for target, oracles in hooks.items():
        modname, attr = target.split(".")
        orig = getattr(getattr(L, modname), attr, None)
        if orig is None:  # the scenarios that call it will report it
            continue
        new = _wrap(orig, target, oracles)
        for mod in mods:
            for k, v in list(vars(mod).items()):
                if v is orig:
                    setattr(mod, k, new)
                elif isinstance(v, dict) and not k.startswith("__"):
                    for kk, vv in list(v.items()):
                        if vv is orig:
                            v[kk] = new


# ---------------------------------------------------------------------------
# Properties register their scenarios here
# ---------------------------------------------------------------------------


class Prop(object):
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.scenarios = OrderedDict()
        self.hooks = OrderedDict()
        self.final = None  # optional f(merged Ctx) -> list of (msg, details)
        self.kf = {}  # known finding key -> probe scenario
        PROPS[pid] = self

    def scenario(self, quick, thorough, whole=False):
        """whole: the scenario enumerates a fixed list (index runs over it)."""

        def deco(f):
            self.scenarios[f.__name__] = (f, quick, thorough)
            return f

        return deco

    def hook(self, *targets):
        def deco(f):
            for t in targets:
                self.hooks.setdefault(t, []).append(f)
            return f

        return deco

    def observe(self, *targets):
        for t in targets:
            self.hooks.setdefault(t, [])


PROPS = OrderedDict()


def case_seed(seed, pid, scenario, index):
    h = hashlib.blake2b(("%d/%s/%s/%d" % (seed, pid, scenario, index)).encode(), digest_size=4)
    return int.from_bytes(h.digest(), "little")


def _alarm(*_):
    raise NoTermination()


def run_case(prop, ctx, scenario, index, seed):
    f = prop.scenarios[scenario][0]
    ctx.start(scenario, index, case_seed(seed, prop.pid, scenario, index))
    ctx.in_oracle = False
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        f(ctx, ctx.rng)
    except Abort:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-4:]]
        ctx.record("the oracle could not read an observed result: %s" % repr(e)[:300], where=where)
    except NoTermination as e:
        files = [os.path.abspath(t.filename) for t in traceback.extract_tb(e.__traceback__) if t.name != "_alarm"]
        mine = os.path.join(HERE, "rvmon") + os.sep
        own = [f.startswith(mine) for f in files if f.startswith(mine) or f.startswith(os.path.abspath(REPO) + os.sep)]
        if own and own[-1]:  # the monitor was at work, not the monitored code
            ctx.feature("cut short by the monitor's own cost")
        else:
            ctx.record("no termination within %g CPU seconds" % CASE_CPU_S)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx.violations, ctx.known


def worker(pid, tier, seed, jobs, deadline, conn):
    global CTX
    try:
        signal.signal(signal.SIGPROF, _alarm)
        prop = PROPS[pid]
        ctx = CTX = Ctx(pid, tier)
        bad, known, done, skipped = [], [], Counter(), 0
        for scenario, index in jobs:
            if time.time() > deadline:
                skipped += 1
                continue
            v, k = run_case(prop, ctx, scenario, index, seed)
            done[scenario] += 1
            known.extend(k)
            if v:
                bad.append((scenario, index, v))
                if len(bad) >= 5:
                    break
        out = dict(
            bad=bad, known=known, done=done, skipped=skipped, events=ctx.events, judged=ctx.judged,
            features=ctx.features, digests=ctx.digests, samples=ctx.samples, error=None,
        )
    except BaseException:
        out = dict(error=traceback.format_exc())
    conn.send_bytes(pickle.dumps(out))
    conn.close()
    os._exit(0)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return dict((e["key"], e) for e in json.load(f)["findings"])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RVMON_JOBS", "8")))
    args = ap.parse_args(argv)
    t0 = time.time()
    warnings.simplefilter("ignore")
    seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
    pid = args.property
    try:
        L.load()
    except BaseException:
        # mlpaper itself cannot be imported: nothing was observed
        traceback.print_exc()
        sys.exit(3)
    warnings.simplefilter("ignore")
    from rvmon import registry

    registry.load(pid)
    prop = PROPS[pid]
    install(prop.hooks)
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)

    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        global CTX
        signal.signal(signal.SIGPROF, _alarm)
        CTX = Ctx(pid, rp["tier"])
        v, _ = run_case(prop, CTX, rp["scenario"], rp["index"], rp["seed"])
        for msg, det in v:
            print(msg)
            for k, x in det.items():
                print("   %s: %s" % (k, x))
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, args.replay))
        sys.exit(1 if v else 0)

    jobs = []
    for name, (f, nq, nt) in prop.scenarios.items():
        if args.only and name != args.only:
            continue
        jobs.extend((name, i) for i in range(nq if tier == "quick" else nt))
    # deterministic shuffle so that every worker gets a mix
    random.Random(12345).shuffle(jobs)
    budget = float(os.environ.get("RVMON_BUDGET_S", "420" if tier == "quick" else "3000"))
    deadline = t0 + budget
    n = max(1, min(args.jobs, len(jobs)))
    procs = []
    for w in range(n):
        r, s = mp.Pipe(False)
        pid_ = os.fork()
        if pid_ == 0:
            r.close()
            worker(pid, tier, seed, jobs[w::n], deadline, s)
        s.close()
        procs.append((pid_, r))

    tot = Ctx(pid, tier)
    bad, known, done, skipped, errors = [], [], Counter(), 0, []
    for pid_, r in procs:
        try:
            out = pickle.loads(r.recv_bytes())
        except EOFError:
            out = dict(error="worker died")
        os.waitpid(pid_, 0)
        if out["error"]:
            errors.append(out["error"])
            continue
        bad.extend(out["bad"])
        known.extend(out["known"])
        done.update(out["done"])
        skipped += out["skipped"]
        tot.events.update(out["events"])
        tot.judged.update(out["judged"])
        tot.features.update(out["features"])
        tot.digests |= out["digests"]
        tot.samples.extend(out["samples"])

    if prop.final is not None and not errors:
        for msg, det in prop.final(tot):
            bad.append(("final", 0, [(msg, dict((k, show(v)) for k, v in det.items()))]))

    listed = known_findings()
    for key in sorted(set(known)):
        if key in listed and listed[key]["property"] == pid and listed[key]["status"] == "known":
            print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (pid, listed[key]["what"], known.count(key)))
        else:
            bad.append(("known", 0, [("unlisted finding %s" % key, {})]))

    evaluations = int(sum(done.values()))
    evidence = OrderedDict(
        property=pid,
        tier=tier,
        seed=seed,
        level=prop.level,
        coverage=OrderedDict(
            evaluations=evaluations,
            distinct_nontrivial=len(tot.digests),
            rule=prop.rule,
            samples=tot.samples[:6],
            scenarios=dict(done),
            events_observed=dict(tot.events),
            oracle_judgements=dict(tot.judged),
            workload_classes=dict(sorted(tot.features.items())),
            skipped_for_time=skipped,
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(bad),
    )
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    if errors and not bad:
        print("\n".join(errors[:2]))
        print("INCONCLUSIVE property=%s: the monitor itself failed" % pid)
        sys.exit(3)
    if bad:
        bad.sort(key=lambda b: (len(b[2]) == 0, b[0], b[1]))
        for k, (scenario, index, v) in enumerate(bad[:5]):
            path = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (pid, scenario, seed, index))
            with open(path, "w") as f:
                json.dump(dict(property=pid, scenario=scenario, index=index, seed=seed, tier=tier, violations=v), f, indent=1, default=str)
            msg, det = v[0]
            print("%s case %d: %s" % (scenario, index, msg))
            for kk, x in list(det.items())[:6]:
                print("    %s: %s" % (kk, x))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    missing = [s for s in prop.scenarios if done[s] == 0 and not args.only]
    if evaluations == 0 or len(tot.digests) == 0 or missing:
        print("INCONCLUSIVE property=%s: nothing observed for %s" % (pid, missing))
        sys.exit(3)
    print(
        "HELD property=%s tier=%s seed=%d: %d cases, %d distinct, %d hooked events, %d oracle judgements, %.1f s"
        % (pid, tier, seed, evaluations, len(tot.digests), sum(tot.events.values()), sum(tot.judged.values()), time.time() - t0)
    )
    sys.exit(0)
