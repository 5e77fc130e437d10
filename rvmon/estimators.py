"""Estimators that log what is done to them.

The log is a process-global list (LOG) or, for crash tests, an append-only
file, so that the estimator's own state (which joblib hashes) is not affected
by being observed.
"""
import hashlib
import os

import numpy as np

LOG = []
KEPT = []  # (tag, array handed out, copy of it then)
FILE = None  # path of an append-only event log surviving process death
CRASH = None  # (event name, tag, kind)


KINDS = {"memory": MemoryError, "value": ValueError, "type": TypeError, "attribute": AttributeError, "arithmetic": FloatingPointError, "os": OSError, "missing": NotImplementedError, "index": IndexError}


def _event(kind, tag, *data):
    LOG.append((kind, tag) + tuple(np.array(d, copy=True) for d in data))
    if FILE is not None:
        fd = os.open(FILE, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, ("%s %s\n" % (kind, tag)).encode())
        os.close(fd)
    if CRASH is not None and CRASH[0] == kind and CRASH[1] == tag:
        how = CRASH[2]
        if how == "exit":
            os._exit(17)
        if how == "interrupt":
            raise KeyboardInterrupt()
        if how == "error":
            raise RuntimeError("injected fault")
        if how in KINDS:
            raise KINDS[how]("injected fault")


def _mix(*arrays):
    h = hashlib.blake2b(digest_size=4)
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(str((a.shape, a.dtype.kind)).encode())
        h.update(a.tobytes())
    return int.from_bytes(h.digest(), "little")


class Clf(object):
    """Prediction is a fixed pseudo random function of (tag, setting, training
    data, test row), so any mix-up of methods, data or rows shows."""

    mode = "both"  # log / proba / both / badlog

    def __init__(self, tag, K, setting=0, peaked=1.0):
        self.tag, self.K, self.setting, self.peaked = tag, K, setting, peaked
        self.random_state = 11 + setting  # part of what determines the prediction, as in sklearn

    def __repr__(self):  # says as little as sklearn's does
        return type(self).__name__ + "()"

    def fit(self, X, y):
        _event("fit", self.tag, X, y)
        self.classes_, self.n_features_in_ = np.arange(self.K), np.shape(X)[1]  # what fitted sklearn objects carry
        self.seed_ = _mix(X, np.asarray(y).astype(int)) ^ (hash((self.setting, self.random_state)) & 0xFFFF) ^ _mix(np.frombuffer(self.tag.encode(), dtype=np.uint8))
        return self

    def _raw(self, X):
        X = np.asarray(X)
        out = np.empty((X.shape[0], self.K))
        for n in range(X.shape[0]):
            r = np.random.RandomState((self.seed_ ^ _mix(X[n])) & 0x7FFFFFFF)
            out[n] = r.randn(self.K) * self.peaked
        return out

    def raw_log(self, X):
        return self._raw(X) + 0.25

    def raw_prob(self, X):
        R = self._raw(X)
        R = np.exp(R - R.max(axis=1, keepdims=True))
        R = R / R.sum(axis=1, keepdims=True)
        if self.K > 1:
            R[R < 0.05] = 0.0
        return R / R.sum(axis=1, keepdims=True)


class ClfBoth(Clf):
    def predict_log_proba(self, X):
        _event("predict_log", self.tag, X)
        return self.raw_log(X)

    def predict_proba(self, X):
        _event("predict", self.tag, X)
        return self.raw_prob(X)

    uses = "log"


class ClfLog(Clf):
    def predict_log_proba(self, X):
        _event("predict_log", self.tag, X)
        return self.raw_log(X)

    uses = "log"


class ClfProba(Clf):
    def predict_proba(self, X):
        _event("predict", self.tag, X)
        return self.raw_prob(X)

    uses = "prob"


class ClfBadLog(ClfProba):
    def predict_log_proba(self, X):
        raise [NotImplementedError, RuntimeError, ValueError, TypeError, AttributeError, KeyError][self.setting % 6]("no log form")


class ClfHistory(ClfBoth):
    """fit returns something other than the estimator (a training history)."""

    def fit(self, X, y):
        ClfBoth.fit(self, X, y)
        return {"loss": [0.1]}


class ClfNone(ClfProba):
    def fit(self, X, y):
        ClfProba.fit(self, X, y)


class ClfAttr(ClfProba):
    @property
    def predict_log_proba(self):
        raise AttributeError("not available with this setting")


class ClfSparse(ClfBoth):
    """Gives some labels no probability at all, in log form only."""

    def raw_log(self, X):
        R = self._raw(X) - 0.5
        low = R < np.median(R, axis=1, keepdims=True)
        R[low] = -np.inf
        return R

    def raw_prob(self, X):
        R = np.exp(self._raw(X)) + 0.1
        return R / R.sum(axis=1, keepdims=True)


class ClfKeeps(ClfLog):
    """Hands out an array that it keeps (as a cache would)."""

    def predict_log_proba(self, X):
        _event("predict_log", self.tag, X)
        R = self.raw_log(X)
        KEPT.append((self.tag, R, R.copy()))
        return R


class ClfMissing(ClfLog):
    def raw_log(self, X):
        R = self._raw(X)
        w = (np.arange(len(R)) + self.setting) % 3
        R[w == 0, 0] = np.nan
        R[w == 1, :] = np.where(np.arange(R.shape[1]) == 1, np.nan, R[w == 1, :])
        return R


class Reg(object):
    def __init__(self, tag, setting=0, tiny=False):
        self.tag, self.setting, self.tiny = tag, setting, tiny
        self.random_state = 11 + setting

    def __repr__(self):
        return type(self).__name__ + "()"

    def fit(self, X, y):
        _event("fit", self.tag, X, y)
        self.n_features_in_ = np.shape(X)[1]
        self.seed_ = _mix(X, y) ^ (hash((self.setting, self.random_state)) & 0xFFFF) ^ _mix(np.frombuffer(self.tag.encode(), dtype=np.uint8))
        return self

    def _row(self, X, k):
        X = np.asarray(X)
        out = np.empty(X.shape[0])
        for n in range(X.shape[0]):
            r = np.random.RandomState((self.seed_ ^ _mix(X[n])) & 0x7FFFFFFF)
            out[n] = r.randn(2)[k]
        return out

    def raw_mu(self, X):
        return 3.0 * self._row(X, 0)

    def raw_std(self, X):
        s = np.exp(self._row(X, 1))
        return s * (1e-9 if self.setting == 2 else 1e-3) if self.tiny else s


class RegStd(Reg):
    def predict(self, X, return_std=False):
        _event("predict", self.tag, X)
        mu = self.raw_mu(X)
        return (mu, self.raw_std(X)) if return_std else mu

    has_std = True


class RegHistory(RegStd):
    def fit(self, X, y):
        RegStd.fit(self, X, y)
        return [0.1]


class RegPlain(Reg):
    def predict(self, X):
        _event("predict", self.tag, X)
        return self.raw_mu(X)

    has_std = False


class RegInt(Reg):
    def predict(self, X):
        _event("predict", self.tag, X)
        return np.round(self.raw_mu(X)).astype(int)

    def raw_mu(self, X):
        return np.round(Reg.raw_mu(self, X))

    has_std = False


class RegKeeps(RegStd):
    """Hands out arrays that it keeps (as a cache would)."""

    def predict(self, X, return_std=False):
        _event("predict", self.tag, X)
        mu, std = self.raw_mu(X), self.raw_std(X)
        KEPT.append((self.tag, mu, mu.copy()))
        KEPT.append((self.tag, std, std.copy()))
        return (mu, std) if return_std else mu


class RegOdd(RegStd):
    def raw_std(self, X):
        s = RegStd.raw_std(self, X)
        w = (np.arange(len(s)) + self.setting) % 6
        s[w == 1], s[w == 3], s[w == 4], s[w == 5] = np.nan, -0.7, 0.0, np.inf
        return s


CLFS = [ClfBoth, ClfLog, ClfProba, ClfBadLog, ClfAttr, ClfHistory, ClfNone, ClfSparse, ClfKeeps]
REGS = [RegStd, RegStd, RegPlain, RegInt, RegHistory, RegKeeps]
