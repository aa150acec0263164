"""Shared vocabulary of the checks."""
import hashlib
import json
import numpy as np


class Violation(Exception):
    """The code under test contradicts the property on this case."""

    def __init__(self, what, **info):
        super().__init__(what)
        self.what = what
        self.info = info


class Discard(Exception):
    """The generated case lies outside the property's domain (counted, not evaluated)."""


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_seed(case, salt=0):
    """32-bit seed that depends only on the content of the case."""
    return int.from_bytes(hashlib.sha256((canon(case) + str(salt)).encode()).digest()[:4], "little")


def rng_of(case, salt="rng"):
    return np.random.default_rng(case_seed(case, salt))


def to_np(x):
    return np.asarray(x)


def err(a, b):
    """max |a-b| relative to the size of the larger operand (floor 1e-6); inf on non finite/shape mismatch"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return float("inf")
    return float(np.max(np.abs(a - b)) / max(1e-6, np.max(np.abs(a)), np.max(np.abs(b))))


def aerr(a, b, scale=1.0):
    """max |a-b| / max(scale, |a|, |b|): error relative to a known natural scale"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return float("inf")
    return float(np.max(np.abs(a - b)) / max(scale, np.max(np.abs(a)), np.max(np.abs(b))))


def require(cond, what, **info):
    if not bool(cond):
        raise Violation(what, **info)


def require_close(a, b, tol, what, scale=None, **info):
    e = err(a, b) if scale is None else aerr(a, b, scale)
    if not e <= tol:
        raise Violation(f"{what}: deviation {e:.3g} > {tol:g} (shapes {np.shape(a)} vs {np.shape(b)})", **info)
    return e


class Out:
    """What a case exercised: labels for the distribution, and whether it was non-trivial."""

    def __init__(self, nontrivial, *labels):
        self.nontrivial = bool(nontrivial)
        self.labels = [str(x) for x in labels if x]
