"""Bitwise snapshots of what a user can read from a sampler, and their comparison."""
import hashlib

import numpy as np


def snapshot(s, rng=True, blobs=None):
    """Everything observable after a run, as a nested dict of arrays."""
    out = dict(results={k: _cp(v) for k, v in dict(s.results).items()})
    p = s.posterior(trim_importance_weights=False)
    out["posterior"] = {"%d" % i: _cp(a) for i, a in enumerate(p)}
    p = s.posterior()
    out["trimmed"] = {"%d" % i: _cp(a) for i, a in enumerate(p)}
    e = s.evidence()
    out["evidence"] = dict(logz=_cp(e[0]), err=_cp(e[1]))
    out["counters"] = dict(calls=int(s.calls), t=int(s.t))
    if rng:
        out["rng"] = rng_digest()
    return out


def _cp(v):
    return None if v is None else np.array(v, copy=True)


def rng_digest():
    import torch
    st = np.random.get_state()
    h = hashlib.sha1(st[1].tobytes() + repr(st[2:]).encode())
    h.update(torch.get_rng_state().numpy().tobytes())
    return dict(state=np.frombuffer(h.digest(), dtype=np.uint8))


def get_rng():
    import torch
    return np.random.get_state(), torch.get_rng_state().clone()


def set_rng(st):
    import torch
    np.random.set_state(st[0])
    torch.set_rng_state(st[1])


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object or a.dtype.hasobject:
        return all(_sameobj(p, q) for p, q in zip(a.ravel().tolist(), b.ravel().tolist()))
    if a.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return a.tobytes() == b.tobytes()


def _sameobj(p, q):
    if isinstance(p, (list, tuple)) and isinstance(q, (list, tuple)):
        return len(p) == len(q) and all(_sameobj(x, y) for x, y in zip(p, q))
    if isinstance(p, np.ndarray) or isinstance(q, np.ndarray):
        return same(p, q)
    if isinstance(p, dict) and isinstance(q, dict):
        return p.keys() == q.keys() and all(_sameobj(p[k], q[k]) for k in p)
    try:
        return bool(p == q) or (p != p and q != q)
    except Exception:
        return False


def differ(a, b, skip=()):
    """Names of the entries that differ."""
    out = []
    for g in sorted(set(a) | set(b)):
        if g in skip:
            continue
        A, B = a.get(g, {}), b.get(g, {})
        for k in sorted(set(A) | set(B)):
            if (k in A) != (k in B) or not (same(A[k], B[k]) if g != "counters" else A[k] == B[k]):
                out.append("%s.%s" % (g, k))
    return out
