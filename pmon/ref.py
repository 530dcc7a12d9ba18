"""Independent reference implementations used as oracles."""
import numpy as np


def lse(a, axis=None):
    a = np.asarray(a, dtype=np.longdouble)
    m = np.max(a, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    r = np.log(np.sum(np.exp(a - m), axis=axis, keepdims=True)) + m
    return r.reshape(()) [()] if axis is None else np.squeeze(r, axis=axis)


def mixture_logw(logl, beta, logz, beta_final):
    """Unnormalised log importance weights of L^beta_final with respect to the
    equal mixture of the annealed distributions L^beta_t / Z_t (t = all
    iterations), of particles logl (flat)."""
    logl = np.asarray(logl, dtype=np.longdouble).reshape(-1)
    beta = np.asarray(beta, dtype=np.longdouble)
    logz = np.asarray(logz, dtype=np.longdouble)
    comp = logl[None, :] * beta[:, None] - logz[:, None]
    return logl * np.longdouble(beta_final) - (lse(comp, axis=0) - np.log(np.longdouble(len(beta))))


def normalise(logw):
    w = np.exp(logw - np.max(logw))
    return w / np.sum(w)


def ess(w):
    w = np.asarray(w, dtype=np.longdouble)
    return float(np.sum(w) ** 2 / np.sum(w ** 2))


def uss(w, k=None):
    w = np.asarray(w, dtype=np.longdouble)
    w = w / np.sum(w)
    k = len(w) if k is None else k
    return float(np.sum(-np.expm1(k * np.log1p(-np.minimum(w, 1)))) if np.all(w < 1) else 1.0)


def metric(w, kind):
    return ess(w) if kind == "ess" else uss(w)
