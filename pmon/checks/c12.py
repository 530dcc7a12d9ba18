"""C12: sample-size measures and weight trimming obey their definitions."""
import numpy as np

from .. import ref

RULE = ("one case = a block of generated weight vectors (uniform, exponential, power law, one dominant, ties, zeros, tiny and "
        "huge scales, length 1 and up), each put through all measures and trimmings; non-trivial if the weights are not all "
        "equal; distinct by family, length class and options")
REQUIRED = ["ess definition", "uss definition", "ess bounds", "uss bounds", "ess scale/order", "uss scale/order",
            "compute_ess definition", "compute_ess offset", "increment_logz", "trim pairs", "trim threshold",
            "trim keeps ESS", "trim normalised", "trim ends"]
CPU = 100
SOFT = dict(quick=200, thorough=1500)
FAMS = ["equal", "exp", "power", "dominant", "ties", "zeros", "gauss", "tiny", "huge", "two", "ramp", "nearlyequal",
        "degenerate", "extreme"]


def cases(tier, seed):
    n = 48 if tier == "quick" else 400
    return [dict(fam=FAMS[i % len(FAMS)], seed=seed * 1000003 + i, n=25) for i in range(n + 12)]


def weights(rng, fam):
    n = int(rng.choice([1, 2, 3, 5, 10, 50, 200, 1000, 3000]))
    if fam == "equal":
        w = np.full(n, rng.uniform(0.1, 3))
    elif fam == "exp":
        w = rng.exponential(1, n)
    elif fam == "power":
        w = rng.uniform(0, 1, n) ** rng.uniform(2, 30)
    elif fam == "dominant":
        w = rng.uniform(0, 1e-6, n)
        w[rng.integers(n)] = 1.0
    elif fam == "ties":
        w = rng.integers(1, 4, n).astype(float)
    elif fam == "zeros":
        w = rng.exponential(1, n) * (rng.uniform(size=n) < 0.5)
        w[rng.integers(n)] = 1.0
    elif fam == "gauss":
        w = np.exp(-0.5 * rng.normal(0, 2, n) ** 2)
    elif fam == "tiny":
        w = rng.exponential(1e-120, n)
    elif fam == "huge":
        w = rng.exponential(1e120, n)
    elif fam == "two":
        w = np.where(np.arange(n) < n // 2, 1.0, 1e-3)
    elif fam == "ramp":
        w = np.arange(1, n + 1).astype(float)
    elif fam == "nearlyequal":
        w = 1 + 1e-9 * rng.normal(size=n)
    elif fam == "degenerate":
        w = np.zeros(n)
        w[rng.integers(n)] = rng.uniform(0.5, 2)
    else:
        w = np.exp(rng.uniform(-700, 0, n))
        w[0] = 1.0
    return rng.permutation(w)


def rel(a, b, t=1e-9):
    return abs(a - b) <= t * max(abs(a), abs(b), 1e-300)


def run(c, m):
    from pocomc.tools import (compute_ess, effective_sample_size, increment_logz, trim_weights, unique_sample_size)
    rng = np.random.default_rng(c["seed"])
    for rep in range(c["n"]):
        fam = c["fam"] if rep % 3 else FAMS[int(rng.integers(len(FAMS)))]
        w = weights(rng, fam)
        big = rep == 1
        if big:                    # as many as a long run stores
            w = np.concatenate([w] + [weights(rng, fam) for _ in range(40)])[:12000]
        n = len(w)
        wl = w.astype(np.longdouble)
        p = wl / wl.sum()
        # effective sample size
        e = float(effective_sample_size(w.copy()))
        te = float(1 / np.sum(p ** 2))
        m.check("ess definition", rel(e, te, 1e-8), "ESS %r, definition gives %r (%s, n=%d)" % (e, te, fam, n))
        m.check("ess bounds", 1 - 1e-9 <= e <= n * (1 + 1e-9), "ESS %r outside [1, %d]" % (e, n))
        sc = float(10.0 ** rng.integers(-20, 20)) if fam not in ("tiny", "huge") else 1e3
        e2 = float(effective_sample_size(rng.permutation(w) * sc))
        m.check("ess scale/order", rel(e, e2, 1e-8), "ESS changes from %r to %r with scale and order" % (e, e2))
        # unique sample size
        nz = int(np.sum(w > 0))
        for k in (None, 1, 2, n, 2 * n + 3, int(rng.integers(1, 500)), int(10.0 ** rng.uniform(4, 6))):
            kk = n if k is None else k
            u = float(unique_sample_size(w.copy()) if k is None else unique_sample_size(w.copy(), k=k))
            tu = float(np.sum(np.where(p >= 1, np.longdouble(1), -np.expm1(kk * np.log1p(-np.minimum(p, np.longdouble(1) - np.longdouble(1e-19)))))))
            m.check("uss definition", rel(u, tu, 1e-8) or abs(u - tu) < 1e-9 * n,
                    "USS(k=%s) %r, definition gives %r (%s, n=%d)" % (k, u, tu, fam, n))
            m.check("uss bounds", 1 - 1e-9 <= u <= min(nz, kk) * (1 + 1e-9) + 1e-9 * n,
                    "USS(k=%s) %r outside [1, %d]" % (k, u, min(nz, kk)))
            a = rng.permutation(w) * sc
            u2 = float(unique_sample_size(a) if k is None else unique_sample_size(a, k=k))
            m.check("uss scale/order", abs(u - u2) <= 1e-8 * max(u, 1), "USS changes from %r to %r" % (u, u2))
        # log-weight versions
        with np.errstate(divide="ignore"):
            lw = np.log(w)
        for off in (0.0, 700.0, -1e4, 1e6):
            x = lw + off
            keep = x.copy()
            ce = float(compute_ess(x))
            m.check("compute_ess definition", rel(ce, te / n, 1e-7 + abs(off) * 1e-13),
                    "compute_ess %r, definition gives %r (offset %g)" % (ce, te / n, off))
            m.check("compute_ess offset", 1 / n - 1e-9 <= ce <= 1 + 1e-9, "compute_ess %r out of bounds" % ce)
            iz = float(increment_logz(x))
            ti = float(np.log(wl[wl > 0].sum()) + np.longdouble(off))
            m.check("increment_logz", abs(iz - ti) <= 1e-9 * max(1, abs(ti)), "increment_logz %r, sum gives %r" % (iz, ti))
            m.check("log-weights unchanged", np.array_equal(x, keep), "log-weights were modified")
        if not big:
            trim(m, rng, w, p, te, fam, n, trim_weights)
        if n > 1 and np.ptp(w) > 0:
            m.key(fam, n)


def trim(m, rng, w, p, te, fam, n, trim_weights):
    for ess, bins in ((0.99, 1000), (0.5, 100), (0.9, 10), (1.0, 50), (0.05, 1000), (0.999, 3), (float(rng.uniform(0.01, 1)),
                                                                                             int(rng.integers(2, 2000)))):
        for form in ("index", "rows"):
            ids = np.arange(n) if form == "index" else np.stack([np.arange(n), -np.arange(n)], axis=1).astype(float)
            s, tw = trim_weights(ids, w.copy(), ess=ess, bins=bins)
            m.judged("trim ends")
            got = s if form == "index" else s[:, 0].astype(int)
            if not (len(s) == len(tw) and len(tw) >= 1 and len(set(got.tolist())) == len(got)):
                m.violation("trim pairs: %d samples, %d weights, duplicates" % (len(s), len(tw)))
                return
            q = np.asarray(p[got], dtype=float)
            q = q / q.sum()
            m.check("trim pairs", np.allclose(np.asarray(tw, dtype=float), q, rtol=1e-7, atol=1e-300),
                    "weights after trimming do not belong to the samples (%s, n=%d, ess=%g)" % (fam, n, ess))
            m.check("trim normalised", abs(float(np.sum(tw)) - 1) < 1e-9, "trimmed weights sum to %r" % np.sum(tw))
            mask = np.zeros(n, dtype=bool)
            mask[got] = True
            lo = float(np.min(w[mask]))
            hi = float(np.max(w[~mask])) if not mask.all() else -1.0
            m.check("trim threshold", hi < lo * (1 + 1e-12) if hi >= 0 else True,
                    "a removed sample has weight %r, a kept one %r" % (hi, lo))
            if hi >= 0 and hi == lo:
                m.violation("trim threshold: of samples with equal weight some are kept and some removed", fam=fam, n=n)
            ek = 1 / float(np.sum((p[mask] / p[mask].sum()) ** 2))
            m.check("trim keeps ESS", ek >= ess * te * (1 - 1e-9) or mask.all(),
                    "kept ESS %r of %r, requested %g" % (ek, te, ess))
