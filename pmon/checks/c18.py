"""C18: the prior is the product of its components."""
import numpy as np
import scipy.stats as st

RULE = ("one case = a block of priors built from random lists of one-dimensional distributions (unbounded, half-bounded, "
        "two-sided, heavy-tailed, peaked, tabulated, repeated objects, 1 to 24 components), each evaluated inside, outside and "
        "on the edges of the support and drawn from under several seeds and sizes; non-trivial if it has two or more "
        "components; distinct by number of components and the set of families")
REQUIRED = ["logpdf is the sum", "outside support is -inf", "logpdf rows independent", "logpdf input unchanged", "rvs shape",
            "rvs column follows component", "rvs columns independent", "rvs rows independent", "rvs within bounds",
            "rvs reproducible", "rvs advances", "rvs seed matters", "bounds", "bounds usable", "dim", "pooled column law"]
ASSUMPTIONS = ["the component densities, distribution functions and supports computed by scipy are right"]
CPU = 200
SOFT = dict(quick=250, thorough=2000)


class Triangle(st.rv_continuous):
    """User-defined distribution: density 2x on [0, 1]."""

    def _pdf(self, x):
        return 2 * x

    def _cdf(self, x):
        return x * x

    def _ppf(self, q):
        return np.sqrt(q)


TRI = Triangle(a=0.0, b=1.0, name="tri")
HIST = st.rv_histogram(np.histogram(np.random.default_rng(3).normal(size=500), bins=12))
FAMS = {
    "norm": lambda r: st.norm(r.normal(0, 3), r.uniform(0.1, 3)),
    "narrow": lambda r: st.norm(r.normal(0, 100), 1e-4),
    "uniform": lambda r: st.uniform(r.normal(0, 3), r.uniform(0.1, 5)),
    "wide": lambda r: st.uniform(-1e6, 2e6),
    "stdunif": lambda r: st.uniform(),
    "stdnorm": lambda r: st.norm(),
    "expon": lambda r: st.expon(r.normal(0, 3), r.uniform(0.1, 3)),
    "rexpon": lambda r: st.weibull_max(1.0, r.normal(0, 3), r.uniform(0.1, 3)),
    "truncnorm": lambda r: st.truncnorm(-1.0, 2.0, r.normal(0, 3), r.uniform(0.1, 3)),
    "beta": lambda r: st.beta(r.uniform(1.1, 4), r.uniform(1.1, 4), r.normal(0, 3), r.uniform(0.1, 3)),
    "gamma": lambda r: st.gamma(r.uniform(1.1, 4), r.normal(0, 3), r.uniform(0.1, 3)),
    "t": lambda r: st.t(r.uniform(1.5, 6), r.normal(0, 3), r.uniform(0.1, 3)),
    "cauchy": lambda r: st.cauchy(r.normal(0, 3), r.uniform(0.1, 3)),
    "lognorm": lambda r: st.lognorm(r.uniform(0.2, 1.2), r.normal(0, 3), r.uniform(0.1, 3)),
    "loguniform": lambda r: st.loguniform(10.0 ** r.uniform(-5, -1), 10.0 ** r.uniform(0, 4)),
    "invgamma": lambda r: st.invgamma(r.uniform(1.5, 4), 0, r.uniform(0.1, 3)),
    "halfnorm": lambda r: st.halfnorm(r.normal(0, 3), r.uniform(0.1, 3)),
    "laplace": lambda r: st.laplace(r.normal(0, 3), r.uniform(0.1, 3)),
    "inttrunc": lambda r: st.truncnorm(-2, 2, 1, 2),
    "intunif": lambda r: st.uniform(0, int(r.integers(1, 9))),
    "custom": lambda r: TRI(),
    "hist": lambda r: HIST,
}
NAMES = sorted(FAMS)


def cases(tier, seed):
    n = 64 if tier == "quick" else 640
    return [dict(seed=seed * 1000003 + i, i=i, n=4 if tier == "quick" else 8) for i in range(n)]


def build(rng, i):
    from pocomc import Prior
    d = int([1, 2, 3, 2, 5, 8, 2, 24][i % 8])
    mode = int(rng.integers(5))
    names = [NAMES[int(rng.integers(len(NAMES)))] for _ in range(d)]
    if mode == 0:
        names = [names[0]] * d              # same family, own parameters
    dists = [FAMS[k](rng) for k in names]
    if mode == 1:
        names = [names[0]] * d              # the very same object in every slot
        dists = [dists[0]] * d
    if mode == 2 and d > 2:
        dists[-1] = dists[0]
        names[-1] = names[0]
    return Prior(list(dists)), dists, names


def expected(dists, x):
    out = np.zeros(len(x), dtype=np.longdouble)
    for i in range(len(x)):
        out[i] = sum(np.longdouble(dists[j].logpdf(float(x[i, j]))) for j in range(len(dists)))
    return out.astype(float)


def agree(a, b):
    with np.errstate(invalid="ignore"):
        return (a == b) | (np.abs(a - b) <= 1e-9 * np.maximum(1, np.abs(b)))


def run(c, m):
    rng = np.random.default_rng(c["seed"])
    pits = []
    for rep in range(c["n"]):
        prior, dists, names = build(rng, c["i"] + rep)
        d = len(dists)
        tag = "%d components %s" % (d, ",".join(names))
        m.check("dim", int(prior.dim) == d, "dim is %r for %s" % (prior.dim, tag))
        b = np.asarray(prior.bounds, dtype=float)
        ok = b.shape == (d, 2) and all(tuple(map(float, dists[j].support())) == tuple(b[j]) for j in range(d))
        m.check("bounds", ok, "bounds %r, supports %r" % (b.tolist(), [dists[j].support() for j in range(d)]))
        m.check("bounds usable", np.issubdtype(np.asarray(prior.bounds).dtype, np.floating), "bounds have type %s, which a sampler "
                "refuses (%s)" % (np.asarray(prior.bounds).dtype, tag))
        n = 2500 if d <= 3 else 1200
        s0 = int(rng.integers(1, 2**31))
        np.random.seed(s0)
        x = prior.rvs(size=n)
        x2 = prior.rvs(size=n)
        np.random.seed(s0)
        y = prior.rvs(size=n)
        y2 = prior.rvs(size=n)
        np.random.seed(s0 + 1)
        z = prior.rvs(size=n)
        m.check("rvs shape", np.shape(x) == (n, d), "rvs(%d) has shape %r for %s" % (n, np.shape(x), tag))
        if np.shape(x) != (n, d):
            continue
        m.check("rvs reproducible", np.array_equal(x, y) and np.array_equal(x2, y2),
                "the same global seed gives different draws (%s)" % tag)
        m.check("rvs advances", not np.any(np.all(x == x2, axis=0)) if "hist" not in names else not np.array_equal(x, x2),
                "a second call repeats the draws of the first in some column (%s)" % tag)
        m.check("rvs seed matters", not np.any(np.all(x == z, axis=0)),
                "another seed gives the same draws in some column (%s)" % tag)
        for size in (1, 2, np.int64(7), int(rng.integers(1, 300))):
            v = prior.rvs(size=size)
            m.check("rvs shape", np.shape(v) == (int(size), d), "rvs(%s) has shape %r" % (size, np.shape(v)))
        v = prior.rvs()
        m.check("rvs shape", np.shape(v) == (1, d), "rvs() has shape %r" % (np.shape(v),))
        inside = np.all((x >= b[:, 0]) & (x <= b[:, 1])) if b.shape == (d, 2) else False
        m.check("rvs within bounds", bool(inside), "draws outside the bounds (%s)" % tag)
        u = np.stack([dists[j].cdf(np.concatenate([x[:, j], x2[:, j], z[:, j]])) for j in range(d)], axis=1)
        for j in range(d):
            p = st.kstest(u[:, j], "uniform").pvalue
            m.check("rvs column follows component", p > 1e-9, "column %d (%s) does not follow its component: KS p=%.2g" %
                    (j, names[j], p))
        N = len(u)
        if d > 1:
            # uniform scores: every pair of columns independent, in value and in spread
            g = u - 0.5
            q = g ** 2
            q = q - q.mean(axis=0)
            for a, nm in ((g, "value"), (q, "spread")):
                r = np.corrcoef(a.T)
                r[np.diag_indices(d)] = 0
                k = np.unravel_index(np.argmax(np.abs(r)), r.shape)
                m.check("rvs columns independent", abs(r[k]) < 7.0 / np.sqrt(N),
                        "columns %d and %d are dependent (%s correlation %.3f, %s)" % (k[0], k[1], nm, r[k], tag))
        for lag in (1, 2, 5):
            for j in range(d):
                a = u[:n, j] - 0.5
                r = float(np.corrcoef(a[:-lag], a[lag:])[0, 1])
                m.check("rvs rows independent", abs(r) < 7.0 / np.sqrt(n), "rows of column %d repeat at lag %d (r=%.3f)" %
                        (j, lag, r))
            for j in range(d - 1):
                r = float(np.corrcoef(u[:n - lag, j], u[lag:n, j + 1])[0, 1])
                m.check("rvs rows independent", abs(r) < 7.0 / np.sqrt(n), "columns %d, %d related at lag %d (r=%.3f)" %
                        (j, j + 1, lag, r))
        m.check("rvs rows independent", len(np.unique(np.round(x, 14), axis=0)) > 0.99 * n, "repeated rows (%s)" % tag)
        pits.append(u[:, int(rng.integers(d))][:1000])

        # log-density, inside and outside and on the edges
        pts = x[:60].copy()
        for i in range(20, 60):
            j = int(rng.integers(d))
            lo, hi = dists[j].support()
            w = float(dists[j].ppf(0.8) - dists[j].ppf(0.2))
            how = i % 8
            if how == 0 and np.isfinite(lo):
                pts[i, j] = lo - w * rng.uniform(1e-6, 2)
            elif how == 1 and np.isfinite(hi):
                pts[i, j] = hi + w * rng.uniform(1e-6, 2)
            elif how == 2 and np.isfinite(lo):
                pts[i, j] = lo
            elif how == 3 and np.isfinite(hi):
                pts[i, j] = hi
            elif how == 4:
                pts[i, j] = dists[j].ppf(rng.choice([1e-9, 1 - 1e-9]))
            elif how == 5:
                pts[i, j] += rng.choice([-1, 1]) * 50 * w
            elif how == 6:
                pts[i] = pts[i] + rng.normal(size=d) * 5
            elif how == 7 and np.isfinite(lo):
                pts[i, j] = lo - 1e-6 * max(w, abs(lo))
        exp = expected(dists, pts)
        keep = pts.copy()
        with np.errstate(all="ignore"):
            got = np.asarray(prior.logpdf(pts), dtype=float)
        m.check("logpdf input unchanged", np.array_equal(pts, keep), "logpdf modified its input")
        m.check("logpdf is the sum", got.shape == (60,), "logpdf of 60 rows has shape %r" % (got.shape,))
        if got.shape != (60,):
            continue
        judge = ~np.isnan(exp) & ~np.isposinf(exp)
        okr = agree(got, exp) | ~judge
        k = int(np.argmin(okr))
        m.judged("logpdf is the sum", int(judge.sum()) - 1)
        if not np.all(okr):
            m.violation("logpdf is the sum: at %r logpdf is %r, the components sum to %r (%s)" %
                        (pts[k].tolist(), float(got[k]), float(exp[k]), tag))
        out = np.array([any(not (dists[j].support()[0] <= pts[i, j] <= dists[j].support()[1]) for j in range(d))
                        for i in range(60)]) & judge
        m.judged("outside support is -inf", int(out.sum()))
        if np.any(got[out] != -np.inf):
            i = int(np.flatnonzero(out & (got != -np.inf))[0])
            m.violation("outside support is -inf: logpdf %r at %r (%s)" % (float(got[i]), pts[i].tolist(), tag))
        # rows do not influence each other, whatever the memory layout
        perm = rng.permutation(60)
        forms = [(perm, np.ascontiguousarray(pts[perm])), (perm, np.asfortranarray(pts[perm])),
                 (perm[:1], pts[perm[:1]]), (perm[:7], pts[perm][:7]), (np.arange(0, 60, 2), pts[::2])]
        for ids, arr in forms:
            with np.errstate(all="ignore"):
                g2 = np.asarray(prior.logpdf(arr), dtype=float)
            m.check("logpdf rows independent", g2.shape == (len(ids),) and np.all(agree(g2, got[ids]) | ~judge[ids]),
                    "log-density of a row depends on the other rows (%s)" % tag)
        if d > 1:
            m.key(d, "+".join(sorted(set(names))[:4]))
    m.data["u"] = np.concatenate(pits) if pits else np.zeros(0)


def finish(data, m, tier, seed):
    """All uniform scores together: small common distortions."""
    u = np.concatenate([r["u"] for _, r in data if "u" in r])
    p = st.kstest(u, "uniform").pvalue
    m.check("pooled column law", p > 1e-9, "the uniform scores of all draws are not uniform: KS p=%.2g of %d" % (p, len(u)))
    m.note(pooled_draws=len(u), pooled_p=p)
