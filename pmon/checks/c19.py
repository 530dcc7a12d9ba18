"""C19: posterior expectations and evidence converge to the true values."""
import numpy as np
import scipy.stats as st

from .. import gen, ref

RULE = ("one case = one configuration (kernel, flow, metric, resampling, transform, dynamic allocation, evaluation) on one target "
        "whose posterior distribution functions and evidence are known by quadrature, run with several seeds: errors of the "
        "probability integral transforms of the weighted samples (location, spread, both tails, correlation) and of the "
        "log-evidence are averaged over the seeds and, in the aggregate oracle, over every level of every factor; or one run "
        "repeated with constants added to the log-likelihood; distinct by target and configuration")
REQUIRED = ["posterior location", "posterior spread", "posterior tails", "posterior correlation", "evidence",
            "evidence by importance sampling", "offset: samples and weights", "offset: evidence", "offset: statistics",
            "aggregate location", "aggregate spread", "aggregate tails", "aggregate evidence", "resampled posterior location"]
ASSUMPTIONS = ["thresholds are several times the Monte Carlo error measured on the unchanged tree"]
CPU = 400
SOFT = dict(quick=330, thorough=2600)


# ---- targets: products of one-dimensional factors (or one correlated Gaussian)

def lk_gauss(m, s):
    return lambda x: -0.5 * ((x - m) / s) ** 2


def lk_cut(m, s, c):
    return lambda x: np.where(x < c, -0.5 * ((x - m) / s) ** 2, -np.inf)


def lk_gamma(k, b):
    def f(x):
        with np.errstate(divide="ignore", invalid="ignore"):
            return np.where(x > 0, k * np.log(np.maximum(x, 1e-300)) - b * x, -np.inf)
    return f


def lk_beta(a, b):
    def f(x):
        with np.errstate(divide="ignore", invalid="ignore"):
            return a * np.log(np.clip(x, 1e-300, 1)) + b * np.log(np.clip(1 - x, 1e-300, 1))
    return f


def lk_two(m1, m2, s, f):
    return lambda x: np.logaddexp(np.log(f) - 0.5 * ((x - m1) / s) ** 2, np.log(1 - f) - 0.5 * ((x - m2) / s) ** 2)


def lk_t(m, s):
    return lambda x: -2.5 * np.log1p(((x - m) / s) ** 2 / 4)


U, N = st.uniform, st.norm
TARGETS = {
    "normal": [(N(0, 2), lk_gauss(1.5, 0.6)), (N(3, 1), lk_gauss(2.0, 0.5))],
    "edge": [(U(0, 1), lk_gauss(0.05, 0.15)), (U(-2, 4), lk_gauss(2.1, 0.5))],
    "half": [(st.gamma(2.0, 0, 1.5), lk_gamma(3.0, 2.0)), (st.expon(1.0, 2.0), lk_gauss(1.2, 0.6))],
    "upper": [(st.weibull_max(1.0, 2.0, 1.5), lk_gauss(1.8, 0.5)), (N(0, 1), lk_gauss(0.5, 0.5))],
    "beta": [(st.beta(2, 2), lk_beta(6, 1)), (st.beta(1.5, 3, -1, 2), lk_gauss(-0.7, 0.2))],
    "cut": [(U(-3, 6), lk_cut(0.5, 0.8, 0.7)), (N(0, 1), lk_gauss(0.3, 0.7))],
    "two": [(U(-4, 8), lk_two(-1.2, 1.2, 0.45, 0.35)), (N(0, 1), lk_gauss(0.0, 0.8))],
    "mix4": [(N(0, 2), lk_gauss(1.0, 0.7)), (U(0, 5), lk_gauss(1.0, 0.8)), (st.expon(0, 1), lk_gauss(0.5, 0.6)),
             (st.weibull_max(1.0, 0.0, 1.0), lk_gauss(-0.4, 0.5))],
    "one": [(st.truncnorm(-2, 2, 1, 2), lk_gauss(3.5, 1.0))],
    "heavy": [(st.t(4, 0, 1), lk_t(1.0, 0.5)), (st.lognorm(0.5, 0, 1), lk_gauss(1.5, 0.6))],
}
CORR = dict(m=np.array([1.0, -0.5, 0.3]), S=np.array([[1.0, 0.8, 0.3], [0.8, 1.0, 0.5], [0.3, 0.5, 1.0]]) * 0.4, P=2.0)
_cache = {}


def truth(name):
    """(list of distribution functions, log-evidence)."""
    if name in _cache:
        return _cache[name]
    if name == "corr":
        S0 = CORR["P"] ** 2 * np.eye(3)
        A = np.linalg.inv(np.linalg.inv(S0) + np.linalg.inv(CORR["S"]))
        mu = A @ np.linalg.inv(CORR["S"]) @ CORR["m"]
        lz = float(st.multivariate_normal(np.zeros(3), S0 + CORR["S"]).logpdf(CORR["m"]) + 0.5 * np.linalg.slogdet(2 * np.pi * CORR["S"])[1])
        L = np.linalg.cholesky(A)
        Li = np.linalg.inv(L)
        _cache[name] = (lambda x: st.norm.cdf((x - mu) @ Li.T), lz)
        return _cache[name]
    cdfs, lz = [], 0.0
    for pr, lk in TARGETS[name]:
        lo, hi = pr.support()
        lo = pr.ppf(1e-13) if not np.isfinite(lo) else lo
        hi = pr.isf(1e-13) if not np.isfinite(hi) else hi
        q = np.linspace(0, 1, 400001)
        g = 0.5 * (lo + (hi - lo) * q) + 0.5 * np.clip(pr.ppf(np.clip(q, 1e-13, 1 - 1e-13)), lo, hi)
        mid = 0.5 * (g[1:] + g[:-1])
        with np.errstate(divide="ignore", invalid="ignore"):
            ld = pr.logpdf(mid) + lk(mid)
        w = np.where(np.isfinite(ld), np.exp(ld), 0.0) * np.diff(g)
        lz += float(np.log(w.sum()))
        F = np.concatenate([[0], np.cumsum(w) / w.sum()])
        cdfs.append((g, F))
    _cache[name] = (lambda x: np.stack([np.interp(x[:, j], *cdfs[j]) for j in range(len(cdfs))], axis=1), lz)
    return _cache[name]


def problem(name, offset=0.0, vectorize=False):
    from pocomc import Prior
    if name == "corr":
        prior = Prior([N(0, CORR["P"])] * 3)
        Pm = np.linalg.inv(CORR["S"])

        def like(x):
            r = np.atleast_2d(x) - CORR["m"]
            return -0.5 * np.einsum("ij,jk,ik->i", r, Pm, r) + offset
    else:
        fs = TARGETS[name]
        prior = Prior([p for p, _ in fs])

        def like(x):
            x = np.atleast_2d(x)
            return sum(f(x[:, j]) for j, (_, f) in enumerate(fs)) + offset
    return prior, (like if vectorize else (lambda x: float(like(x)[0])))


NAMES = sorted(TARGETS) + ["corr"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    rng = np.random.default_rng([seed, 1900])
    bag = gen.Bag(rng)
    out = []
    for i in range(56 * k):
        kern, pre = gen.KERNELS[i % 4]
        out.append(dict(mode="stat", target=bag.draw("target%d" % (i % 4), NAMES), kern=kern, pre=pre,
                        metric=bag.draw("metric", ["ess", "uss"]), resample=bag.draw("resample", ["mult", "syst"]),
                        transform=bag.draw("transform", ["probit", "logit"]), dynamic=bag.draw("dynamic", [True, False]),
                        n_evidence=bag.draw("nev", [0, 1000]) if pre else 0,
                        flow=bag.draw("flow", ["maf3", "tinymaf", "nsf3", "tinynsf"]) if pre else None,
                        reps=3 if pre else 5, seed=int(rng.integers(1, 10**6))))
    for i in range(8 * k):
        kern = ["tpcn", "rwm"][i % 2]
        out.append(dict(mode="offset", target=bag.draw("otarget", ["normal", "edge", "half", "two", "mix4", "corr"]), kern=kern, pre=False,
                        metric=bag.draw("metric", ["ess", "uss"]), resample=bag.draw("resample", ["mult", "syst"]),
                        transform=bag.draw("transform", ["probit", "logit"]), dynamic=bag.draw("dynamic", [True, False]),
                        n_evidence=0, flow=None, seed=int(rng.integers(1, 10**6))))
    for i in range(4 * k):
        out.append(dict(mode="bigoffset", target=bag.draw("btarget", ["normal", "edge", "half", "corr"]), kern=["tpcn", "rwm"][i % 2],
                        pre=True, metric="ess", resample=["mult", "syst"][i // 2 % 2], transform="probit", dynamic=True,
                        n_evidence=1000, flow=["maf3", "tinymaf"][i % 2], reps=1, seed=int(rng.integers(1, 10**6)),
                        offset=float([-1e4, 1e5, 3e3, -1e6][i % 4])))
    order = [c for c in out if c["pre"]] + [c for c in out if not c["pre"]]
    return order


def one(c, seed, offset=0.0, small=False):
    import pocomc
    vec = seed % 2 == 0
    prior, like = problem(c["target"], offset, vec)
    d = prior.dim
    cfg = dict(n_active=64, n_effective=160, sample=c["kern"], precondition=c["pre"], metric=c["metric"],
               resample=c["resample"], transform=c["transform"], dynamic=c["dynamic"], vectorize=vec, random_state=seed,
               n_steps=max(2, d), n_max_steps=8 * max(2, d))
    if c["pre"]:
        import torch
        torch.manual_seed(seed + 5)
        cfg["flow"] = gen.make_flow(c["flow"], d)
        cfg["train_config"] = dict(epochs=25)
        cfg["n_active"], cfg["n_effective"] = 96, 240
    s = pocomc.Sampler(prior, like, **cfg)
    s.run(n_total=900, n_evidence=c["n_evidence"], progress=False)
    return s


def stats(x, w, cdf):
    """Errors of the uniform scores, per dimension: location, spread (in sd), tails; and correlation."""
    q = cdf(x)
    w = w / w.sum()
    g = q - 0.5
    loc = (w @ g) * np.sqrt(12)
    spr = (w @ (g ** 2)) * 12 - 1
    lo = (w @ (q < 0.1)) / 0.1 - 1
    hi = (w @ (q > 0.9)) / 0.1 - 1
    cor = []
    for i in range(q.shape[1]):
        for j in range(i):
            cor.append(12 * float(np.sum(w * g[:, i] * g[:, j])))
    return loc, spr, lo, hi, np.array(cor)


def run_stat(c, m):
    cdf, lz = truth(c["target"])
    L, S, LO, HI, C, Z, RL = [], [], [], [], [], [], []
    for r in range(c["reps"]):
        s = one(c, c["seed"] + r, c.get("offset", 0.0))
        x, w, _, _ = s.posterior(trim_importance_weights=bool(r % 2))
        a = stats(x, w, cdf)
        L.append(a[0]), S.append(a[1]), LO.append(a[2]), HI.append(a[3]), C.append(a[4])
        Z.append(float(s.evidence()[0]) - c.get("offset", 0.0) - lz)
        xr = s.posterior(resample=True)[0]
        RL.append(stats(xr, np.ones(len(xr)), cdf)[0])
    R = len(L)
    f = np.sqrt(5.0 / R)
    L, S, LO, HI, C, RL = [np.mean(v, axis=0) for v in (L, S, LO, HI, C, RL)]
    tag = "%s, %s%s, %s/%s/%s%s, %d seeds" % (c["target"], c["kern"], " with flow" if c["pre"] else "", c["metric"], c["resample"],
                                             c["transform"], "/dynamic" if c["dynamic"] else "", R)
    m.data.update(loc=L.tolist(), spr=S.tolist(), lo=LO.tolist(), hi=HI.tolist(), cor=C.tolist(), z=Z, rl=RL.tolist(), R=R)
    name = "offset: statistics" if c.get("offset") else None
    m.check(name or "posterior location", np.abs(L).max() < TH["loc"] * f, "posterior location off by %r sd (%s)" % (np.round(L, 3).tolist(), tag))
    m.check(name or "resampled posterior location", np.abs(RL).max() < 1.15 * TH["loc"] * f,
            "location of the resampled posterior off by %r sd (%s)" % (np.round(RL, 3).tolist(), tag))
    m.check(name or "posterior spread", np.abs(S).max() < TH["spr"] * f, "posterior spread off by %r (%s)" % (np.round(S, 3).tolist(), tag))
    m.check(name or "posterior tails", max(np.abs(LO).max(), np.abs(HI).max()) < TH["tail"] * f,
            "tail probabilities off by %r and %r (relative, %s)" % (np.round(LO, 3).tolist(), np.round(HI, 3).tolist(), tag))
    if len(C):
        m.check(name or "posterior correlation", np.abs(C).max() < TH["cor"] * f, "spurious correlation %r (%s)" % (np.round(C, 3).tolist(), tag))
    if c["n_evidence"]:
        m.check("evidence by importance sampling", abs(np.median(Z)) < TH["is"] * f, "log-evidence off by %r (%s)" % (np.round(Z, 3).tolist(), tag))
    else:
        m.check(name or "evidence", abs(np.mean(Z)) < TH["z"] * f, "log-evidence off by %r (%s)" % (np.round(Z, 3).tolist(), tag))
    m.key(c["target"], c["kern"], c["pre"], c["metric"], c["resample"], c["transform"], c["dynamic"], bool(c["n_evidence"]))


# thresholds for the mean of five seeds
TH = dict(loc=0.15, spr=0.13, tail=0.40, cor=0.12, z=0.33, **{"is": 0.15})
# and for the mean of 60 runs
AGG = dict(loc=0.04, spr=0.035, tail=0.10, z=0.10)


def run_offset(c, m):
    s0 = one(c, c["seed"])
    x0, w0, l0, p0 = s0.posterior(trim_importance_weights=False)
    z0 = float(s0.evidence()[0])
    okx = []
    for off in (1e3, -1e3, 64.0, 1e4, -1e6, 1e8):
        s = one(c, c["seed"], off)
        x, w, l, p = s.posterior(trim_importance_weights=False)
        z = float(s.evidence()[0])
        okx.append(x.shape == x0.shape and np.allclose(x, x0, rtol=1e-5, atol=1e-5) and np.allclose(w, w0, rtol=1e-4, atol=1e-9)
                   and np.allclose(l - off, l0, rtol=1e-4, atol=1e-4 + 1e-11 * abs(off)))
        if okx[-1]:
            m.check("offset: evidence", abs(z - off - z0) < 1e-4, "adding %g moves the log-evidence by %r" % (off, z - z0))
        else:
            m.check("offset: evidence", abs(z - off - z0) < 1.0, "adding %g moves the log-evidence by %r" % (off, z - z0))
    m.data["okx"] = okx
    m.check("offset: samples and weights", sum(okx) >= 5, "adding a constant to the log-likelihood changes samples or weights "
            "(%d of %d constants)" % (len(okx) - sum(okx), len(okx)))
    m.key("offset", c["target"], c["kern"], c["metric"])


def run(c, m):
    (run_offset if c["mode"] == "offset" else run_stat)(c, m)


def finish(data, m, tier, seed):
    """Errors averaged over every level of every factor."""
    rows = [(c, r) for c, r in data if "loc" in r]
    fac = dict(kern=lambda c: c["kern"], pre=lambda c: c["pre"], metric=lambda c: c["metric"], resample=lambda c: c["resample"],
               transform=lambda c: c["transform"], dynamic=lambda c: c["dynamic"], target=lambda c: c["target"], all=lambda c: "")
    for name, f in fac.items():
        for lev in sorted({str(f(c)) for c, _ in rows}):
            sel = [(c, r) for c, r in rows if str(f(c)) == lev]
            n = sum(r["R"] for _, r in sel)
            if n < 12:
                continue
            # location errors with the sign of the direction towards the bulk differ by target: use both signed and squared
            for key, th, nm in (("loc", "loc", "location"), ("spr", "spr", "spread"), ("lo", "tail", "tails"), ("hi", "tail", "tails")):
                v = np.array([np.mean(r[key]) * r["R"] for _, r in sel]).sum() / n
                m.check("aggregate " + nm, abs(v) < AGG[th] * max(1.0, np.sqrt(60 / n)),
                        "%s=%s: mean error of %s %.4f over %d runs" % (name, lev, key, v, n))
                m.note(**{"%s=%s %s" % (name, lev, key): round(float(v), 4)})
            z = [v for c, r in sel if not c["n_evidence"] for v in r["z"]]
            if len(z) >= 12:
                m.check("aggregate evidence", abs(np.mean(z)) < AGG["z"] * max(1.0, np.sqrt(60 / len(z))),
                        "%s=%s: mean error of the log-evidence %.4f over %d runs" % (name, lev, np.mean(z), len(z)))
                m.note(**{"%s=%s z" % (name, lev): round(float(np.mean(z)), 4)})
