"""C06: every MCMC kernel leaves the tempered posterior invariant."""
import numpy as np
import scipy.stats as st

from .. import gen, kern

RULE = ("one case = one kernel, target, temperature, geometry, flow and number of steps; thousands of walkers are drawn exactly "
        "from the tempered posterior, moved by the real kernel, and their probability integral transforms tested for "
        "uniformity and independence; non-trivial if walkers moved and some proposals were rejected; distinct by "
        "kernel/target/flow/steps/temperature")
REQUIRED = ["walker distribution statistics", "walkers moved", "walkers with rejections"]
ASSUMPTIONS = ["coupling of the walkers through the adaptation of mean and scale is O(1/walkers) and negligible",
               "a deviation counts only if it repeats with fresh random numbers and three times the walkers"]
CPU = 300
SOFT = dict(quick=300, thorough=3000)

FLOWS = ["affine", "sinh", "maf", "nsf", "affine", "sinh"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    rng = np.random.default_rng([seed, 600])
    bag = gen.Bag(rng)
    out = []
    for i in range(128 * k):
        kernel = gen.KERNELS[i % 4]
        fam = bag.draw("fam", ["none", "both", "left", "right", "mixed", "corr", "mixed", "both"])
        d = bag.draw("d", [1, 2, 3, 2, 4, 7, 1, 2, 10])
        if fam == "corr" and d == 1:
            d = 2
        c = dict(kernel=list(kernel), fam=fam, d=d, beta=bag.draw("beta", [1.0, 0.3, 0.03, 1.0, 0.0, 0.7]),
                 steps=bag.draw("steps", [1, 3, 8, 2, 15, 5, 40]), nu=bag.draw("nu", [3.0, 1.5, 8.0, 1e6, 4.0]),
                 scale=bag.draw("scale", [0.3, 1.0, 0.6, 2.0, 1.0, 0.1]), flow=bag.draw("flow", FLOWS),
                 transform=bag.draw("tr", ["probit", "logit"]), shape=bag.draw("shape", [None, None, None, "slots"]),
                 like=bag.draw("like", ["gauss", "tanh", "cut", "gauss", "nan", "t"]),
                 bc=bag.draw("bc", [None, None, "p", "r"]), off=bag.draw("off", [0.0, 0.8, 1.5]),
                 cscale=bag.draw("cs", [1.0, 0.4, 2.5]), default_geometry=bool(bag.draw("dg", [0, 0, 1])),
                 blobs=bool(bag.draw("bl", [0, 0, 1])), lowstop=bool(bag.draw("ls", [0, 0, 0, 1])),
                 seed=int(rng.integers(1, 2**31)), N=9000 if tier == "quick" else 12000)
        out.append(c)
    return out


class Product:
    """Independent coordinates, prior x likelihood^beta known on a quantile grid."""

    def __init__(self, c, rng):
        d = c["d"]
        pools = dict(none=gen.NONE, both=gen.BOTH, left=gen.LEFT, right=gen.RIGHT,
                     mixed=gen.NONE + gen.LEFT + gen.RIGHT + gen.BOTH + ["arcsine"])[c["fam"]]
        self.comps = [[pools[int(rng.integers(len(pools)))], float(rng.normal(0, 1)), float(rng.uniform(0.5, 3))]
                      for _ in range(d)]
        self.dists = [gen.component(k) for k in self.comps]
        self.c = c
        self.beta = c["beta"]
        self.par = []
        G = 20001
        self.edges = np.linspace(0, 1, G)
        mid = 0.5 * (self.edges[1:] + self.edges[:-1])
        self.cdfs = []
        for i in range(d):
            dist = self.dists[i]
            w = dist.ppf(0.84) - dist.ppf(0.16)
            kind = c["like"] if i == 0 or c["like"] not in ("cut", "nan") else "gauss"
            self.par.append((kind, float(dist.ppf(rng.uniform(0.25, 0.75))), float(w * rng.uniform(0.15, 0.6))))
            x = dist.ppf(mid)
            l = self.l1(i, x)
            p = np.where(np.isfinite(l), np.exp(self.beta * np.where(np.isfinite(l), l, 0.0)), 0.0)
            p = p * self.s1(i, mid)
            cdf = np.concatenate([[0.0], np.cumsum(p)])
            self.cdfs.append(cdf / cdf[-1])
        self.bounds = np.array([q.support() for q in self.dists], dtype=float)

    def s1(self, i, q):
        if i == 0 and self.c["shape"] == "slots":
            return ((np.floor(q * 8).astype(int) % 2) == 0).astype(float)
        return np.ones_like(q)

    def l1(self, i, x):
        kind, m, s = self.par[i]
        z = (x - m) / s
        if kind == "gauss":
            return -0.5 * z * z
        if kind == "tanh":
            return 2 * np.tanh(z)
        if kind == "t":
            return -2.0 * np.log1p(z * z / 3)
        if kind == "cut":
            return np.where(z > 0.7, -np.inf, -0.5 * z * z)
        if kind == "nan":
            return np.where(z < -0.7, np.nan, -0.5 * z * z)

    def loglike(self, x):
        return sum(self.l1(i, x[:, i]) for i in range(x.shape[1]))

    def logprior(self, x):
        lp = sum(self.dists[i].logpdf(x[:, i]) for i in range(x.shape[1]))
        if self.c["shape"] == "slots":
            lp = np.where(self.s1(0, self.dists[0].cdf(x[:, 0])) > 0, lp, -np.inf)
        return lp

    def sample(self, rng, n):
        q = [np.interp(rng.uniform(size=n), self.cdfs[i], self.edges) for i in range(len(self.dists))]
        return np.stack([self.dists[i].ppf(q[i]) for i in range(len(self.dists))], axis=1)

    def pit(self, x):
        return np.stack([np.interp(self.dists[i].cdf(x[:, i]), self.edges, self.cdfs[i])
                         for i in range(len(self.dists))], axis=1)


class Corr:
    """Gaussian prior and correlated Gaussian likelihood, tempered."""

    def __init__(self, c, rng):
        d = c["d"]
        self.m0 = rng.normal(0, 1, d)
        self.s0 = rng.uniform(0.7, 2.5, d)
        A = rng.normal(size=(d, d))
        self.P = np.linalg.inv(A @ A.T + 0.3 * np.eye(d))
        self.m1 = rng.normal(0, 1, d)
        b = c["beta"]
        P = np.diag(1 / self.s0 ** 2) + b * self.P
        self.S = np.linalg.inv(P)
        self.mu = self.S @ (self.m0 / self.s0 ** 2 + b * self.P @ self.m1)
        self.L = np.linalg.cholesky(self.S)
        self.bounds = np.tile([-np.inf, np.inf], (d, 1)).astype(float)

    def loglike(self, x):
        z = x - self.m1
        return -0.5 * np.einsum("ij,jk,ik->i", z, self.P, z)

    def logprior(self, x):
        return np.sum(st.norm.logpdf(x, self.m0, self.s0), axis=1)

    def sample(self, rng, n):
        return self.mu + rng.normal(size=(n, len(self.mu))) @ self.L.T

    def pit(self, x):
        return st.norm.cdf(np.linalg.solve(self.L, (x - self.mu).T).T)


def stats(P):
    """z scores that are standard normal if the rows of P are i.i.d. uniform."""
    n, d = P.shape
    out = {}
    v = P - 0.5
    g = st.norm.ppf(np.clip(P, 1e-9, 1 - 1e-9))
    for i in range(d):
        a = v[:, i]
        out["mean%d" % i] = a.sum() / np.sqrt(n / 12)
        out["spread%d" % i] = (a ** 2 - 1 / 12).sum() / np.sqrt(n / 180)
        out["skew%d" % i] = (a ** 3).sum() / np.sqrt(n / 448)
        for lo, hi in ((0, 0.05), (0.95, 1), (0, 0.01), (0.99, 1), (0.25, 0.5), (0.5, 0.75)):
            p = hi - lo
            out["tail%d[%g,%g]" % (i, lo, hi)] = (np.sum((P[:, i] >= lo) & (P[:, i] < hi)) - n * p) / np.sqrt(
                n * p * (1 - p))
        for j in range(i):
            out["corr%d%d" % (i, j)] = np.sum(12 * v[:, i] * v[:, j]) / np.sqrt(n)
            out["gcorr%d%d" % (i, j)] = np.sum(g[:, i] * g[:, j]) / np.sqrt(n)
    return out


def make_flow(c, u, rng):
    import torch
    d = u.shape[1]
    if c["flow"] == "affine":
        B = rng.normal(size=(d, d)) * 0.5 + np.eye(d)
        return kern.AffineFlow(B, rng.normal(0, 0.5, d))
    if c["flow"] == "sinh":
        return kern.SinhFlow(rng.uniform(0.5, 1.5))
    from pocomc.flow import Flow
    import zuko
    torch.manual_seed(c["seed"] % 10**6)
    if c["flow"] == "maf":
        f = Flow(d, zuko.flows.MAF(d, transforms=2, hidden_features=[24]))
    else:
        f = Flow(d, zuko.flows.NSF(d, transforms=1, bins=6, hidden_features=[24]))
    f.fit(torch.tensor(u[:600], dtype=torch.float32), epochs=15, batch_size=100, patience=50, learning_rate=3e-3)
    return f


def once(c, m, seed, N):
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(c["seed"])
    T = Corr(c, rng) if c["fam"] == "corr" else Product(c, rng)
    d = c["d"]
    both = [i for i in range(d) if np.all(np.isfinite(T.bounds[i]))]
    kw = {}
    if c["bc"] and both:
        kw["periodic" if c["bc"] == "p" else "reflective"] = both[:1]
    sca = Reparameterize(d, T.bounds, transform=c["transform"], **kw)
    sca.fit(T.sample(rng, 500))
    flow = make_flow(c, sca.forward(T.sample(rng, 600)), rng) if c["kernel"][1] else None
    rng2 = np.random.default_rng([c["seed"], seed])
    x = T.sample(rng2, N)
    # keep away from points that round onto the bounds
    x = x[np.all((x > T.bounds[:, 0]) & (x < T.bounds[:, 1]), axis=1) & np.isfinite(T.loglike(x))
          & np.isfinite(T.logprior(x))]

    def loglike(y):
        with np.errstate(all="ignore"):
            return T.loglike(y), (y[:, 0].copy() if c["blobs"] else None)

    def logprior(y):
        with np.errstate(all="ignore"):
            return T.logprior(y)
    state = kern.state_of(sca, loglike, logprior, x, c["beta"])
    base = state["u"]
    if flow is not None:
        import torch
        with torch.no_grad():
            base = flow.forward(torch.tensor(state["u"], dtype=torch.float32))[0].numpy().astype(float)
    mean, cov = base.mean(axis=0), np.atleast_2d(np.cov(base.T))
    if not c["default_geometry"]:
        A = rng.normal(size=(d, d)) * 0.2 + np.eye(d)
        cov = c["cscale"] * A @ cov @ A.T
        mean = mean + c["off"] * np.sqrt(np.diag(cov)) * rng.choice([-1, 1], d)
    geom = kern.geometry(mean, cov, c["nu"])
    other = kern.geometry(mean + 7.0, cov * 30, 2.0)
    np.random.seed((seed * 7919 + c["seed"]) % 2**32)
    # with many walkers stopping early would condition on their mean: fixed number of steps
    out = kern.call(c["kernel"], state, loglike, logprior, sca, flow, geom, n_max=c["steps"],
                    n_steps=10**9, scale=c["scale"] * 2.38 / d ** 0.5, other_geom=other)
    if int(out["steps"]) != c["steps"]:
        m.violation("kernel ran %s steps instead of %d" % (out["steps"], c["steps"]))
    moved = np.any(out["x"] != x, axis=1)
    return stats(T.pit(out["x"])), stats(T.pit(x)), moved, out


def run(c, m):
    a, before, moved, out = once(c, m, 0, c["N"])
    if m.violations:
        return
    m.judged("walker distribution statistics", len(a))
    m.judged("walkers moved", int(moved.sum()))
    m.judged("walkers with rejections", int((~moved).sum()))
    worst = max(a, key=lambda k: abs(a[k]))
    m.note(worst=(worst, round(float(a[worst]), 2)), moved=float(moved.mean()), accept=float(out["accept"]))
    m.data["z"] = max(abs(v) for v in a.values())
    if 0 < moved.mean():
        m.key(c["kernel"], c["fam"], c["flow"] if c["kernel"][1] else "", c["steps"], c["beta"], c["like"])
    sus = [k for k in a if abs(a[k]) > 3.9 and abs(before[k]) < 3.9]
    if sus:
        b, before2, _, _ = once(c, m, 1, 4 * c["N"])
        m.judged("confirmation runs")
        bad = [k for k in sus if abs(b[k]) > 4.5 and b[k] * a[k] > 0 and abs(before2[k]) < 3.9]
        if bad:
            m.violation("walkers no longer follow the tempered posterior: %s" % ", ".join(
                "%s z=%.1f,%.1f" % (k, a[k], b[k]) for k in bad[:4]), moved=float(moved.mean()))
