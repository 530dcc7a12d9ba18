"""Scenario generator: priors, likelihoods, blobs, pools and sampler options.

A scenario is a JSON-able dict, so that every case can be replayed."""
import time

import numpy as np
import scipy.stats as st


# ---------------------------------------------------------------- priors

COMPONENTS = {
    "norm": lambda a, b: st.norm(a, b),
    "uniform": lambda a, b: st.uniform(a, b),
    "expon": lambda a, b: st.expon(a, b),
    "rexpon": lambda a, b: st.weibull_max(1.0, a, b),        # (-inf, a]
    "truncnorm": lambda a, b: st.truncnorm(-1.0, 2.0, a, b),
    "beta": lambda a, b: st.beta(2.0, 1.5, a, b),
    "gamma": lambda a, b: st.gamma(2.5, a, b),
    "t": lambda a, b: st.t(4.0, a, b),
    "lognorm": lambda a, b: st.lognorm(0.5, a, b),
    "ltrunc": lambda a, b: st.truncnorm(-1.0, np.inf, a, b),
    "rtrunc": lambda a, b: st.truncnorm(-np.inf, 1.0, a, b),
    "arcsine": lambda a, b: st.beta(0.6, 0.7, a, b),         # density diverges at the bounds
}
BOTH = ["uniform", "truncnorm", "beta"]
LEFT = ["expon", "gamma", "lognorm", "ltrunc"]
RIGHT = ["rexpon", "rtrunc"]
NONE = ["norm", "t"]


def component(spec):
    return COMPONENTS[spec[0]](float(spec[1]), float(spec[2]))


class RecPrior:
    """The prior handed to the sampler: a pocomc.Prior, or one with a
    non-rectangular support, that records how it is used."""

    def __init__(self, comps, shape=None, record=True, outside=-np.inf, draws=None):
        from pocomc import Prior
        self.outside = float(outside)
        self.draws = draws            # the type of number the prior draws
        self.comps = comps
        self.shape = shape
        self.inner = Prior([component(c) for c in comps])
        self.n_rvs = 0
        self.rvs_log = []
        self.record = record

    @property
    def dim(self):
        return len(self.comps)

    @property
    def bounds(self):
        return np.array([component(c).support() for c in self.comps], dtype=float)

    def inside(self, x):
        """Extra support constraint, on the quantiles of the components."""
        x = np.atleast_2d(x)
        if self.shape is None:
            return np.ones(len(x), dtype=bool)
        q = np.stack([component(c).cdf(x[:, i]) for i, c in enumerate(self.comps)], axis=1)
        if self.shape == "ordered":
            return q[:, 0] < q[:, -1] if self.dim > 1 else q[:, 0] < 0.6
        if self.shape == "ball":
            return np.sum((q - 0.5) ** 2, axis=1) < 0.3 * self.dim ** 0.5
        if self.shape == "thin":
            return (np.floor(q[:, 0] * 32).astype(int) % 4) == 1
        if self.shape == "slots":
            return (np.floor(q[:, 0] * 8).astype(int) % 2) == 0
        raise ValueError(self.shape)

    def logpdf(self, x):
        out = self.inner.logpdf(x)
        if self.shape is not None:
            out = np.where(self.inside(x), out, self.outside)
        return out

    def rvs(self, size=1):
        if self.shape is None:
            x = self.inner.rvs(size)
        else:
            parts, n = [], 0
            while n < size:
                y = self.inner.rvs(max(size, 8))
                y = y[self.inside(y)]
                parts.append(y)
                n += len(y)
            x = np.concatenate(parts)[:size]
        if self.draws:
            b = self.bounds
            for _ in range(100):
                bad = ~((x.astype(self.draws) > b[:, 0]) & (x.astype(self.draws) < b[:, 1]) &
                        np.isfinite(self.logpdf(x.astype(self.draws)))[:, None]).all(axis=1)
                if not bad.any():
                    break
                x[bad] = self.inner.rvs(int(bad.sum()))
            x = x.astype(self.draws)
        self.n_rvs += 1
        if self.record:
            self.rvs_log.append(np.array(x, copy=True))
        return x


def make_prior(sc, record=True):
    return RecPrior(sc["prior"], sc.get("shape"), record, sc.get("outside", -np.inf), sc.get("draws"))


def ref_logprior(sc, x):
    """Reference log prior of rows x, straight from scipy."""
    x = np.atleast_2d(np.asarray(x, dtype=float))
    lp = np.zeros(len(x))
    for i, c in enumerate(sc["prior"]):
        lp = lp + component(c).logpdf(x[:, i])
    if sc.get("shape"):
        lp = np.where(RecPrior(sc["prior"], sc["shape"]).inside(x), lp, -np.inf)
    return lp


# ------------------------------------------------------------- likelihoods

TOTAL = [0]     # evaluations by any likelihood object in this process
EVALS = None    # if a list: the points evaluated by any likelihood object in this process


class Like:
    """A user likelihood: pure function of one parameter vector, with an
    optional log of every evaluation."""

    def __init__(self, spec, vectorize=False, record=True, monitor=None):
        self.spec = spec
        self.vectorize = vectorize
        self.record = record
        self.log_x = []
        self.log_l = []
        self.batches = []
        self.n = 0
        self.extra = []
        self.block_after = None
        self.delay = spec.get("delay", 0.0)
        k = spec["kind"]
        self.m = np.array(spec["m"], dtype=float)
        self.s = np.array(spec["s"], dtype=float)
        self.off = float(spec.get("offset", 0.0))
        if k == "corr":
            d = len(self.m)
            r = spec.get("rho", 0.7)
            C = np.full((d, d), r) + (1 - r) * np.eye(d)
            self.P = np.linalg.inv(C)

    def value(self, x):
        k = self.spec["kind"]
        z = (x - self.m) / self.s
        if k in ("gauss", "cut", "nan", "mixed", "cutlow", "island", "poles"):
            v = -0.5 * float(np.sum(z * z))
            t = z[0]
            if k == "cut" and t > self.spec.get("cut", 0.5):
                v = -np.inf
            elif k == "cutlow" and t < -self.spec.get("cut", 0.5):
                v = -np.inf
            elif k == "nan" and t > self.spec.get("cut", 0.5):
                v = np.nan
            elif k == "mixed":
                if t > 1.0:
                    v = -np.inf
                elif t < -1.5:
                    v = np.nan
            elif k == "poles" and (np.floor(6 * t) % 6) == 0:
                v = np.inf
            elif k == "island" and (np.floor(2 * t) % 2) == 0:
                v = -np.inf
        elif k == "spike":
            # a few points anywhere are much likelier than all others
            v = 0.2 * float(np.sin(z[0])) + (self.spec["height"] if (1e4 * z[0]) % 1.0 < self.spec["rare"] else 0.0)
        elif k == "corr":
            v = -0.5 * float(z @ self.P @ z)
        elif k == "bimodal":
            a = -0.5 * float(np.sum((z - 1.5) ** 2)) * 4
            b = -0.5 * float(np.sum((z + 1.5) ** 2)) * 4
            v = float(np.logaddexp(a, b + 0.7))
        elif k == "banana":
            v = -0.5 * z[0] ** 2
            for i in range(1, len(z)):
                v -= 2.0 * (z[i] - 0.5 * z[i - 1] ** 2) ** 2
            v = float(v)
        elif k == "flat":
            v = 0.0
        elif k == "steps":
            v = -float(np.floor(2.0 * np.sqrt(np.sum(z * z))))
        elif k == "linear":
            v = 2.0 * float(np.sum(np.tanh(z)))
        elif k == "student":
            v = -float(np.sum(np.log1p(z * z)))
        else:
            raise ValueError(k)
        return v + self.off

    def blob(self, x):
        b = self.spec.get("blob")
        if b is None:
            return ()
        c = float(np.sum(np.arange(1, len(x) + 1) * x))
        if b == "f1":
            return (c,)
        if b == "i1":
            return (int(np.floor(1e4 * c)),)
        if b == "f2":
            return (c, c * 2 - 1)
        if b == "arr":
            return (np.array([c, x[0], -c]),)
        if b == "arr2":
            return (np.array([[c, x[0]], [x[-1], -c]]),)
        if b == "arr32":
            return (np.array([[c, x[0]], [x[-1], -c], [2 * c, 1.0]]),)
        if b == "arr312":
            return (np.array([[[c, x[0]]], [[x[-1], -c]], [[2 * c, 1.0]]]),)
        if b == "num":
            return (0 if x[0] < self.m[0] else c,)
        if b == "numlate":
            # whole numbers far from the bulk of the posterior, others within
            return (int(c) if np.sum(np.abs((x - self.m) / self.s)) > len(x) else c,)
        if b == "maybe":
            return (None if x[0] < self.m[0] else c,)
        if b == "boolnum":
            return (bool(c > 0) if x[0] < self.m[0] else c, 1)
        if b == "one":
            return (np.array([c]), np.array([x[0]]))
        if b == "twoarr":
            return (np.array([c, x[0]]), np.array([x[-1], -c]))
        if b == "str":
            return ("%.12g" % c if c < 0 else "positive %.14g" % c,)
        if b == "str2":
            return ("%.10g" % c, "%.10g" % x[0])
        if b == "obj":
            return ({"c": c, "x0": float(x[0])},)
        if b == "ragged":
            return (np.array([c, x[0]]), c)
        if b == "struct":
            return (c, int(np.floor(1e4 * c)))
        if b == "struct2":
            return (np.float64(c), "s%.8g" % c, np.array([c, x[0]]))
        if b == "bool":
            return (bool(c > 0),)
        raise ValueError(b)

    def one(self, x):
        v = self.value(np.asarray(x, dtype=float))
        if self.block_after is not None and self.n >= self.block_after:
            v = -np.inf
        self.n += 1
        TOTAL[0] += 1
        if EVALS is not None:
            EVALS.append(np.array(x, dtype=float).tobytes())
        if self.record:
            self.log_x.append(np.array(x, copy=True))
            self.log_l.append(v)
        b = self.blob(np.asarray(x, dtype=float))
        return (v,) + b if b else v

    def __call__(self, x, *args, **kwargs):
        if args or kwargs:
            self.extra.append((args, kwargs))
        if self.vectorize:
            x = np.asarray(x)
            self.batches.append(x.shape)
            return np.array([self.one(r) for r in x])
        self.batches.append(np.shape(x))
        if self.delay:
            time.sleep(self.delay)
        return self.one(x)


def blobs_dtype(sc):
    b = sc["like"].get("blob")
    if b == "struct":
        return [("a", float), ("b", int)]
    if b == "struct2":
        return [("a", float), ("b", object), ("c", float, 2)]
    return None


def blob_matches(stored, expected):
    """Is the stored blob entry the record of the tuple the likelihood returned?"""
    try:
        if isinstance(stored, np.void):
            vals = [stored[n] for n in stored.dtype.names]
            return len(vals) == len(expected) and all(_same(a, b) for a, b in zip(vals, expected))
        if len(expected) == 1:
            return _same(stored, expected[0])
        stored = list(stored)
        return len(stored) == len(expected) and all(_same(a, b) for a, b in zip(stored, expected))
    except Exception:
        return False


def _same(a, b):
    if b is None:
        return a is None
    if isinstance(b, dict) or isinstance(b, str) or isinstance(b, bool):
        return (a.item() if isinstance(a, np.generic) else a) == b
    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype == object:
        try:
            a = a.astype(float)
        except (ValueError, TypeError):
            return False
    if np.squeeze(a).shape != np.squeeze(b).shape:
        return False
    return bool(np.array_equal(a.reshape(b.shape), b))


# ------------------------------------------------------------------ pools

class HostilePool:
    """In-process external pool: evaluates in an adversarial order, with
    optional delays, and returns the results in task order as a pool must."""

    def __init__(self, mode="reverse", seed=0):
        self.mode = mode
        self.rs = np.random.RandomState(seed)
        self.maps = 0
        self.tasks = 0
        self.empty = 0

    def map(self, f, xs):
        xs = list(xs)
        self.maps += 1
        self.tasks += len(xs)
        self.empty += not len(xs)
        order = np.arange(len(xs))
        if self.mode == "reverse":
            order = order[::-1]
        elif self.mode in ("random", "threads"):
            order = self.rs.permutation(len(xs))
        out = [None] * len(xs)
        if self.mode == "threads" and len(xs):
            import threading
            chunks = np.array_split(order, 3)

            def work(ids):
                for i in ids:
                    out[i] = f(xs[i])
            ts = [threading.Thread(target=work, args=(c,)) for c in chunks]
            [t.start() for t in ts]
            [t.join() for t in ts]
        else:
            for i in order:
                out[i] = f(xs[i])
        if self.mode == "lazy":
            return iter(out)
        if self.mode == "random":
            return tuple(out)
        return out


def make_pool(spec, seed=0):
    if spec is None:
        return None
    if isinstance(spec, int):
        return spec
    return HostilePool(spec, seed)


# ------------------------------------------------------------------ flows

def make_flow(spec, dim):
    import zuko
    if isinstance(spec, str):
        if spec == "tinymaf":
            return zuko.flows.MAF(dim, transforms=2, hidden_features=[16], activation=None or __import__("torch").nn.Tanh)
        if spec == "tinynsf":
            return zuko.flows.NSF(dim, transforms=1, bins=4, hidden_features=[16])
        if spec == "nice":
            return zuko.flows.NICE(dim, transforms=2, hidden_features=[16]) if dim > 1 else \
                zuko.flows.MAF(dim, transforms=1, hidden_features=[16])
        return spec
    return spec


def make_sampler(sc, cls=None, like=None, prior=None, pool="spec", **over):
    """Build the sampler of a scenario. Returns (sampler, like, prior, pool)."""
    import pocomc
    cls = cls or pocomc.Sampler
    cfg = dict(sc["cfg"])
    cfg.update(over)
    ev = sc.get("eval", "serial")
    if like is None:
        like = Like(sc["like"], vectorize=bool(cfg.get("vectorize", False)))
    if prior is None:
        prior = make_prior(sc)
    if pool == "spec":
        pool = make_pool(ev if ev not in ("serial", "vectorize") else None, sc.get("seed", 0))
    if pool is not None:
        cfg["pool"] = pool
    if "flow" in cfg:
        if "random_state" in cfg and not str(cfg["flow"])[:3] in ("maf", "nsf"):
            import torch
            torch.manual_seed(cfg["random_state"] + 5)
        cfg["flow"] = make_flow(cfg["flow"], len(sc["prior"]))
    bd = blobs_dtype(sc)
    if bd is not None:
        cfg["blobs_dtype"] = bd
    s = cls(prior=prior, likelihood=like, **cfg)
    return s, like, prior, pool


# -------------------------------------------------------------- scenarios

class Bag:
    """Draws the levels of each factor without replacement, so that every
    level of every factor occurs in a short list of scenarios."""

    def __init__(self, rng):
        self.rng = rng
        self.bags = {}

    def draw(self, name, levels):
        b = self.bags.get(name)
        if not b:
            b = list(range(len(levels)))
            self.rng.shuffle(b)
            self.bags[name] = b
        return levels[b.pop() % len(levels)]


KERNELS = [("tpcn", True), ("rwm", True), ("tpcn", False), ("rwm", False)]


def scenario(rng, bag, **fix):
    """One random scenario; `fix` pins factors."""
    d = fix.get("dim") or bag.draw("dim", [1, 2, 2, 3, 4, 2, 3, 6])
    fam = fix.get("priors") or bag.draw("priors", ["none", "both", "left", "right", "mixed", "mixed", "none", "both"])
    pools = dict(none=NONE, both=BOTH, left=LEFT, right=RIGHT, mixed=BOTH + LEFT + RIGHT + NONE)[fam]
    comps = []
    for i in range(d):
        kind = pools[rng.integers(len(pools))]
        if fam == "mixed":
            grp = [NONE, LEFT, RIGHT, BOTH][(i + int(rng.integers(4))) % 4]
            kind = grp[rng.integers(len(grp))]
        comps.append([kind, round(float(rng.normal(0, 2)), 3), round(float(np.exp(rng.normal(0, 0.7)) + 0.2), 3)])
    shape = fix.get("shape", bag.draw("shape", [None, None, None, "ordered", None, "ball", None, "slots"]))
    kind = fix.get("kind") or bag.draw("kind", ["gauss", "corr", "cut", "bimodal", "nan", "banana", "gauss", "island",
                                                "steps", "linear", "mixed", "student", "flat", "cutlow"])
    if kind == "corr" and d == 1:
        kind = "gauss"
    m, s = [], []
    for c in comps:
        dist = component(c)
        w = float(dist.ppf(0.84) - dist.ppf(0.16)) / 2
        q = rng.uniform(0.3, 0.7)
        if kind in ("cut", "nan", "mixed", "cutlow", "island", "poles"):
            q = rng.uniform(0.45, 0.55)
        m.append(round(float(dist.ppf(q)), 4))
        s.append(round(w * float(rng.uniform(0.25, 0.9)), 4))
    if kind in ("cut", "nan", "mixed", "cutlow", "island", "poles"):
        s[0] = round(s[0] + 0.3 * float(component(comps[0]).ppf(0.84) - component(comps[0]).ppf(0.16)), 4)
    blob = fix.get("blob", bag.draw("blob", [None, None, "f1", None, "f2", "arr", None, "str", "struct", None, "i1",
                                             "obj", "arr2", None, "ragged", "twoarr", None, "struct2", "str2"]))
    like = dict(kind=kind, m=m, s=s, blob=blob)
    off = fix.get("offset", bag.draw("offset", [0.0, 0.0, -1000.0, 0.0, 350.0, 0.0]))
    if off:
        like["offset"] = off
    ev = fix.get("eval") or bag.draw("eval", ["serial", "vectorize", "serial", "reverse", "random", "serial", "lazy",
                                              "vectorize"])
    if blob is not None and ev == "vectorize":
        ev = "serial"
    kern, pre = fix.get("kernel") or bag.draw("kernel", KERNELS)
    na = fix.get("n_active") or bag.draw("n_active", [32, 48, 24, 64, 40])
    na = max(na, 8 * d)
    ratio = fix.get("ratio") or bag.draw("ratio", [2.0, 3.0, 1.5, 2.0, 4.0])
    cfg = dict(n_active=int(na), n_effective=int(ratio * na), sample=kern, precondition=pre,
               metric=fix.get("metric") or bag.draw("metric", ["ess", "uss", "ess"]),
               resample=fix.get("resample") or bag.draw("resample", ["mult", "syst"]),
               transform=fix.get("transform") or bag.draw("transform", ["probit", "logit"]),
               dynamic=fix.get("dynamic", bag.draw("dynamic", [True, False])),
               random_state=int(rng.integers(1, 2**31 - 1)))
    if ev == "vectorize":
        cfg["vectorize"] = True
    if pre:
        cfg["flow"] = fix.get("flow") or bag.draw("flow", ["maf3", "tinymaf", "nsf3", "tinymaf", "tinynsf", "maf3",
                                                          "nice"])
        cfg["train_config"] = dict(epochs=int(rng.integers(1, 5)))
        extra = fix.get("train", bag.draw("train", [None, None, None, dict(validation_split=0.0), dict(shuffle=False),
                                                   dict(annealing=True), dict(gaussian_scale=3.0), dict(noise=0.1),
                                                   dict(laplace_scale=3.0), dict(validation_split=0.2)]))
        if extra:
            cfg["train_config"].update(extra)
        tf = fix.get("train_frequency", bag.draw("train_frequency", [None, 1, None, 3]))
        if tf is not None:
            cfg["train_frequency"] = tf
    two = [i for i, c in enumerate(comps) if np.all(np.isfinite(component(c).support()))]
    bc = fix.get("bc", bag.draw("bc", [None, None, "periodic", None, "reflective", None, "split"]))
    if bc and two and shape is None:
        if bc == "periodic":
            cfg["periodic"] = two[:2]
        elif bc == "reflective":
            cfg["reflective"] = two[-2:]
        elif len(two) > 1:
            cfg["periodic"] = two[:1]
            cfg["reflective"] = two[1:2]
    ns = fix.get("n_steps", bag.draw("n_steps", [None, None, 1, 3]))
    if ns is not None:
        cfg["n_steps"] = ns
        cfg["n_max_steps"] = int(ns * rng.integers(2, 8))
    npr = fix.get("n_prior", bag.draw("n_prior", [None, None, 3.0, 1.0, 4.5]))
    if npr is not None:
        cfg["n_prior"] = int(npr * na)
    nev = fix.get("n_evidence", bag.draw("n_evidence", [100, 0, 64, 200]))
    run = dict(n_total=int(fix.get("n_total") or bag.draw("n_total", [200, 300, 120, 400])), n_evidence=int(nev))
    sc = dict(prior=comps, shape=shape, like=like, cfg=cfg, eval=ev, run=run, seed=int(rng.integers(1, 2**31 - 1)))
    return sc


def scenarios(n, seed, salt=0, **fix):
    rng = np.random.default_rng([seed, salt])
    bag = Bag(rng)
    return [scenario(rng, bag, **fix) for _ in range(n)]


def sig(sc):
    """The situation a scenario represents (for counting distinct ones)."""
    c = sc["cfg"]
    return "/".join(str(v) for v in (c["sample"], "flow" if c["precondition"] else "noflow", sc["like"]["kind"],
                                     sc["like"].get("blob"), sc.get("shape"), sc["eval"], c["metric"], c["resample"],
                                     c["transform"], len(sc["prior"])))
