"""C02: the likelihood is evaluated, and samples returned, only inside the prior."""
import numpy as np

from .. import gen, kern, rec

RULE = ("one case = one full run of a scenario whose prior is bounded, half-bounded or non-rectangular and whose "
        "likelihood is zero or NaN in part of the prior, or one direct kernel run with a flow that fails on part of the "
        "proposals; non-trivial if invalid proposals or forbidden likelihood values actually occurred")
REQUIRED = ["likelihood input", "stored row", "returned row", "kernel likelihood input", "evidence phase input"]
ASSUMPTIONS = ["the prior itself draws points with finite density"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = []
    out += gen.scenarios(24 * k, seed, 201)
    for j, shape in enumerate(["ordered", "ball", "slots", "thin"]):
        out += gen.scenarios(8 * k, seed, 210 + j, shape=shape, **({"dim": 1, "n_active": 12, "kind": "gauss"}
                                                                  if shape == "thin" else {}))
    for j, kind in enumerate(["cut", "nan", "island", "mixed", "poles"]):
        out += gen.scenarios(6 * k, seed, 220 + j, kind=kind, n_evidence=150)
    # evidence phase with draws of the flow outside the prior and forbidden values
    for j, shape in enumerate(["ordered", "ball", "slots", "thin"]):
        for ev in ("vectorize", "serial", "reverse"):
            out += gen.scenarios(k, seed, 230 + j, shape=shape, kernel=("tpcn", True), n_evidence=200,
                                 flow="tinymaf", eval=ev, **({"dim": 1} if shape == "thin" else {}))
    # a custom prior may well be NaN where it is not defined
    for i, sc in enumerate(c for c in out if c.get("shape")):
        if i % 2:
            sc["outside"] = "nan"
    rng = np.random.default_rng([seed, 240])
    for j in range(24 * k):
        out.append(dict(direct=True, kernel=list(gen.KERNELS[j % 4]), d=int(rng.integers(1, 5)),
                        n=int([6, 40, 200][j % 3]), frac=float([0.1, 0.5, 0.95, 1.0][(j // 4) % 4]),
                        blob=[None, "f1", "f2", "str"][(j // 2) % 4], seed=int(rng.integers(1, 2**31)),
                        steps=int(rng.integers(1, 25)), kind=["gauss", "cut", "nan"][j % 3],
                        shape=[None, "slots", "ordered"][(j // 3) % 3],
                        bc=[None, "p", "r", "pr"][(j // 5) % 4], outside=["-inf", "nan"][(j // 2) % 2]))
    return out


def check_inputs(m, sc, xs, name):
    d = len(sc["prior"])
    m.judged(name, len(xs))
    for x in xs:
        if np.shape(x) != (d,):
            m.violation("likelihood called with the wrong shape", shape=np.shape(x))
            return
    if not len(xs):
        return
    X = np.array(xs, dtype=float)
    b = np.array([gen.component(c).support() for c in sc["prior"]])
    with np.errstate(all="ignore"):
        fin = np.isfinite(X).all(axis=1)
        inb = ((X >= b[:, 0]) & (X <= b[:, 1])).all(axis=1)
        lp = np.full(len(X), -np.inf)
        if fin.any():
            lp[fin] = gen.ref_logprior(sc, X[fin])
    bad = np.flatnonzero(~(fin & inb & np.isfinite(lp)))
    if len(bad):
        i = bad[0]
        m.violation("likelihood evaluated outside the prior", x=X[i], finite=fin[i], in_bounds=inb[i], logprior=lp[i],
                    bad_calls=len(bad), first_call=int(i), calls=len(X), where=name)


def check_batches(m, sc, like):
    if sc["cfg"].get("vectorize"):
        d = len(sc["prior"])
        for sh in like.batches:
            m.judged("batch shape")
            if len(sh) != 2 or sh[1] != d or sh[0] < 1:
                m.violation("likelihood called with a batch of shape %r" % (sh,))
                return


def run(sc, m):
    if sc.get("direct"):
        return direct(sc, m)
    r = rec.run(sc, n_evidence=0)
    n0 = r.like.n
    # a second run() adds no iteration, so that what follows is the evidence phase
    r.s.run(n_total=1, n_evidence=sc["run"]["n_evidence"], progress=False)
    if sc.get("shape") and sc["cfg"]["precondition"]:
        # so few draws that often none is inside the prior
        for ne in (1, 2, 1, 3, 1):
            r.s.run(n_total=1, n_evidence=ne, progress=False)
            m.judged("evidence with few draws")
    check_inputs(m, sc, r.like.log_x[:n0], "likelihood input")
    check_inputs(m, sc, r.like.log_x[n0:], "evidence phase input")
    check_batches(m, sc, r.like)
    res = r.s.results
    for t in range(len(res["x"])):
        check_samples(m, sc, res["x"][t], res["logl"][t], res["logp"][t], "stored row", "results iteration %d" % t)
    for opt in rec.POSTERIOR_OPTIONS:
        p = rec.posterior(r.s, False, **opt)
        check_samples(m, sc, p["x"], p["logl"], p["logp"], "returned row", "posterior(%s)" % opt)
    z, e = r.s.evidence()
    m.check("evidence is not NaN", not np.isnan(z), "evidence %r +- %r" % (z, e))
    forbidden = int(np.sum(~np.isfinite(np.array(r.like.log_l, dtype=float))))
    steps = int(np.sum(res["steps"][res["beta"] > 0])) * sc["cfg"]["n_active"] + 1
    if forbidden or sc.get("shape") or len(r.like.log_x) < n0 + 1:
        m.key(gen.sig(sc))
    m.note(calls=r.like.n, forbidden_values=forbidden, proposals_at_most=steps)


def check_samples(m, sc, x, logl, logp, name, where):
    x = np.asarray(x, dtype=float)
    b = np.array([gen.component(c).support() for c in sc["prior"]])
    m.judged(name, len(x))
    lp = gen.ref_logprior(sc, x)
    ok = (np.isfinite(x).all(axis=1) & ((x >= b[:, 0]) & (x <= b[:, 1])).all(axis=1) & np.isfinite(lp)
          & np.isfinite(logl) & np.isfinite(logp))
    if not ok.all():
        i = np.flatnonzero(~ok)[0]
        m.violation("sample outside the prior or with a non-finite density: %s row %d" % (where, i), x=x[i],
                    logl=logl[i], logp=logp[i], true_logp=lp[i])


def direct(c, m):
    """A kernel whose flow fails (NaN, inf) on part of the proposals."""
    import pocomc
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    comps = []
    for i in range(d):
        g = [gen.NONE, gen.LEFT, gen.RIGHT, gen.BOTH][int(rng.integers(4))]
        if c["bc"]:
            g = gen.BOTH
        comps.append([g[int(rng.integers(len(g)))], 0.3, 1.5])
    sc = dict(prior=comps, shape=c["shape"], outside=c["outside"], cfg={}, like=dict(
        kind=c["kind"], m=[float(gen.component(k).ppf(0.5)) for k in comps],
        s=[float(gen.component(k).std()) for k in comps], blob=c["blob"]))
    like = gen.Like(sc["like"])
    prior = gen.make_prior(sc)
    kw = {}
    if c["bc"] and "p" in c["bc"]:
        kw["periodic"] = [0]
    if c["bc"] and "r" in c["bc"]:
        kw["reflective"] = [d - 1] if (d > 1 or "p" not in c["bc"]) else None
    kw = {k: v for k, v in kw.items() if v is not None}
    sca = Reparameterize(d, prior.bounds, **kw)
    sca.fit(prior.rvs(400))
    x = prior.rvs(4000)
    x = x[[np.isfinite(like.value(v)) for v in x]][:c["n"]]
    n = len(x)
    like.log_x.clear()
    calls = []

    def loglike(xs):
        m.judged("kernel likelihood batch")
        if len(xs) == 0:
            m.violation("kernel evaluated the likelihood on an empty batch")
        calls.append(len(xs))
        out = [like.one(r) for r in xs]
        if c["blob"] is None:
            return np.array(out), None
        bl = [o[1:] for o in out]
        bl = np.array(bl, dtype=object if c["blob"] == "str" else float)
        if bl.shape[1] == 1:
            bl = bl[:, 0]
        return np.array([o[0] for o in out]), bl

    st = kern.state_of(sca, loglike, prior.logpdf, x, 0.7)
    like.log_x.clear()
    calls.clear()
    inner = kern.AffineFlow(np.eye(d) * 1.3, np.zeros(d))
    flow = kern.BrokenFlow(inner, c["seed"] % 1000, c["frac"])
    cov = np.atleast_2d(np.cov(st["u"].T)) + 1e-3 * np.eye(d)
    scale = 2.38 / d ** 0.5 * float(rng.choice([0.3, 1.0, 3.0]))
    if not c["kernel"][1]:
        # no flow: the scaler fails instead
        sca2 = _BrokenScaler(sca, c["seed"] % 1000, c["frac"])
    else:
        sca2 = sca
    np.random.seed(c["seed"] % 2**32)
    with np.errstate(all="ignore"):
        out = kern.call(c["kernel"], st, loglike, prior.logpdf, sca2, flow, kern.geometry(np.zeros(d), cov, 5.0),
                        n_max=c["steps"], scale=scale, bar=kern.Bar())
    check_inputs(m, sc, like.log_x, "kernel likelihood input")
    check_samples(m, sc, out["x"], out["logl"], out["logp"], "kernel output row", "kernel %s" % c["kernel"])
    m.check("kernel counts its evaluations", int(out["calls"]) == sum(calls), "%s calls reported, %s made" % (
        out["calls"], sum(calls)))
    truth = gen.Like(sc["like"], record=False)
    bad = [i for i in range(n) if out["logl"][i] != truth.value(out["x"][i])]
    m.check("kernel output coherent", not bad, "logl of another point in rows %s" % bad[:5])
    if out["steps"] * n > len(like.log_x):
        m.key("direct", c["kernel"], c["blob"], c["frac"], c["kind"], c["shape"], c["bc"])
    m.note(proposals=int(out["steps"] * n), evaluated=len(like.log_x))


class _BrokenScaler:
    def __init__(self, inner, seed, frac):
        self.inner = inner
        self.rs = np.random.RandomState(seed)
        self.frac = frac
        self.periodic = inner.periodic
        self.reflective = inner.reflective

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def apply_boundary_conditions_x(self, x):
        # the folding loops of the real code assume finite points
        return x

    def forward(self, x, check_input=True):
        return self.inner.forward(x, check_input=check_input)

    def inverse(self, u):
        x, j = self.inner.inverse(u)
        x = x.copy()
        j = j.copy()
        bad = self.rs.rand(len(x)) < self.frac
        vals = [np.nan, np.inf, -np.inf]
        for i in np.flatnonzero(bad):
            if self.rs.rand() < 0.5:
                x[i, self.rs.randint(x.shape[1])] = vals[self.rs.randint(3)]
            else:
                j[i] = vals[self.rs.randint(3)]
        return x, j
