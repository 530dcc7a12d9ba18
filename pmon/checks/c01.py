"""C01: every stored or returned particle is a consistent record of one point."""
import numpy as np

from .. import gen, rec

RULE = ("one case = one full run of a generated scenario (prior, likelihood, blobs, kernel, flow, transform, boundary "
        "conditions, evaluation mode); non-trivial if it stored MCMC iterations with both moved and unmoved particles; "
        "distinct by kernel/flow/likelihood/blob/support/evaluation/metric/resampling/transform/dimension")
REQUIRED = ["stored logl", "stored logp", "stored blob", "stored latent", "returned row", "returned blob",
            "continued run"]
ASSUMPTIONS = ["the user likelihood is a pure function of the parameters (ours is)"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)


def cases(tier, seed):
    n = 64 if tier == "quick" else 700
    out = gen.scenarios(n, seed, 101)
    # the cheap kernels without flow get extra cases with blobs and cuts
    for k, kern in enumerate([("tpcn", False), ("rwm", False), ("tpcn", True), ("rwm", True)]):
        out += gen.scenarios(6 if tier == "quick" else 60, seed, 120 + k, kernel=kern,
                             **(dict(flow="tinymaf") if kern[1] else {}))
    # blobs that are arrays
    for k, blob in enumerate(["arr32", "arr312", "one"]):
        out += gen.scenarios(2 if tier == "quick" else 12, seed, 130 + k, blob=blob, kernel=[("tpcn", False), ("rwm", False)][k % 2])
    # blobs whose type depends on the point
    for k, blob in enumerate(["num", "numlate", "maybe", "boolnum", "num", "numlate"]):
        out += gen.scenarios(2 if tier == "quick" else 12, seed, 150 + k, blob=blob, kernel=gen.KERNELS[k % 4],
                             **(dict(flow="tinymaf") if gen.KERNELS[k % 4][1] else {}))
    # priors that draw single-precision numbers
    for k in range(8 if tier == "quick" else 40):
        sc = gen.scenarios(1, seed, 170 + k, kernel=gen.KERNELS[k % 4], n_steps=2, **(dict(flow="tinymaf") if gen.KERNELS[k % 4][1] else {}))[0]
        sc["draws"] = "float32"
        out.append(sc)
    # a real process pool
    for k, blob in enumerate([None, "f2", "str", "struct"]):
        sc = gen.scenarios(1, seed, 140 + k, blob=blob, eval="serial", kernel=gen.KERNELS[k], n_steps=1, n_total=120)[0]
        sc["eval"] = 2
        out.append(sc)
    for k, sc in enumerate(out):
        sc["again"] = k % 4 == 0
    return out


class Truth:
    def __init__(self, sc):
        self.like = gen.Like(sc["like"], record=False)
        self.sc = sc
        self.cache = {}

    def get(self, x):
        k = x.tobytes()
        if k not in self.cache:
            self.cache[k] = (self.like.value(x), self.like.blob(x))
        return self.cache[k]


def close(a, b, rtol):
    return bool(np.isfinite(a) and np.isfinite(b) and abs(a - b) <= rtol * max(1.0, abs(a), abs(b)))


def check_rows(m, where, truth, x, logl, logp, blobs, tag):
    x = np.asarray(x, dtype=np.float64)
    n = len(x)
    if not (len(logl) == n and len(logp) == n and (blobs is None or len(blobs) == n)):
        m.violation("%s: columns of different length" % where, lens=(n, len(logl), len(logp)))
        return
    lp = gen.ref_logprior(truth.sc, x)
    for i in range(n):
        v, b = truth.get(x[i])
        if tag:
            m.judged("stored logl"), m.judged("stored logp")
        else:
            m.judged("returned row")
        if not close(logl[i], v, 1e-12):
            m.violation("log-likelihood of another point: %s row %d" % (where, i), x=x[i], stored=logl[i], true=v)
            return
        if not close(logp[i], lp[i], 1e-8):
            m.violation("log-prior of another point: %s row %d" % (where, i), x=x[i], stored=logp[i], true=lp[i])
            return
        if blobs is not None:
            m.judged("stored blob" if tag else "returned blob")
            if not gen.blob_matches(blobs[i], b):
                m.violation("blob of another point: %s row %d" % (where, i), x=x[i], stored=blobs[i], true=b)
                return


def check_latent(m, s, sc, t, u, x, ldj, pre):
    x1, j1 = s.scaler.inverse(np.asarray(u, dtype=np.float64))
    x2, j2 = s.scaler.inverse(np.asarray(u, dtype=np.float32))
    b = np.array([gen.component(c).support() for c in sc["prior"]])
    lo, hi = b[:, 0], b[:, 1]
    scale = np.where(np.isfinite(lo) & np.isfinite(hi), hi - lo,
                     np.where(np.isfinite(lo), x - lo, np.where(np.isfinite(hi), hi - x, 1.0 + np.abs(x))))
    tol = (2e-5 if pre else 1e-8) * scale + 1e-9 * np.abs(x) + 1e-12
    ok = np.all((np.abs(x1 - x) <= tol) | (np.abs(x2 - x) <= tol), axis=1)
    jt = (1e-4 if pre else 1e-7) * (1 + np.abs(ldj))
    okj = (np.abs(j1 - ldj) <= jt) | (np.abs(j2 - ldj) <= jt)
    # next to a two-sided bound the latent coordinate is ill conditioned
    near = np.any(np.isfinite(lo) & np.isfinite(hi) & ((x - lo < 1e-6 * scale) | (hi - x < 1e-6 * scale)), axis=1)
    m.judged("stored latent", len(x))
    bad = np.flatnonzero(~near & ~(ok & okj))
    if len(bad):
        i = bad[0]
        m.violation("latent coordinates or Jacobian of another point: iteration %d row %d" % (t, i), x=x[i], u=u[i],
                    x_of_u=x1[i], logdetj=ldj[i], logdetj_of_u=j1[i], bad_rows=len(bad))


def run(sc, m):
    r = rec.run(sc)
    s = r.s
    if sc["again"]:
        # all of it is judged after continuing, too
        now = len(s.results["x"])
        s.run(n_total=4 * sc["run"]["n_total"], n_evidence=0, progress=False)
        if len(s.results["x"]) > now:
            m.judged("continued run")
    res = s.results
    pre = sc["cfg"]["precondition"]
    have = sc["like"].get("blob") is not None
    T = len(res["x"])
    truth = Truth(sc)
    for t in range(T):
        check_rows(m, "results iteration %d" % t, truth, res["x"][t], res["logl"][t], res["logp"][t],
                   res["blobs"][t] if have else None, True)
        check_latent(m, s, sc, t, res["u"][t], res["x"][t], res["logdetj"][t], pre)
        if m.violations:
            return
    for opt in rec.POSTERIOR_OPTIONS:
        for wb in ((True, False) if have else (False,)):
            p = rec.posterior(s, wb, **opt)
            check_rows(m, "posterior(%s)" % opt, truth, p["x"], p["logl"], p["logp"], p.get("blobs"), False)
            if m.violations:
                return
    known = {x.tobytes() for x in np.concatenate(res["x"])}
    for opt in rec.POSTERIOR_OPTIONS[:4]:
        p = rec.posterior(s, False, **opt)
        m.check("returned sample is a stored one", all(x.tobytes() in known for x in np.asarray(p["x"])),
                "posterior(%s) returned a point that was never stored" % opt)
    moved = T > int(np.sum(res["beta"] == 0)) and len(known) > sc["cfg"]["n_active"]
    if moved:
        m.key(gen.sig(sc))
    m.note(iterations=T, rows=T * sc["cfg"]["n_active"], likelihood_calls=r.like.n)
