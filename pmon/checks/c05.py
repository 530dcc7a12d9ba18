"""C05: the evidence estimate is the right function of what was evaluated."""
import numpy as np

from .. import gen, rec, ref

RULE = ("one case = one run with its evidence recomputed from the recorded evaluations; non-trivial if the likelihood or prior "
        "was zero for part of the draws, or the temperature ladder had several levels; distinct by scenario signature and "
        "number of evidence draws")
REQUIRED = ["SMC evidence recomputed", "SMC reports no error", "IS evidence recomputed", "IS error is the bootstrap one",
            "precondition=False ignores n_evidence", "draws with zero weight",
            "evidence of a continued run"]
CPU = 200
SOFT = dict(quick=260, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    # SMC evidence
    for j, kind in enumerate(["cut", "nan", "island", "mixed", "cutlow", "gauss", "steps", "bimodal", "poles"]):
        for sc in gen.scenarios(3 * k, seed, 501 + j, kind=kind, kernel=[("tpcn", False), ("rwm", False)][j % 2],
                                n_evidence=[0, 500][j % 2]):
            sc["mode"] = "smc"
            out.append(sc)
    # importance sampling
    for j, shape in enumerate([None, "ordered", "ball", "slots", None, "thin"]):
        for kind in ("gauss", "cut", "nan", "corr", "banana", "poles"):
            for sc in gen.scenarios(k, seed, 520 + j, kind=kind, shape=shape,
                                    kernel=[("tpcn", True), ("rwm", True)][j % 2], n_evidence=[200, 700, 64, 1500][j % 4],
                                    offset=[0.0, 500.0, -2000.0][j % 3], **({"dim": 1} if shape == "thin" else {})):
                sc["mode"] = "is"
                out.append(sc)
    for sc in gen.scenarios(8 * k, seed, 540, kernel=("tpcn", True)):
        sc["mode"] = "is"
        sc["run"]["n_evidence"] = 300
        out.append(sc)
    # many draws
    for j, n in enumerate([6000, 10500] * k):
        sc = gen.scenarios(1, seed, 560 + j, kernel=("tpcn", True), flow="tinymaf", eval="vectorize", kind=["gauss", "cut"][j % 2],
                           blob=None, n_total=120)[0]
        sc["mode"] = "is"
        sc["run"]["n_evidence"] = n
        out.append(sc)
    # several evidence estimates of one sampler, evidence of a direct run
    for j, sc in enumerate(gen.scenarios(8 * k, seed, 550, kernel=("tpcn", True), flow="tinymaf")):
        sc["mode"] = "is"
        sc["run"]["n_evidence"] = [50, 400][j % 2]
        sc["direct"] = True
        out.append(sc)
    return out


def smc_chain(m, sc, r, res):
    """log-evidence implied by the stored log-likelihoods and temperatures."""
    beta = np.asarray(res["beta"], dtype=float)
    logl = np.asarray(res["logl"], dtype=float)
    rec_z = np.asarray(res["logz"], dtype=float)
    na = sc["cfg"]["n_active"]
    W = int(np.sum(np.asarray(res["steps"])[:] * 0 + (beta == 0) * (np.arange(len(beta)) < _warm(sc))))
    z = []
    for t in range(len(beta)):
        if t < W:
            ll = np.array(r.like.log_l[t * na:(t + 1) * na], dtype=float)
            z.append(float(np.log(np.mean(np.isfinite(ll)))))
            continue
        lw = ref.mixture_logw(logl[:t], beta[:t], z, beta[t])
        new = float(ref.lse(lw) - np.log(len(lw)))
        if beta[t] == beta[t - 1] and abs(rec_z[t] - z[-1]) < abs(rec_z[t] - new):
            new = z[-1]
        z.append(new)
    lw = ref.mixture_logw(logl, beta, z, 1.0)
    return float(ref.lse(lw) - np.log(len(lw)))


def _warm(sc):
    na, ne, npr = (sc["cfg"].get(k) for k in ("n_active", "n_effective", "n_prior"))
    return max((npr if npr is not None else 2 * max(ne // na, 1) * na) // na, 1)


def run(sc, m):
    if sc.get("direct"):
        r = rec.run(sc, n_evidence=0)
        s = r.s
    else:
        r = rec.run(sc, n_evidence=0 if sc["mode"] == "is" else sc["run"]["n_evidence"])
        s = r.s
    res = s.results
    z, err = judge_smc(sc, m, r, res, "")
    if sc["mode"] == "smc":
        if sc["run"]["n_evidence"] > 0:
            m.judged("precondition=False ignores n_evidence")
        forb = np.sum(~np.isfinite(np.array(r.like.log_l, dtype=float)))
        m.key("smc", gen.sig(sc)) if (forb or len(res["beta"]) > 5) else None
        m.note(logz=z, temperatures=len(res["beta"]), forbidden=int(forb))
        longer(sc, m, r, res, sc["run"]["n_evidence"])
        return
    n_ev = sc["run"]["n_evidence"]
    reps = [n_ev, max(n_ev // 3, 40)] if sc.get("direct") else [n_ev]
    for n in reps:
        importance(sc, m, r, s, n)
    if sc.get("direct"):
        # the same in one go: a run that samples and estimates together
        one_go(sc, m, n_ev)
    # and back to the SMC estimate
    longer(sc, m, r, res, 0)


def judge_smc(sc, m, r, res, when):
    z, err = r.s.evidence()
    true = smc_chain(m, sc, r, res)
    scale = 1 + np.max(np.abs(res["logl"]))
    m.check("SMC evidence recomputed", abs(z - true) <= 1e-6 + 1e-9 * scale,
            "reported %r%s, stored particles give %r" % (z, when, true))
    m.check("SMC reports no error", err is None, "error %r reported for the SMC evidence%s" % (err, when))
    return z, err


def longer(sc, m, r, res, n_ev):
    """Continue the run with more particles and judge the evidence again."""
    lw = ref.mixture_logw(res["logl"], res["beta"], res["logz"], 1.0)
    now = ref.ess(np.asarray(ref.normalise(lw), dtype=float))
    r.s.run(n_total=int(now + 2 * sc["cfg"]["n_active"]), n_evidence=n_ev, progress=False)
    m.judged("evidence of a continued run")
    judge_smc(sc, m, r, r.s.results, " after continuing")


def one_go(sc, m, n_ev):
    r0 = rec.run(sc, n_evidence=0)
    n0 = r0.like.n
    cap = []
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)))
    s, like, prior, pool = gen.make_sampler(sc, like=like)
    wrap_sample(s, cap)
    kw = dict(sc["run"])
    kw["n_evidence"] = n_ev
    s.run(progress=False, **kw)
    r = type(r0)(s=s, like=like)
    judge_is(sc, m, r, s, n_ev, n0, cap)


def wrap_sample(s, cap):
    orig = s.flow.sample

    def sample(*a, **k):
        out = orig(*a, **k)
        cap.append((np.array(out[0].detach().numpy(), copy=True), np.array(out[1].detach().numpy(), copy=True)))
        return out
    s.flow.sample = sample


def importance(sc, m, r, s, n_ev):
    n0 = r.like.n
    cap = []
    wrap_sample(s, cap)
    s.run(n_total=1, n_evidence=n_ev, progress=False)
    del s.flow.sample
    judge_is(sc, m, r, s, n_ev, n0, cap)


def judge_is(sc, m, r, s, n_ev, n0, cap):
    import torch
    z, err = s.evidence()
    xs = np.array(r.like.log_x[n0:], dtype=float).reshape(-1, len(sc["prior"]))
    ls = np.array(r.like.log_l[n0:], dtype=float)
    truth = gen.Like(sc["like"], record=False)
    ls = np.where(np.isfinite(ls), ls, -np.inf)
    if cap:
        th = np.concatenate([c[0] for c in cap])
        lq = np.concatenate([c[1] for c in cap]).astype(float)
        m.check("flow draws counted", len(th) == n_ev, "%d draws for n_evidence=%d" % (len(th), n_ev))
        with torch.no_grad():
            lq2 = s.flow.log_prob(torch.tensor(th)).numpy().astype(float)
        okq = np.abs(lq - lq2) < 2e-2 + 1e-3 * np.abs(lq)
        m.check("flow density of the draws", np.mean(okq) > 0.98, "log-density of the draws is not the flow's")
        x, j = s.scaler.inverse(th)
        with np.errstate(all="ignore"):
            lp = gen.ref_logprior(sc, x)
        ok = np.isfinite(lp)
        m.check("draws evaluated", int(ok.sum()) == len(xs), "%d draws inside the prior, %d evaluations" % (ok.sum(), len(xs)))
        ll = np.full(len(x), -np.inf)
        ll[ok] = [truth.value(v) for v in x[ok]]
        ll[~np.isfinite(ll)] = -np.inf
        with np.errstate(all="ignore"):
            lw = ll + lp + j - lq
        lw[np.isnan(lw)] = -np.inf
        tol = 1e-5
    else:
        # the draws were not seen: reconstruct them from the evaluated points
        u = s.scaler.forward(xs)
        _, j = s.scaler.inverse(u)
        with torch.no_grad():
            lq = s.flow.log_prob(torch.tensor(u, dtype=torch.float32)).numpy().astype(float)
        lw = np.concatenate([ls + gen.ref_logprior(sc, xs) + j - lq, np.full(max(n_ev - len(xs), 0), -np.inf)])
        tol = 0.02
    zero = int(np.sum(~np.isfinite(lw)))
    if zero:
        m.judged("draws with zero weight", zero)
    if not np.isfinite(lw).any():
        m.check("IS evidence recomputed", np.isneginf(z), "no valid draw, but evidence %r" % z)
        return
    true = float(ref.lse(lw) - np.log(float(n_ev)))
    m.check("IS evidence recomputed", abs(z - true) <= tol + 1e-7 * (1 + np.max(np.abs(ls[np.isfinite(ls)]))),
            "reported %r, the evaluations give %r" % (z, true), n_evidence=n_ev, zero_weight=zero)
    w = np.exp(lw - np.max(lw))
    if ref.ess(w) > 25:
        rng = np.random.default_rng(5)
        R = 3000
        b = np.array([np.log(np.mean(w[rng.integers(len(w), size=len(w))])) for _ in range(R)])
        sd = b.std()
        k = np.mean((b - b.mean()) ** 4) / sd ** 4
        Ruser = max(n_ev, 1000)
        rel = np.sqrt((k - 1) / 4 * (1 / R + 1 / Ruser))
        m.check("IS error is the bootstrap one", err is not None and np.isfinite(err) and abs(err / sd - 1) < 7 * rel + 0.02,
                "reported error %r, bootstrap %r (+-%.0f%%)" % (err, sd, 100 * rel), n_evidence=n_ev)
    m.key("is", gen.sig(sc), n_ev, "zero" if zero else "")
    m.note(logz=z, err=err, draws=n_ev, zero_weight=zero)
