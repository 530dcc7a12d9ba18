"""C04: posterior weights are the correct importance weights, aligned with the samples."""
import collections

import numpy as np

from .. import gen, rec, ref

RULE = ("one case = one finished run, on which posterior() is called with every combination of its options; non-trivial if "
        "trimming removed something; distinct by scenario signature")
REQUIRED = ["weights sum to one", "weights recomputed", "stored order", "row belongs together", "trim removes lowest",
            "trim keeps ESS", "log-weights recomputed", "resampled row", "resampling frequencies"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)

OPTS = rec.POSTERIOR_OPTIONS + [dict(ess_trim=1.0, bins_trim=10), dict(ess_trim=0.3, bins_trim=1000),
                                dict(ess_trim=0.05, bins_trim=100, return_logw=True), dict(bins_trim=1),
                                dict(ess_trim=0.2, bins_trim=2)]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = gen.scenarios(40 * k, seed, 401)
    for j, rs in enumerate(["mult", "syst"]):
        for b in (None, "f2", "str"):
            out += gen.scenarios(3 * k, seed, 410 + j, resample=rs, blob=b, kernel=("tpcn", False), n_steps=1)
    for j, sc in enumerate(gen.scenarios(6 * k, seed, 420, kernel=("rwm", False), n_steps=1)):
        sc["totals"] = [100, 400]
        out.append(sc)
    # long histories
    for j, sc in enumerate(gen.scenarios(4 * k, seed, 430, resample=["mult", "syst"][seed % 2], kernel=("tpcn", False), n_steps=1,
                                         dim=2, n_active=[200, 400][seed % 2])):
        sc["cfg"]["resample"] = ["mult", "syst"][j % 2]
        sc["totals"] = [[1500], [4000]][j // 2 % 2]
        out.append(sc)
    for j in range(2 * k):
        sc, = gen.scenarios(1, seed, 440 + j, resample=["mult", "syst"][j % 2], kernel=("tpcn", False), n_steps=1, dim=1,
                            n_active=1000, kind="gauss", eval="vectorize", blob=None, dynamic=False)
        sc["totals"] = [9000]
        out.append(sc)
    return out


def bkey(b):
    if b is None:
        return None
    if isinstance(b, np.void):
        return repr(b.tolist())
    return repr(b.tolist()) if isinstance(b, (np.ndarray, np.generic)) else repr(b)


def run(sc, m):
    r = rec.run(sc, n_total=(sc.get("totals") or [sc["run"]["n_total"]])[0], n_evidence=0)
    for n in (sc.get("totals") or [])[1:]:
        r.s.run(n_total=n, n_evidence=0, progress=False)
    s = r.s
    res = {k: np.array(v, copy=True) for k, v in s.results.items()}
    have = sc["like"].get("blob") is not None
    X = np.concatenate(res["x"])
    L = np.concatenate(res["logl"])
    P = np.concatenate(res["logp"])
    B = np.concatenate(res["blobs"]) if have else [None] * len(X)
    lw = ref.mixture_logw(L, res["beta"], res["logz"], 1.0)
    w = np.asarray(ref.normalise(lw), dtype=float)
    nlw = np.asarray(lw - ref.lse(lw), dtype=float)
    rows = collections.defaultdict(list)
    for i in range(len(X)):
        rows[X[i].tobytes()].append(i)
    full_ess = ref.ess(w)
    tol = 1e-9 * (1 + np.max(np.abs(L)))
    trimmed_any = False
    for opt in OPTS:
        for wb in ((True, False) if have else (False,)):
            p = rec.posterior(s, wb, **opt)
            n = len(p["x"])
            if not all(len(v) == n for v in p.values()):
                m.violation("row belongs together: columns of different length in posterior(%s)" % opt)
                return
            # identify every row
            idx = np.full(n, -1)
            for i in range(n):
                cand = rows.get(np.asarray(p["x"][i]).tobytes(), [])
                for c in cand:
                    if L[c] == p["logl"][i] and abs(P[c] - p["logp"][i]) < 1e-9 * (1 + abs(P[c])) and (
                            not wb or bkey(B[c]) == bkey(p["blobs"][i])):
                        idx[i] = c
                        break
                m.judged("row belongs together")
                if idx[i] < 0:
                    m.violation("row belongs together: posterior(%s) row %d is no stored particle" % (opt, i),
                                x=p["x"][i], logl=p["logl"][i], logp=p["logp"][i])
                    return
            if "weights" in p:
                pw = np.asarray(p["weights"], dtype=float)
                m.check("weights sum to one", abs(pw.sum() - 1) < 1e-8 and (pw >= 0).all(),
                        "sum %r min %r for posterior(%s)" % (pw.sum(), pw.min(), opt))
                exp = w[idx] / w[idx].sum()
                err = np.max(np.abs(pw - exp) / (exp + 1e-12 * exp.max()))
                m.check("weights recomputed", err < 1e-6 + 10 * tol,
                        "posterior(%s): relative error %r" % (opt, err))
            if "logw" in p:
                plw = np.asarray(p["logw"], dtype=float)
                d = plw - nlw[idx]
                ok = np.ptp(d) < 1e-6 + 10 * tol
                if opt.get("trim_importance_weights", True) is False:
                    ok = ok and np.max(np.abs(d)) < 1e-6 + 10 * tol
                m.check("log-weights recomputed", ok, "posterior(%s): log-weights differ by %r .. %r" % (
                    opt, d.min(), d.max()))
            if not opt.get("resample"):
                if opt.get("trim_importance_weights", True) is False:
                    m.check("stored order", n == len(X) and np.array_equal(np.asarray(p["x"]), X)
                            and np.array_equal(p["logl"], L), "untrimmed posterior is not the stored history in order")
                else:
                    ws = np.sort(w)[::-1]
                    kept = np.sort(w[idx])[::-1]
                    m.check("trim removes lowest", n <= len(w) and np.allclose(kept, ws[:n], rtol=1e-9, atol=0),
                            "posterior(%s) removed samples of higher weight than it kept" % opt)
                    e = opt.get("ess_trim", 0.99)
                    m.check("trim keeps ESS", ref.ess(kept) >= e * full_ess * (1 - 1e-9),
                            "posterior(%s) keeps %r of the ESS" % (opt, ref.ess(kept) / full_ess))
                    # a stored particle is returned at most as often as it is stored
                    cs = collections.Counter(x.tobytes() for x in np.asarray(p["x"]))
                    m.check("no sample duplicated", all(c <= len(rows[k]) for k, c in cs.items()),
                            "posterior(%s) duplicates samples" % opt)
                    trimmed_any |= n < len(w)
    resampling(sc, m, s, w, X, rows, full_ess)
    if trimmed_any:
        m.key(gen.sig(sc))
    m.note(particles=len(w), ess=full_ess)


def resampling(sc, m, s, w, X, rows, full_ess):
    groups = {k: j for j, k in enumerate(rows)}
    G = len(groups)
    size = np.array([len(v) for v in rows.values()])
    for opt in (dict(trim_importance_weights=False), dict(), dict(ess_trim=0.6, bins_trim=100)):
        p = rec.posterior(s, False, **opt)
        gi = np.array([groups[x.tobytes()] for x in np.asarray(p["x"])])
        W = np.bincount(gi, weights=p["weights"], minlength=G)
        K = np.bincount(gi, minlength=G)
        n = len(gi)

        def draw(reps, seed):
            np.random.seed(seed)
            C = np.zeros(G)
            N = 0
            for _ in range(reps):
                q = s.posterior(resample=True, **opt)
                c = np.bincount([groups[x.tobytes()] for x in np.asarray(q[0])], minlength=G)
                m.judged("resampled row", int(c.sum()))
                if np.any((c > 0) & (W <= 0)):
                    m.violation("resampled row: a sample of weight zero was drawn", opt=opt)
                if sc["cfg"]["resample"] == "syst":
                    nn = c.sum()
                    m.check("systematic counts", np.all(np.abs(c - nn * W) < K * (1 + 1e-6) + 1e-6),
                            "count off by more than one per sample", opt=opt)
                C += c
                N += c.sum()
            return C, N

        def score(C, N, bins):
            e = np.bincount(bins, weights=W, minlength=bins.max() + 1)
            c = np.bincount(bins, weights=C, minlength=bins.max() + 1)
            z = (c - N * e) / np.sqrt(N * e * (1 - e) + 1.0)
            return np.max(np.abs(z))

        rank = np.argsort(np.argsort(W))
        b1 = (rank * 10 // G)
        first = np.array([v[0] for v in rows.values()])
        b2 = (first * 8 // len(X))
        C, N = draw(12, 77)
        z = max(score(C, N, b1), score(C, N, b2))
        if z > 5.5:
            C, N = draw(60, 99)
            z = max(score(C, N, b1), score(C, N, b2))
        m.check("resampling frequencies", z < 6.5, "counts of resampled rows deviate from the weights by %.1f sigma" % z,
                opt=opt)
