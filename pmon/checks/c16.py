"""C16: likelihood calls, iterations and MCMC steps are counted exactly."""
import os

import numpy as np

from .. import gen, rec

RULE = ("one case = one history (a run, a run continued several times, or a run resumed from a state file) with a counter "
        "inside the user likelihood; non-trivial if some proposals were not evaluated or the history has several runs; "
        "distinct by scenario signature and history")
REQUIRED = ["calls at an iteration", "calls in total", "n_active particles", "iteration index", "steps bounds",
            "one evaluation per particle and step", "acceptance rate", "calls after resume", "evidence calls counted"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = []
    for sc in gen.scenarios(44 * k, seed, 1601):
        sc["hist"] = ["run"]
        out.append(sc)
    for j, sc in enumerate(gen.scenarios(24 * k, seed, 1602, n_evidence=80, n_steps=1)):
        sc["hist"] = [["run", "run"], ["run", "run", "run"], ["resume"], ["resume", "run"], ["resume-final"],
                      ["run-noev", "run"]][j % 6]
        out.append(sc)
    for j, sc in enumerate(gen.scenarios(12 * k, seed, 1603, shape="slots", kernel=gen.KERNELS[seed % 4], n_steps=1)):
        sc["hist"] = [["run"], ["run", "run"]][j % 2]
        out.append(sc)
    # fewer candidates than active particles
    for j, sc in enumerate(gen.scenarios(8 * k, seed, 1604, kernel=[("tpcn", False), ("rwm", False)][seed % 2], kind="gauss",
                                         blob=None)):
        na = sc["cfg"]["n_active"]
        sc["cfg"].update(n_effective=int([0.5, 0.7][j // 2 % 2] * na), n_prior=na, resample=["syst", "mult"][j % 2])
        sc["hist"] = [["run"], ["run", "run"]][j // 4 % 2]
        out.append(sc)
    # so few particles in so thin a prior that whole steps propose nothing that can be evaluated
    for j in range(8 * k):
        sc, = gen.scenarios(1, seed, 1610 + j, shape="thin", dim=1, n_active=8, kind="gauss", kernel=gen.KERNELS[j % 4],
                            ratio=3.0, **({"flow": "tinymaf"} if gen.KERNELS[j % 4][1] else {}))
        sc["hist"] = [["run"], ["run", "run"]][j // 4 % 2]
        out.append(sc)
    return out


def judge(m, sc, s, base=0):
    res = s.results
    T = len(res["x"])
    na = sc["cfg"]["n_active"]
    d = len(sc["prior"])
    for key in ("x", "u", "logl", "logp", "logdetj"):
        shp = np.shape(res[key])
        want = (T, na, d) if key in ("x", "u") else (T, na)
        m.check("n_active particles", shp == want, "results[%r] has shape %s, expected %s" % (key, shp, want))
    m.check("iteration index", np.array_equal(np.asarray(res["iter"]), np.arange(T)),
            "iteration indices %s" % (np.asarray(res["iter"]).tolist(),))
    steps = np.asarray(res["steps"])
    calls = np.asarray(res["calls"])
    acc = np.asarray(res["accept"])
    nmax = sc["cfg"].get("n_max_steps")
    lim = max(1, nmax) if nmax is not None else 10 * max(d, sc["cfg"].get("n_steps") or 1)
    m.judged("steps bounds", T)
    if not (np.all(steps >= 1) and np.all(steps <= lim) and np.all(steps == np.floor(steps))):
        m.violation("steps bounds: %s not within 1..%d" % (steps.tolist(), lim))
    m.judged("acceptance rate", T)
    if not (np.all(acc >= 0) and np.all(acc <= 1)):
        m.violation("acceptance rate: %s" % acc.tolist())
    m.check("calls never decrease", np.all(np.diff(calls) >= 0), "calls %s" % calls.tolist())
    return res


def run(sc, m):
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    log = []
    cls = rec.tracing_class(log, like)
    s, like, prior, pool = gen.make_sampler(sc, cls=cls, like=like)
    na = sc["cfg"]["n_active"]
    n_ev = sc["run"]["n_evidence"]
    pre = sc["cfg"]["precondition"]
    total = sc["run"]["n_total"]
    if sc["hist"][0].startswith("resume"):
        return resumed(sc, m)
    smc = {}
    seg = []
    for k, h in enumerate(sc["hist"]):
        before = like.n
        t_before = s.t
        s.run(n_total=total * (k + 1), n_evidence=0 if h == "run-noev" else n_ev, progress=False, save_every=1)
        m.check("calls in total", int(s.calls) == like.n,
                "reported %d likelihood calls, %d were made (run %d)" % (s.calls, like.n, k), hist=sc["hist"])
        if pre and n_ev and h == "run":
            m.judged("evidence calls counted")
        seg.append((t_before, before))
    res = judge(m, sc, s)
    T = len(res["x"])
    calls = np.asarray(res["calls"])
    for e in log:
        if e["path"].endswith("final.state"):
            continue
        m.check("calls at an iteration", calls[e["t"] - 1] == e["n_like"] == e["calls"],
                "after iteration %d: results say %d, sampler %d, %d were made" % (
                    e["t"] - 1, calls[e["t"] - 1], e["calls"], e["n_like"]))
    starts = dict(seg)
    steps = np.asarray(res["steps"])
    for t in range(T):
        prev = starts.get(t, calls[t - 1] if t else 0)
        inc = calls[t] - prev
        m.check("one evaluation per particle and step", 0 <= inc <= steps[t] * na,
                "iteration %d: %d evaluations in %d steps of %d particles" % (t, inc, steps[t], na))
    npr = sc["cfg"].get("n_prior")
    W = max((npr if npr is not None else 2 * max(sc["cfg"]["n_effective"] // na, 1) * na) // na, 1)
    m.check("warm-up calls", np.array_equal(calls[:W], na * np.arange(1, W + 1)), "warm-up calls %s" % calls[:W].tolist())
    m.key(gen.sig(sc), sc["hist"])
    m.note(calls=like.n, iterations=T, hist=sc["hist"], steps=steps.tolist()[-8:])


def resumed(sc, m):
    import pocomc
    sc = dict(sc)
    sc["cfg"] = dict(sc["cfg"], output_dir=os.path.join(sc["_scratch"], "st"), output_label="a")
    s, like, prior, pool = gen.make_sampler(sc)
    like.record = False
    counts = {}

    class Tr(pocomc.Sampler):
        def save_state(self, path):
            counts[str(path)] = like.n
            super().save_state(path)
    s.__class__ = Tr
    n_ev = sc["run"]["n_evidence"]
    s.run(n_total=sc["run"]["n_total"], n_evidence=n_ev, progress=False, save_every=2)
    m.check("calls in total", int(s.calls) == like.n, "reported %d calls, %d made" % (s.calls, like.n))
    paths = list(counts)
    if sc["hist"][0] == "resume-final":
        paths = [p for p in paths if p.endswith("final.state")]
    else:
        paths = [p for p in paths if not p.endswith("final.state")]
        paths = [paths[0], paths[-1]] if len(paths) > 1 else paths
    for p in paths:
        like2 = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
        s2, like2, _, _ = gen.make_sampler(sc, like=like2)
        base = counts[p]
        tot = gen.TOTAL[0]
        s2.run(n_total=sc["run"]["n_total"], n_evidence=n_ev, progress=False, resume_state_path=p)
        # the state file may carry its own copy of the likelihood: count in the process
        made = base + gen.TOTAL[0] - tot
        m.check("calls after resume", int(s2.calls) == made, "resumed from %s: reported %d calls, %d were made" % (
            os.path.basename(p), s2.calls, made))
        for h in sc["hist"][1:]:
            s2.run(n_total=2 * sc["run"]["n_total"], n_evidence=n_ev, progress=False)
            made = base + gen.TOTAL[0] - tot
            m.check("calls after resume", int(s2.calls) == made, "resumed and continued: reported %d calls, %d made" % (
                s2.calls, made))
        judge(m, sc, s2)
        m.key("resume", gen.sig(sc), sc["hist"])
