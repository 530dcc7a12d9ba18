"""C03: the annealing ladder is monotone, meets its ESS target and ends at one."""
import numpy as np

from .. import gen, rec, ref

RULE = ("one case = the trace (temperature, sample size, log-evidence, log-likelihoods of every iteration) of one run or of "
        "a sequence of continued runs; non-trivial if at least one temperature strictly between 0 and 1 was visited; "
        "distinct by scenario signature")
REQUIRED = ["monotone", "sample size recomputed", "log-evidence recomputed", "target met below 1", "terminates at 1",
            "enough samples at the end", "no stall", "target met at 1", "temperature close to one",
            "tiny temperatures", "dynamic target"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = gen.scenarios(40 * k, seed, 301)
    for j, (metric, dyn) in enumerate([("ess", True), ("uss", True), ("ess", False), ("uss", False)]):
        out += gen.scenarios(8 * k, seed, 310 + j, metric=metric, dynamic=dyn, kernel=("tpcn", False),
                             kind=["gauss", "banana", "bimodal", "cut"][j], n_steps=1)
    # continued runs
    for j, sc in enumerate(gen.scenarios(12 * k, seed, 330, n_steps=1)):
        sc["totals"] = [[100, 300], [200, 150, 500], [50, 60, 70]][j % 3]
        out.append(sc)
    # sharp likelihoods: many temperatures
    for j, sc in enumerate(gen.scenarios(10 * k, seed, 340, kind="gauss", dim=2, n_steps=3, kernel=("tpcn", False))):
        sc["like"]["s"] = [v * 0.05 for v in sc["like"]["s"]]
        out.append(sc)
    # likelihoods so sharp that the first temperatures are tiny
    for j, sc in enumerate(gen.scenarios(8 * k, seed, 345, kind=["gauss", "corr"][seed % 2], dim=2, n_steps=2,
                                         kernel=("tpcn", False), bc=None, shape=None, offset=0.0)):
        f = [3e-3, 3e-4, 1e-4, 3e-5][j % 4]
        sc["like"]["s"] = [v * f for v in sc["like"]["s"]]
        sc["like"]["m"] = [float(gen.component(c).ppf(0.4)) for c in sc["prior"]]
        sc["run"]["n_total"] = 100
        sc["sharp"] = True
        out.append(sc)
    for j, sc in enumerate(gen.scenarios(6 * k, seed, 350, kind="corr", dim=3, n_steps=2, offset=[1e4, -1e5][seed % 2])):
        out.append(sc)
    # temperatures that land close to one: the likelihood is rescaled until the first step ends there
    for j, sc in enumerate(gen.scenarios(12 * k, seed, 370, kernel=[("tpcn", False), ("rwm", False)][seed % 2], dim=[4, 6, 5][seed % 3], kind="gauss",
                                         dynamic=[False, True][seed % 2], n_steps=1)):
        sc["land"] = [0.9999, 0.9985, 0.997, 0.994, 0.9915, 0.985, 0.97, 0.95, 0.99992, 0.9995, 0.998, 0.992][j % 12]
        sc["run"]["n_total"] = 10
        na = sc["cfg"]["n_active"] = [16, 24, 32][j % 3]
        sc["cfg"].update(n_effective=2 * na, n_prior=[24, 60][j % 2] * na)
        out.append(sc)
    # unusual numbers of particles
    for j, sc in enumerate(gen.scenarios(8 * k, seed, 360, kernel=[("tpcn", False), ("rwm", False)][seed % 2], dim=2)):
        na, ne = [(50, 50), (64, 40), (20, 300), (37, 101)][j % 4]
        sc["cfg"].update(n_active=na, n_effective=ne)
        sc["cfg"].pop("n_prior", None)
        out.append(sc)
    return out


class Tempered:
    """The likelihood to a power."""

    def __init__(self, like, power):
        self.like, self.power = like, power

    def __call__(self, x):
        r = self.like(x)
        return (self.power * r[0],) + tuple(r[1:]) if isinstance(r, tuple) else self.power * r

    def __getattr__(self, k):
        return getattr(self.__dict__["like"], k)


def run_land(sc, m):
    """The first move of the temperature depends on the power of the likelihood only through its product with it."""
    power, hits = 1.0, 0

    def once(power):
        like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
        log = []
        s, _, _, _ = gen.make_sampler(sc, cls=rec.tracing_class(log, like), like=Tempered(like, power))
        n0 = s.n_effective
        s.run(n_total=sc["run"]["n_total"], n_evidence=0, progress=False, save_every=1)
        target = {e["t"]: e["n_effective"] for e in log if not e["path"].endswith("final.state")}
        target[0] = n0
        res = s.results
        check_trace(m, sc, res, target, [(len(res["beta"]), sc["run"]["n_total"])])
        return res
    res = once(30.0)
    n0 = int(np.sum(res["beta"] == 0.0))
    l = np.concatenate(res["logl"][:n0]) / 30.0
    ne = sc["cfg"]["n_effective"]

    def size(bp):
        lw = bp * l
        return ref.metric(ref.normalise(lw - lw.max()), sc["cfg"]["metric"])

    def landing(power):
        """Where halving the interval would end (only to aim: the oracle does not use it)."""
        if size(power) >= ne or size(0.0) <= ne:
            return None
        lo, hi = 0.0, 1.0
        for _ in range(60):
            b = 0.5 * (lo + hi)
            v = size(power * b)
            if abs(v - ne) < 0.01 * ne:
                return b
            lo, hi = (lo, b) if v < ne else (b, hi)
        return None
    b1 = float(res["beta"][res["beta"] > 0][0])
    aims = {}
    for q in np.linspace(0.96, 1.04, 401):
        b = landing(30.0 * b1 * q)
        if b is not None and b > 0.96:
            aims.setdefault(b, 30.0 * b1 * q)
    b = res["beta"]
    for aim in sorted(aims, key=lambda v: abs(v - sc["land"]))[:3]:
        if m.violations:
            return
        b = np.concatenate([b, once(aims[aim])["beta"]])
    near = b[(b > 0.9) & (b < 1)]
    m.judged("temperature close to one", len(near))
    if len(near):
        m.key("land", gen.sig(sc), round(float(near.max()), 5))
    m.note(near_one=[float(v) for v in near])


def run(sc, m):
    if sc.get("land"):
        return run_land(sc, m)
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    log = []
    s, like, prior, pool = gen.make_sampler(sc, cls=rec.tracing_class(log, like), like=like)
    totals = sc.get("totals") or [sc["run"]["n_total"]]
    target = {}
    ends = []
    for n_total in totals:
        target[s.t] = s.n_effective
        s.run(n_total=n_total, n_evidence=0, progress=False, save_every=1)
        ends.append((len(s.results["beta"]), n_total))
    for e in log:
        if not e["path"].endswith("final.state"):
            target[e["t"]] = e["n_effective"]
    check_trace(m, sc, s.results, target, ends)
    res = s.results
    if np.any((res["beta"] > 0) & (res["beta"] < 1)):
        m.key(gen.sig(sc), len(totals))
    m.note(temperatures=[round(float(b), 6) for b in res["beta"]][-12:], iterations=len(res["beta"]))


def check_trace(m, sc, res, target, ends, rule=True):
    if sc.get("sharp"):
        m.judged("tiny temperatures", int(np.sum((np.asarray(res["beta"]) > 0) & (np.asarray(res["beta"]) < 1e-6))))
    beta, ess, logz, logl = (np.asarray(res[k], dtype=float) for k in ("beta", "ess", "logz", "logl"))
    T = len(beta)
    na = sc["cfg"]["n_active"]
    npr = sc["cfg"].get("n_prior")
    ne = sc["cfg"]["n_effective"]
    W = (npr if npr is not None else 2 * max(ne // na, 1) * na) // na
    W = max(W, 1)
    kind = sc["cfg"]["metric"]
    ratio = float(ref.uss(np.full(ne, 1.0 / ne), k=na)) / na
    m.check("starts at 0", np.all(beta[:W] == 0.0), "warm-up temperatures %s" % beta[:W])
    scale = 1.0 + np.max(np.abs(logl))
    first_end = {e for e, _ in ends}
    for t in range(1, T):
        m.check("monotone", beta[t] >= beta[t - 1] and 0 <= beta[t] <= 1.0,
                "temperature went from %r to %r at iteration %d" % (beta[t - 1], beta[t], t))
    for t in range(W, T):
        past = logl[:t]
        lw = ref.mixture_logw(past, beta[:t], logz[:t], beta[t])
        val = ref.metric(ref.normalise(lw), kind)
        m.check("sample size recomputed", abs(val - ess[t]) <= 1e-6 * val + 1e-6,
                "iteration %d: recorded %s %r, weights give %r" % (t, kind, ess[t], val), beta=beta[t], iteration=t)
        z = float(ref.lse(lw) - np.log(len(lw)))
        same = beta[t] == beta[t - 1]
        okz = abs(z - logz[t]) <= 1e-9 * scale + 1e-7 or (same and logz[t] == logz[t - 1])
        m.check("log-evidence recomputed", okz, "iteration %d: recorded logz %r, weights give %r" % (t, logz[t], z),
                beta=beta[t], iteration=t)
        tgt = target.get(t)
        if not sc["cfg"]["dynamic"]:
            tgt = ne
        if tgt is not None:
            moved = beta[t] > beta[t - 1]
            if moved and beta[t] < 1:
                m.check("target met below 1", abs(val - tgt) <= 0.0101 * tgt,
                        "iteration %d: sample size %r at beta %r, target %r" % (t, val, beta[t], tgt))
            elif moved:
                m.check("target met at 1", val >= tgt * (1 - 1e-6),
                        "iteration %d jumped to 1 with sample size %r, target %r" % (t, val, tgt))
            elif beta[t] < 1:
                m.check("no stall", val <= tgt * (1 + 1e-9),
                        "iteration %d: temperature kept at %r with sample size %r above the target %r" % (
                            t, beta[t], val, tgt))
            nxt = target.get(t + 1)
            if nxt is not None and rule:
                U = ref.uss(ref.normalise(lw), k=na)
                if not sc["cfg"]["dynamic"]:
                    m.check("fixed target", nxt == tgt, "n_effective went from %r to %r without dynamic allocation" % (tgt, nxt))
                elif U < 0.95 * ratio * na * (1 - 1e-6):
                    m.check("dynamic target", nxt > tgt if tgt >= 40 else nxt >= tgt,
                            "iteration %d: %.4g of %d draws distinct, below the initial ratio %.4g, but n_effective went "
                            "from %r to %r" % (t, U, na, ratio, tgt, nxt))
                elif U > min(1.05 * ratio, 1.0) * na * (1 + 1e-6):
                    m.check("dynamic target", nxt < tgt if U < 0.97 * na else nxt <= tgt,
                            "iteration %d: %.4g of %d draws distinct, above the initial ratio %.4g, but n_effective went "
                            "from %r to %r" % (t, U, na, ratio, tgt, nxt))
                elif U > 0.951 * ratio * na and U < min(1.049 * ratio, 0.999) * na:
                    m.check("dynamic target", nxt == tgt, "iteration %d: %.4g of %d draws distinct, as at the start (%.4g), "
                            "but n_effective went from %r to %r" % (t, U, na, ratio, tgt, nxt))
        if m.violations:
            return
    for e, n_total in ends:
        lw = ref.mixture_logw(logl[:e], beta[:e], logz[:e], 1.0)
        val = ref.metric(ref.normalise(lw), kind)
        m.check("terminates at 1", 1.0 - beta[e - 1] < 1e-4, "run() returned at beta=%r" % beta[e - 1])
        m.check("enough samples at the end", val >= n_total * (1 - 1e-9),
                "run(n_total=%d) returned with sample size %r" % (n_total, val))
    # the run ends as soon as that is reached
    start = W
    for e, n_total in ends:
        for t in range(start, e):
            if 1.0 - beta[t - 1] < 0.9e-4:
                lw = ref.mixture_logw(logl[:t], beta[:t], logz[:t], 1.0)
                val = ref.metric(ref.normalise(lw), kind)
                m.check("no needless iteration", val < n_total * (1 + 1e-9),
                        "iteration %d was run although %r >= n_total=%d" % (t, val, n_total))
        start = max(e, W)
