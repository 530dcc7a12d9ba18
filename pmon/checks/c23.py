"""C23: a run stopped by an error keeps its history and can be continued."""
import os

import numpy as np

from .. import gen, rec, ref, same
from . import c01, c03, c21

RULE = ("one case = one scenario run twice with the same seed, once undisturbed and once with an exception raised by the user's "
        "likelihood, prior, pool or disk at one to three chosen points, run() being called again after each; distinct by scenario "
        "signature, kind of fault and iteration it hit")
REQUIRED = ["exception reaches the caller", "history before the fault", "completed iterations stored", "readable after the fault",
            "history kept by the next run", "iteration index", "rows are consistent records", "calls of completed iterations",
            "monotone", "terminates at 1", "enough samples at the end", "sample size recomputed", "evidence after the fault",
            "fault in the warm-up", "fault in an annealing step", "fault in the first iteration at one", "fault in the evidence draws",
            "fault in the prior", "fault while saving", "fault in a pool worker", "saved after the fault"]
CPU = 240
SOFT = dict(quick=280, thorough=2400)


def history(s):
    return c21.history(s) if s.t else {k: [] for k in c21.PER_ITER}


class Custom(Exception):
    pass


class Hard(BaseException):
    pass


KINDS = [ValueError, KeyboardInterrupt, Custom, MemoryError, Hard, SystemExit, RuntimeError, FloatingPointError, StopIteration,
         IndexError, TypeError, OSError, np.linalg.LinAlgError, AttributeError, AssertionError, GeneratorExit, ZeroDivisionError]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    where = ["warm", "anneal", "one", "evidence", "anneal", "one", "prior", "save", "anneal"]
    rng = np.random.default_rng([seed, 2323])
    for j, (kern, n) in enumerate(zip(gen.KERNELS, (18, 18, 12, 12))):
        for i, sc in enumerate(gen.scenarios(n * k, seed, 2300 + j, kernel=kern, n_total=[40, 150][seed % 2],
                                             **({"flow": "tinymaf"} if kern[1] else {}))):
            sc["where"] = [where[(i + j) % len(where)]]
            for _ in range(int(rng.integers(0, 3))):
                sc["where"].append(str(rng.choice(["anneal", "one", "prior", "save", "anneal"])))
            sc["kinds"] = [int(v) for v in rng.integers(len(KINDS), size=len(sc["where"]))]
            sc["frac"] = [float(v) for v in rng.uniform(size=len(sc["where"]))]
            sc["totals"] = int(rng.choice([20, 60, 200]))
            sc["via_file"] = bool(i % 4 == 1)
            out.append(sc)
    for j, sc in enumerate(gen.scenarios(3 * k, seed, 2350, kernel=[("tpcn", False), ("rwm", False)][seed % 2], eval="serial", blob=None,
                                         n_total=100, n_active=24, dim=2, kind="gauss", n_steps=1)):
        sc["eval"] = [2, 3, 2][j % 3]
        sc["where"] = ["worker"]
        sc["rare"] = [1 / 200.0, 1 / 60.0, 1 / 30.0][j % 3]
        sc["kinds"] = [[0, 6, 9][j % 3]]
        sc["frac"] = [float(rng.uniform())]
        sc["totals"] = 60
        sc["via_file"] = False
        out.append(sc)
    return out


class Faulty:
    """The user's likelihood, raising once the given number of evaluations was made."""

    def __init__(self, like):
        self.like, self.at, self.exc = like, None, None
        self.raised = 0

    def __call__(self, x, *a, **k):
        n = len(x) if self.like.vectorize else 1
        if self.at is not None and self.like.n + n > self.at:
            self.at = None
            self.raised += 1
            raise self.exc
        return self.like(x, *a, **k)


class FaultyWorker:
    """Raises at some parameter values, in whatever process it is called."""

    def __init__(self, like, rare, exc):
        self.like, self.rare, self.exc, self.armed = like, rare, exc, True

    def __call__(self, x):
        v = self.like(x)
        if self.armed and (1e6 * float(x[0])) % 1.0 < self.rare:
            raise self.exc
        return v


class FaultyPrior:
    def __init__(self, prior):
        self.prior, self.at, self.exc, self.n = prior, None, None, 0

    def logpdf(self, x):
        self.n += 1
        if self.at is not None and self.n >= self.at:
            self.at = None
            raise self.exc
        return self.prior.logpdf(x)

    def rvs(self, size=1):
        return self.prior.rvs(size=size)

    @property
    def bounds(self):
        return self.prior.bounds

    @property
    def dim(self):
        return self.prior.dim


def build(sc, worker=None):
    import pocomc
    log = []
    base = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    like = worker(base) if worker else Faulty(base)
    prior = FaultyPrior(gen.make_prior(sc))

    class Tracing(pocomc.Sampler):
        save_at = save_exc = None
        saves = 0

        def save_state(self, path):
            e = dict(path=str(path), t=int(self.t), n_effective=int(self.n_effective), n_like=base.n, n_prior=prior.n)
            self.saves += 1
            if self.save_at is not None and self.saves >= self.save_at:
                self.save_at = None
                raise self.save_exc
            log.append(e)
    s, _, _, pool = gen.make_sampler(sc, cls=Tracing, like=like, prior=prior)
    return s, base, like, prior, log


def exception(kind):
    cls = KINDS[kind]
    return cls("planted %d" % kind)


def run(sc, m):
    na = sc["cfg"]["n_active"]
    n_ev = sc["run"]["n_evidence"] if sc["cfg"]["precondition"] else 0
    if sc["where"][0] == "evidence" and sc["cfg"]["precondition"]:
        n_ev = max(n_ev, 50)
    total = sc["totals"]
    kw = dict(n_total=total, n_evidence=n_ev, progress=False, save_every=1)
    if sc["where"] == ["worker"]:
        return run_worker(sc, m, kw)
    # the undisturbed run
    s0, base0, like0, prior0, log0 = build(sc)
    s0.run(**kw)
    full = history(s0)
    calls = np.array([int(v) for v in full["calls"]])
    beta = np.array([float(v) for v in full["beta"]])
    T0 = len(beta)
    W = int(np.sum(beta == 0.0))
    W = min(W, max((sc["cfg"]["n_prior"] if sc["cfg"].get("n_prior") is not None else
                    2 * max(sc["cfg"]["n_effective"] // na, 1) * na) // na, 1))

    s, base, like, prior, log = build(sc)
    lost = 0
    ends = []
    prev = None
    hit = []
    for q, (where, kind, frac) in enumerate(zip(sc["where"], sc["kinds"], sc["frac"])):
        exc = exception(kind)
        spread = lambda lo, hi: int(lo + frac * (hi - lo))
        n0 = base.n
        undisturbed = q == 0
        # where the fault goes: known from the undisturbed run for the first one
        c0 = calls if undisturbed else None
        if where in ("warm", "anneal", "one", "evidence") and undisturbed:
            t1 = int(np.argmax(beta >= 1.0 - 1e-4))
            if where == "warm":
                lo, hi = 0, calls[W - 1] - 1
            elif where == "anneal" and T0 > W:
                lo, hi = calls[W - 1], calls[-1] - 1
            elif where == "one" and calls[t1] > calls[t1 - 1]:
                lo, hi = calls[t1 - 1], calls[t1] - 1
            elif where == "evidence" and base0.n > calls[-1]:
                lo, hi = calls[-1], base0.n - 1
            else:
                continue
            like.at, like.exc = spread(lo, hi), exc
            if where == "evidence":
                like.at = calls[-1] if like.like.vectorize else like.at
        elif where == "prior":
            prior.at, prior.exc = prior.n + 1 + spread(0, 40 if undisturbed else 12), exc
        elif where == "save":
            s.save_at, s.save_exc = s.saves + 1 + spread(0, 6 if undisturbed else 3), exc
        else:
            like.at, like.exc = base.n + spread(0, 6 * na), exc
        before = history(s) if len(log) or q else None
        caught = None
        log.append(dict(path="", t=int(s.t), n_effective=int(s.n_effective), n_like=base.n, n_prior=prior.n))
        try:
            s.run(**kw)
        except BaseException as e:
            caught = e
        fired = like.at is None and where not in ("prior", "save") or prior.at is None and where == "prior" or \
            s.save_at is None and where == "save"
        if not fired:
            like.at = prior.at = s.save_at = None
            if caught is not None:
                raise caught
            ends.append((len(s.results["beta"]), total))
            continue
        if not m.check("exception reaches the caller", caught is exc or (isinstance(exc, StopIteration) and isinstance(caught, RuntimeError)),
                       "the %s raised %s %r, run() %s" % (
                           {"prior": "prior", "save": "disk"}.get(where, "likelihood"), type(exc).__name__, exc,
                           "returned" if caught is None else "raised %r" % caught)):
            return
        now = history(s)
        T = len(now["x"])
        if before is not None and len(before["x"]):
            if not c21.prefix(m, "history before the fault", before, now, "fault %d (%s)" % (q, where)):
                return
        if undisturbed:
            # exactly the iterations that the undisturbed run had completed by then
            if where in ("warm", "anneal", "one", "evidence"):
                made = base.n
                want = int(np.searchsorted(calls, made, side="right"))
            elif where == "save":
                want = int(log0[s.saves - 1]["t"]) if s.saves - 1 < len(log0) else T0
            else:
                want = max([e["t"] for e in log0 if e["n_prior"] < prior.n] + [0])
            ok = T == want or (where not in ("save",) and T == want - 1 and calls[want - 1] == calls[max(want - 2, 0)])
            m.check("completed iterations stored", ok,
                    "%d iterations were complete when the %s failed, %d are stored" % (want, where, T), evaluations=base.n)
            if T and not c21.prefix(m, "completed iterations stored", now, full, "fault in %s" % where):
                return
        situation(m, where, T, W, beta if undisturbed else None, T0)
        hit.append((where, T))
        readable(sc, m, s, now, T)
        if m.violations:
            return
        done = int(now["calls"][-1]) if T else 0
        lost += base.n - n0 - (done - (int(before["calls"][-1]) if before is not None and len(before["calls"]) else 0))
        prev = now
    if sc["via_file"] and prev is not None and s.t > 0:
        s = through_file(sc, m, s, like, prior, log)
        base = like.like
    log.append(dict(path="", t=int(s.t), n_effective=int(s.n_effective), n_like=base.n, n_prior=prior.n))
    s.run(**kw)
    now = history(s)
    if prev is not None and len(prev["x"]):
        if not c21.prefix(m, "history kept by the next run", prev, now, "after %s" % hit):
            return
    res = s.results
    T = len(res["beta"])
    ends.append((T, total))
    m.check("iteration index", list(map(int, res["iter"])) == list(range(T)), "iteration indices %s" % (np.asarray(res["iter"]).tolist(),))
    m.check("n_active particles", res["x"].shape == (T, na, len(sc["prior"])), "stored particles have shape %s" % (res["x"].shape,))
    m.check("warm-up complete", int(np.sum(np.asarray(res["beta"])[:W] == 0.0)) == W and
            np.array_equal(np.asarray(res["calls"])[:W], na * np.arange(1, W + 1)) or not undisturbed_warm(full, W, na),
            "warm-up temperatures %s, calls %s" % (res["beta"][:W], res["calls"][:W]))
    target = {}
    for e in log:
        if not e["path"].endswith("final.state"):
            target[e["t"]] = e["n_effective"]
    c03.check_trace(m, sc, res, target, ends, rule=False)
    if m.violations:
        return
    rows(sc, m, s, res, T)
    if m.violations:
        return
    ev = base.n - lost
    m.check("calls of completed iterations", ev <= int(s.calls) <= base.n + 0,
            "%d evaluations, %d of them in steps that failed, but %d are reported" % (base.n, lost, s.calls))
    evidence(sc, m, s, res, n_ev)
    if hit:
        m.key(gen.sig(sc), *["%s:%s" % h for h in hit])
    m.note(faults=hit, iterations=T, evaluations=base.n, lost=lost)


def undisturbed_warm(full, W, na):
    """Does the undisturbed warm-up evaluate its draws as expected (n_active at a time)?"""
    return [int(v) for v in full["calls"][:W]] == [na * (t + 1) for t in range(W)]


def situation(m, where, T, W, beta, T0):
    if where == "prior":
        m.judged("fault in the prior")
    elif where == "save":
        m.judged("fault while saving")
    elif T < W:
        m.judged("fault in the warm-up")
    elif beta is not None and T >= T0:
        m.judged("fault in the evidence draws")
    elif beta is not None and beta[T] >= 1 - 1e-4 and beta[T - 1] < 1 - 1e-4:
        m.judged("fault in the first iteration at one")
    else:
        m.judged("fault in an annealing step")


def readable(sc, m, s, now, T):
    """Results and posterior of the iterations done so far."""
    if T == 0:
        return
    res = s.results
    m.check("readable after the fault", len(res["logw"]) == T * sc["cfg"]["n_active"], "log-weights of %d particles for %d iterations" % (
        len(res["logw"]), T))
    p = rec.posterior(s, False, trim_importance_weights=False)
    m.check("readable after the fault", np.array_equal(p["x"], np.concatenate(now["x"])) and np.array_equal(p["logl"], np.concatenate(now["logl"])),
            "posterior() is not the stored history")
    lw = ref.mixture_logw(np.asarray(now["logl"]), np.asarray(now["beta"], dtype=float), np.asarray(now["logz"], dtype=float), 1.0)
    w = np.asarray(ref.normalise(lw), dtype=float)
    m.check("readable after the fault", np.allclose(p["weights"], w, rtol=1e-5, atol=1e-12), "posterior() weights are not those of the stored particles")


def rows(sc, m, s, res, T):
    truth = c01.Truth(sc)
    have = sc["like"].get("blob") is not None
    for t in range(T):
        c01.check_rows(m, "results iteration %d" % t, truth, res["x"][t], res["logl"][t], res["logp"][t],
                       res["blobs"][t] if have else None, True)
        c01.check_latent(m, s, sc, t, res["u"][t], res["x"][t], res["logdetj"][t], sc["cfg"]["precondition"])
        m.judged("rows are consistent records", len(res["x"][t]))
        if m.violations:
            return


def evidence(sc, m, s, res, n_ev):
    z, err = s.evidence()
    lw = ref.mixture_logw(res["logl"], res["beta"], res["logz"], 1.0)
    smc = float(ref.lse(lw) - np.log(len(lw)))
    scale = 1 + np.max(np.abs(res["logl"]))
    if n_ev == 0:
        m.check("evidence after the fault", err is None and abs(z - smc) <= 1e-6 + 1e-9 * scale, "evidence %r, stored particles give %r" % (z, smc))
    else:
        m.check("evidence after the fault", z is not None and err is not None and not np.isnan(z), "evidence %r +- %r" % (z, err))


def through_file(sc, m, s, like, prior, log):
    """Save after the fault, continue in another sampler."""
    import pocomc
    path = os.path.join(sc["_scratch"], "stopped.state")
    os.makedirs(sc["_scratch"], exist_ok=True)
    old = history(s)
    pocomc.Sampler.save_state(s, path)
    s2, base2, like2, prior2, log2 = build(sc)
    s2.load_state(path)
    # the loaded state brings its own likelihood and prior; keep counting with one of ours
    m.judged("saved after the fault")
    if not c21.prefix(m, "saved after the fault", old, history(s2), "state saved after the fault"):
        return s2

    def save_state(self, path):
        log.append(dict(path=str(path), t=int(self.t), n_effective=int(self.n_effective), n_like=like.like.n, n_prior=prior.n))
    type(s2).save_state = save_state
    share(s2, like, prior)
    return s2


def share(s2, like, prior):
    """Let the loaded sampler call the likelihood object that counts."""
    f = s2.log_likelihood
    if hasattr(f, "f"):
        f.f = like
    else:
        s2.log_likelihood = like


def run_worker(sc, m, kw):
    """The likelihood fails in a worker process of the internal pool."""
    s0, base0, _, _, _ = build(sc)
    s0.run(**kw)
    full = history(s0)
    exc = exception(sc["kinds"][0])
    rare = sc["rare"]
    s, base, like, prior, log = build(sc, worker=lambda b: FaultyWorker(b, rare, exc))
    caught = None
    log.append(dict(path="", t=0, n_effective=int(s.n_effective)))
    try:
        s.run(**kw)
    except Exception as e:
        caught = e
    if caught is None:
        return
    m.check("exception reaches the caller", type(caught) is type(exc) and str(caught) == str(exc), "raised %r in a worker, run() raised %r" % (
        exc, caught))
    now = history(s)
    T = len(now["x"])
    m.judged("fault in a pool worker")
    if T and not c21.prefix(m, "completed iterations stored", now, full, "fault in a worker"):
        return
    readable(sc, m, s, now, T)
    like.armed = False
    f = s.log_likelihood
    log.append(dict(path="", t=int(s.t), n_effective=int(s.n_effective)))
    s.run(**kw)
    res = s.results
    if T and not c21.prefix(m, "history kept by the next run", now, history(s), "after a fault in a worker"):
        return
    T1 = len(res["beta"])
    m.check("iteration index", list(map(int, res["iter"])) == list(range(T1)), "iteration indices %s" % (np.asarray(res["iter"]).tolist(),))
    target = {e["t"]: e["n_effective"] for e in log if not e["path"].endswith("final.state")}
    c03.check_trace(m, sc, res, target, [(T1, kw["n_total"])], rule=False)
    rows(sc, m, s, res, T1)
    m.key("worker", gen.sig(sc), T)
    m.note(faults=[("worker", T)], iterations=T1)
