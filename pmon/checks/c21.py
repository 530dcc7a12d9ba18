"""C21: continuing a run only appends to its history."""
import os

import numpy as np

from .. import gen, ref, same

RULE = ("one case = one scenario taken through a history of run() calls with growing, equal and smaller targets (some after a "
        "save and a resume in a new sampler), the stored history compared bit by bit at every iteration boundary and after "
        "every call; and a twin of the same seed whose user reads results, posterior and evidence between and during the "
        "calls and overwrites everything returned; distinct by scenario signature and history")
REQUIRED = ["history kept at every iteration", "history kept by run()", "only appends", "no new iteration once reached",
            "no evaluation once reached", "results complete", "results describe the stored particles", "posterior complete",
            "evidence refreshed", "held results unchanged", "reading and overwriting changes nothing", "final results of the twin",
            "continued after resume"]
CPU = 240
SOFT = dict(quick=280, thorough=2400)
PER_ITER = ("u", "x", "logdetj", "logl", "logp", "blobs", "iter", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta")


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for j in range(4):
        out += gen.scenarios((6 if gen.KERNELS[j][1] else 9) * k, seed, 2100 + j, kernel=gen.KERNELS[j], n_total=150)
    out += gen.scenarios(10 * k, seed, 2110)
    rng = np.random.default_rng([seed, 2121])
    for i, sc in enumerate(out):
        sc["i"] = i
        steps = []
        for _ in range(int(rng.integers(2, 5))):
            steps.append([str(rng.choice(["more", "more", "same", "less", "reached", "resume"])), int(rng.choice([0, 64, 0, 100]))])
        if i % 5 == 0:
            steps.insert(1, ["resume", 0])
        if i % 3 == 0:
            steps.insert(1, ["reached", 0])
        sc["steps"] = steps
    return out


def history(s):
    """Copies of the per-iteration arrays a user reads."""
    r = s.results
    return {k: [np.array(v, copy=True) for v in r[k]] if len(r[k]) else [] for k in PER_ITER if k in r}


def prefix(m, name, old, new, what):
    """Is `old` a prefix of `new`, bit by bit?"""
    for k in old:
        if len(old[k]) > len(new.get(k, [])):
            m.judged(name)
            m.violation("%s: %s: %s had %d iterations and now has %d" % (name, what, k, len(old[k]), len(new.get(k, []))))
            return False
        for t, a in enumerate(old[k]):
            b = new[k][t]
            if a.ndim == 0 and b.ndim == 0 and a.dtype.kind in "iuf" and b.dtype.kind in "iuf":
                eq = bool(a == b) or bool(a != a and b != b)
            else:
                eq = same.same(a, b)
            if not eq:
                m.judged(name)
                m.violation("%s: %s: %s of iteration %d changed" % (name, what, k, t), before=a, after=b)
                return False
    m.judged(name, sum(len(v) for v in old.values()))
    return True


def complete(m, s, like, sc, n_ev, label):
    """What can be read now describes every iteration done so far."""
    na = sc["cfg"]["n_active"]
    r = s.results
    T = int(s.t)
    lens = {k: len(r[k]) for k in PER_ITER if k in r and not (k == "blobs" and sc["like"].get("blob") is None)}
    m.check("results complete", all(v == T for v in lens.values()) and r["x"].shape == (T, na, len(sc["prior"])) and
            len(r["logw"]) == T * na and list(map(int, r["iter"])) == list(range(T)),
            "%s: %d iterations were done, results have %r" % (label, T, lens))
    if not all(v == T for v in lens.values()):
        return
    lw = ref.mixture_logw(r["logl"], r["beta"], r["logz"], 1.0)
    wn = ref.normalise(lw)
    m.check("results describe the stored particles",
            np.allclose(np.exp(np.asarray(r["logw"], dtype=float)), np.asarray(wn, dtype=float), rtol=1e-6, atol=1e-12),
            "%s: log-weights are not those of all stored particles" % label)
    x, w, l, p = s.posterior(trim_importance_weights=False)
    m.check("posterior complete", same.same(x, np.concatenate(r["x"])) and same.same(l, np.concatenate(r["logl"])) and
            same.same(p, np.concatenate(r["logp"])) and np.allclose(w, np.asarray(wn, dtype=float), rtol=1e-6, atol=1e-12),
            "%s: untrimmed posterior is not the stored particles" % label)
    if n_ev is not None:
        z, err = s.evidence()
        if n_ev == 0 or not sc["cfg"]["precondition"]:
            tz = float(ref.lse(lw) - np.log(np.longdouble(len(lw))))
            m.check("evidence refreshed", abs(float(z) - tz) < 1e-6 * max(1, abs(tz)) and err is None,
                    "%s: log-evidence %r (error %r), all particles give %r" % (label, z, err, tz))
        else:
            m.check("evidence refreshed", np.isfinite(float(z)) and err is not None, "%s: evidence %r %r" % (label, z, err))


class Watch:
    """Checks the history at every iteration boundary, through the save_state hook of run(save_every=1)."""

    def __init__(self, m):
        self.m = m
        self.last = None

    def cls(self):
        import pocomc
        w = self

        class Watched(pocomc.Sampler):
            def save_state(self, path):
                if getattr(self, "real_save", False):
                    return super().save_state(path)
                now = history(self)
                if w.last is not None:
                    prefix(w.m, "history kept at every iteration", w.last, now, "iteration boundary %d" % self.t)
                w.last = now
        return Watched


def targets(steps, metric_now, kind):
    base = max(50, int(metric_now))
    return dict(more=int(base * 1.35) + 20, same=None, less=max(10, base // 3), reached=max(10, int(base * 0.98)),
                resume=int(base * 1.3) + 10)[kind]


def drive(sc, m, watch=None, user=None, scratch=None, tag="", goals=None):
    """Take a sampler through the history of calls. Returns final snapshot and the sampler."""
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    if user:
        like = user.wrap(like)
    s, like, prior, pool = gen.make_sampler(sc, like=like, cls=watch.cls() if watch else None)
    if user:
        user.s = s
    kw = dict(progress=False)
    if watch:
        kw["save_every"] = 1
    n_total, n_ev = sc["run"]["n_total"], sc["run"]["n_evidence"]
    s.run(n_total=n_total, n_evidence=n_ev, **kw)
    judge = watch is not None
    if judge:
        complete(m, s, like, sc, n_ev, "first run")
    held = []
    for j, (kind, nev) in enumerate(sc["steps"]):
        if user:
            user.meddle("between")
        before = history(s)
        held.append((s.results, {k: np.array(v, copy=True) for k, v in s.results.items()},
                     s.posterior(trim_importance_weights=False)))
        held[-1] = held[-1] + ([np.array(a, copy=True) for a in held[-1][2]],)
        w = np.exp(np.asarray(before_logw(s), dtype=float))
        have = ref.metric(w, sc["cfg"]["metric"])
        nt = targets(sc["steps"], have, kind)
        if nt is None:
            nt = n_total
        if judge:
            goals.append(nt)
        else:
            nt = goals[j]
        t0, n0 = int(s.t), like.n
        if kind == "resume":
            path = os.path.join(scratch, "c21_%s%d.state" % (tag, j))
            s.real_save = True
            s.save_state(path)
            s.real_save = False
            st = same.get_rng()
            like2 = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
            s, like, prior, pool = gen.make_sampler(sc, like=like2, cls=watch.cls() if watch else None)
            if watch:
                watch.last = None
            same.set_rng(st)
            s.run(n_total=nt, n_evidence=nev, resume_state_path=path, **kw)
            if user:
                user.s = s
        else:
            s.run(n_total=nt, n_evidence=nev, **kw)
        after = history(s)
        if not judge:
            continue
        label = "call %d (%s, n_total=%d)" % (j + 2, kind, nt)
        prefix(m, "history kept by run()", before, after, label)
        if kind == "resume":
            m.judged("continued after resume")
        m.check("only appends", len(after["beta"]) == int(s.t) >= t0, "%s: %d iterations before, %d after" % (label, t0, s.t))
        if nt <= have * (1 - 1e-9):
            m.check("no new iteration once reached", int(s.t) == t0,
                    "%s: sample size was %.1f already, yet %d iterations were added" % (label, have, s.t - t0))
            if kind != "resume":
                exp = nev if (nev and sc["cfg"]["precondition"]) else 0
                m.check("no evaluation once reached", like.n - n0 <= exp,
                        "%s: %d evaluations, at most %d expected" % (label, like.n - n0, exp))
        elif nt > have * (1 + 1e-9):
            m.check("appends when not reached", int(s.t) > t0, "%s: sample size was only %.1f, yet nothing was added" % (label, have))
        complete(m, s, like, sc, nev, label)
        n_total = nt
    for res, cp, post, pcp in held:
        ok = all(same.same(res[k], cp[k]) for k in cp) and all(same.same(a, b) for a, b in zip(post, pcp))
        if judge:
            m.check("held results unchanged", ok, "results read earlier changed while the run went on")
    return s


def before_logw(s):
    return s.results["logw"]


class User:
    """Reads and overwrites everything the sampler gives out, keeping the random numbers as they were."""

    def __init__(self, m, every):
        self.m = m
        self.every = every
        self.s = None
        self.k = 0
        self.n = 0
        self.busy = False

    def wrap(self, like):
        user = self
        base = like

        class Meddling:
            def __call__(self, x, *a, **k):
                user.tick()
                return base(x, *a, **k)

            @property
            def n(self):
                return base.n
        return Meddling()

    def tick(self):
        self.k += 1
        if self.k % self.every == 0 and self.s is not None and int(self.s.t) > 0 and not self.busy:
            self.meddle("during")

    def meddle(self, when):
        self.busy = True
        st = same.get_rng()
        s = self.s
        try:
            arrays = []
            r = s.results
            first = {k: np.array(v, copy=True) for k, v in r.items()}
            arrays += [v for v in r.values()]
            arrays += list(s.posterior())
            arrays += list(s.posterior(trim_importance_weights=False))
            arrays += list(s.posterior(resample=True))
            arrays += list(s.posterior(return_logw=True, trim_importance_weights=False))
            if getattr(s, "have_blobs", False):
                arrays += list(s.posterior(return_blobs=True))
            s.evidence()
            for a in arrays:
                if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
                    if a.dtype.names:
                        for nme in a.dtype.names:
                            if a[nme].dtype.kind in "fi":
                                a[nme] = 77
                    elif a.dtype == object:
                        a[...] = None
                    elif a.dtype.kind == "f":
                        a[...] = np.nan
                    elif a.dtype.kind in "iu":
                        a[...] = -5
            for k in list(r):
                if isinstance(r[k], list):
                    r[k].clear()
            again = s.results
            self.m.check("results read again", set(first) == set(again) and all(same.same(first[k], again[k]) for k in first),
                         "results read after overwriting earlier ones are not those of the run")
            self.n += 1
            self.m.judged("meddling " + when)
        finally:
            same.set_rng(st)
            self.busy = False


def run(sc, m):
    watch = Watch(m)
    goals = []
    s = drive(sc, m, watch=watch, scratch=sc["_scratch"], tag="a", goals=goals)
    a = same.snapshot(s, rng=False)
    ra = same.rng_digest()
    # a twin whose user reads and overwrites everything
    user = User(m, every=[37, 113, 61][sc["i"] % 3] if not sc["cfg"].get("vectorize") else 2)
    s2 = drive(sc, m, user=user, scratch=sc["_scratch"], tag="b", goals=goals)
    T = len(s2.particles.get("beta")) if hasattr(s2, "particles") else len(s2.results["beta"])
    # what is cached for the user may hold their own edits; the stored particles and the posterior may not
    p1 = {"%d" % i: v for i, v in enumerate(s.posterior(trim_importance_weights=False))}
    p2 = {"%d" % i: v for i, v in enumerate(s2.posterior(trim_importance_weights=False))}
    d = same.differ(dict(posterior=p1, e=dict(z=np.array(s.evidence()[0]))), dict(posterior=p2, e=dict(z=np.array(s2.evidence()[0]))))
    m.check("reading and overwriting changes nothing", not d and T == len(a["results"]["beta"]) and int(s.t) == int(s2.t) and
            int(s.calls) == int(s2.calls), "the twin whose user overwrote what was returned (%d times) differs in %s" %
            (user.n, d or "iterations or calls"))
    # force one more iteration in both: the results are recomputed and must agree completely
    for q in (s, s2):
        q.__class__.save_state = lambda self, path: None
    st = same.get_rng()
    same_rng = same.same(ra["state"], same.rng_digest()["state"])
    have = ref.metric(np.exp(np.asarray(s.results["logw"], dtype=float)), sc["cfg"]["metric"])
    same.set_rng(st)
    s.run(n_total=int(have) + 30, n_evidence=0, progress=False)
    same.set_rng(st)
    s2.run(n_total=int(have) + 30, n_evidence=0, progress=False)
    b, c = same.snapshot(s, rng=False), same.snapshot(s2, rng=False)
    d = same.differ(b, c)
    m.check("final results of the twin", not d and same_rng, "after reading and overwriting, the run differs in %s" %
            (", ".join(d[:6]) or "the random numbers used"))
    m.key(gen.sig(sc), "-".join(k for k, _ in sc["steps"]))
    m.note(meddlings=user.n, iterations=int(s.t), steps=sc["steps"])
