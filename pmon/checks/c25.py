"""C25: arrays that cross the border between the sampler and the user's code belong to one side only."""
import numpy as np

from .. import gen, same

RULE = ("one case = a run whose user code keeps, re-uses or overwrites the arrays it exchanges with the sampler (likelihood and "
        "prior output buffers, arguments, prior samples, everything the sampler returned), compared bit by bit with the same run "
        "under user code that does none of this; distinct by scenario signature and habit")
REQUIRED = ["same results when the likelihood re-uses its output", "same results when the likelihood overwrites its argument",
            "same results when the prior re-uses its output", "same results when the prior overwrites its argument",
            "same results when returned arrays are overwritten", "same results when blobs are overwritten later",
            "arguments kept by the user stay as they were", "the prior's own arrays stay as they were", "bad values among the prior samples",
            "kinds of output"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)
HABITS = ["like-buffer", "like-scribble", "prior-buffer", "prior-scribble", "keep", "catalogue", "returned", "blobs", "all", "output"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = []
    for i in range(60 * k):
        h = HABITS[i % len(HABITS)]
        kern = gen.KERNELS[(i // 2 + i // 20) % 4]
        fix = dict(kernel=kern, n_total=[40, 150][i // 3 % 2], eval="vectorize" if h == "like-buffer" else ["vectorize", "serial", "reverse"][(i // len(HABITS) + i) % 3])
        if h in ("blobs",):
            fix.update(eval=["serial", "reverse"][i // 10 % 2], blob=["arr", "arr312"][i // 20 % 2])
        elif h == "output":
            fix.update(eval="vectorize", blob=None)
        else:
            fix["blob"] = None
        if i % 4 == 1:
            fix["like"] = ["mixed", "cut"][i // 4 % 2]
        if kern[1]:
            fix["flow"] = "tinymaf"
        c, = gen.scenarios(1, seed, 2500 + i, **fix)
        c["habit"], c["i"] = h, i
        out.append(c)
    return out


class Calm:
    """User code with no bad habits; the base of the others."""

    def __init__(self, sc, habits=()):
        self.h = set(habits)
        self.vec = bool(sc["cfg"].get("vectorize", False))
        self.base = gen.Like(sc["like"], vectorize=self.vec, record=False)
        self.p = gen.make_prior(sc, record=False)
        self.buf = np.full(200000, 7.0)
        self.pbuf = np.full(200000, 7.0)
        self.kept = []
        self.given = []
        self.own = []
        self._bounds = np.array(self.p.bounds, dtype=float)
        self.own.append((self._bounds, self._bounds.copy(), "bounds"))
        self.bad = 0
        self.kind = None

    # --- prior
    @property
    def bounds(self):
        return self._bounds

    @property
    def dim(self):
        return self.p.dim

    def logpdf(self, x):
        v = np.array(self.p.logpdf(np.array(x)), dtype=float)
        if "keep" in self.h:
            self.kept.append((x, np.copy(x), "the prior"))
        if "prior-scribble" in self.h:
            x[...] = 0.123
        if "prior-buffer" in self.h:
            self.pbuf[:] = -3.0
            self.pbuf[:len(v)] = v
            return self.pbuf[:len(v)]
        return v

    def rvs(self, size=1):
        v = np.array(self.p.rvs(size), dtype=float)
        if "catalogue" in self.h:
            self.own.append((v, v.copy(), "samples"))
        return v

    # --- likelihood
    def like(self, x):
        out = self.base(np.array(x))
        if "keep" in self.h:
            self.kept.append((x, np.copy(x), "the likelihood"))
        if "like-scribble" in self.h:
            x[...] = 0.321
        if not self.vec:
            if isinstance(out, tuple):
                self.bad += not np.isfinite(out[0])
                if "blobs" in self.h:
                    out = (out[0],) + tuple(np.array(b, dtype=float) if isinstance(b, np.ndarray) else b for b in out[1:])
                    self.given.extend(b for b in out[1:] if isinstance(b, np.ndarray))
            else:
                self.bad += not np.isfinite(out)
            return out
        out = np.array(out, dtype=float)
        self.bad += int(np.sum(~np.isfinite(out)))
        if self.kind == "list":
            return list(out)
        if self.kind == "readonly":
            out.setflags(write=False)
            return out
        if self.kind == "strided":
            big = np.full((len(out), 3), 9.0)
            big[:, 1] = out
            return big[:, 1]
        if "like-buffer" in self.h:
            self.buf[:] = 5.0
            self.buf[:len(out)] = out
            return self.buf[:len(out)]
        return out


def go(sc, user, hook=None):
    import pocomc
    cfg = dict(sc["cfg"])
    if "flow" in cfg:
        cfg["flow"] = gen.make_flow(cfg["flow"], len(sc["prior"]))
    pool = gen.make_pool(sc["eval"] if sc["eval"] not in ("serial", "vectorize") else None, seed=3)
    bd = gen.blobs_dtype(sc)
    if bd is not None:
        cfg["blobs_dtype"] = bd
    if pool is not None:
        cfg["pool"] = pool

    class Tracing(pocomc.Sampler):
        def save_state(self, path):
            if hook:
                hook(self)
    s = Tracing(prior=user, likelihood=user.like, **cfg)
    s.run(progress=False, save_every=1, n_total=sc["run"]["n_total"], n_evidence=0)
    snaps = [same.snapshot(s)]
    if hook:
        hook(s)
    snaps.append(same.snapshot(s))
    s.run(progress=False, save_every=1, n_total=int(1.6 * sc["run"]["n_total"]), n_evidence=sc["run"]["n_evidence"])
    snaps.append(same.snapshot(s))
    if hook:
        hook(s)
    snaps.append(same.snapshot(s))
    return s, snaps


def spoil(a, seen=None):
    """Overwrite everything that was returned."""
    if isinstance(a, dict):
        for v in a.values():
            spoil(v)
    elif isinstance(a, (tuple, list)):
        for v in a:
            spoil(v)
    elif isinstance(a, np.ndarray) and a.size and not a.dtype.hasobject and a.dtype.names is None:
        if a.flags.writeable:
            a[...] = np.zeros((), dtype=a.dtype) if a.dtype.kind in "US" else 3


def run(c, m):
    habits = HABITS[:6] if c["habit"] == "all" else [c["habit"]]
    state = same.get_rng()
    calm = Calm(c)
    nb = [0]
    blobs = c["like"].get("blob") is not None

    def look(s):
        """Read everything, like the hook below, without touching it."""
        st = same.get_rng()
        read(s)
        same.set_rng(st)

    def read(s):
        out = [s.results, s.evidence()]
        for kw in (dict(), dict(trim_importance_weights=False), dict(return_logw=True), dict(return_logw=True, trim_importance_weights=False),
                   dict(resample=True), dict(resample=True, trim_importance_weights=False)):
            out.append(s.posterior(**kw))
            if blobs and s.t > 0:
                out.append(s.posterior(return_blobs=True, **kw))
        return out
    same.set_rng(state)
    s0, a = go(c, calm, look if c["habit"] == "returned" else None)
    user = Calm(c, habits)
    hook = None
    if c["habit"] == "returned":
        def hook(s):
            st = same.get_rng()
            for _ in range(2):
                spoil(read(s))
            nb[0] += 1
            same.set_rng(st)
    elif c["habit"] == "blobs":
        def hook(s):
            for b in user.given:
                b[...] = -77.0
            nb[0] += len(user.given)
            del user.given[:]
    elif c["habit"] == "output":
        user.kind = ["list", "readonly", "strided"][c["i"] // len(HABITS) % 3]
    same.set_rng(state)
    s1, b = go(c, user, hook)
    names = {"like-buffer": "the likelihood re-uses its output", "like-scribble": "the likelihood overwrites its argument",
             "prior-buffer": "the prior re-uses its output", "prior-scribble": "the prior overwrites its argument",
             "returned": "returned arrays are overwritten", "blobs": "blobs are overwritten later"}
    for q, (x, y) in enumerate(zip(a, b)):
        d = same.differ(x, y)
        text = "%s, %s: other %s when %s" % (c["eval"], c["cfg"]["sample"], ", ".join(d[:6]), names.get(c["habit"], c["habit"]))
        if c["habit"] == "output":
            m.check("kinds of output", not d, text + " (%s)" % user.kind)
        else:
            for h in habits:
                if h in names:
                    m.check("same results when " + names[h], not d, text)
            if not any(h in names for h in habits):
                m.check("same results when the user keeps what it saw", not d, text)
        if d:
            return
    changed = [w for x, y, w in user.kept if not np.array_equal(x, y, equal_nan=True)]
    if user.kept:
        if "like-scribble" not in habits:
            m.check("arguments kept by the user stay as they were", not changed, "%d of %d arrays passed to %s were changed afterwards" % (
                len(changed), len(user.kept), changed[0] if changed else ""))
    for x, y, w in user.own:
        m.check("the prior's own arrays stay as they were", np.array_equal(x, y, equal_nan=True), "the prior's %s were changed" % w)
    if user.bad:
        m.judged("bad values among the prior samples")
    m.key(gen.sig(c), c["habit"])
    m.note(habit=c["habit"], iterations=len(b[-1]["results"]["beta"]), hooks=nb[0], kept=len(user.kept))
