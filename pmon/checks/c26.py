"""C26: a copy of a sampler equals it, continues like it and does not touch it."""
import contextlib
import copy
import io
import os
import pickle
import threading

import numpy as np

from .. import gen, same

RULE = ("one case = a sampler copied (pickle, dill or deepcopy) before a run, between two iterations, or after it; the copy is "
        "compared bit by bit with the original, both are continued with the same random numbers, and each is looked at again "
        "after the other was used; distinct by scenario signature, moment and method")
REQUIRED = ["copy equals the original", "copy continues like the original", "original untouched by its copy", "copy untouched by the original",
            "copied before the run", "copied between iterations", "copied after the run", "copied from a sampler with a pool", "original keeps its pool",
            "copied with a progress bar", "copy of a copy"]
CPU = 150
SOFT = dict(quick=240, thorough=2400)
METHODS = ["pickle", "dill", "deepcopy"]
WHEN = ["before", "warmup", "annealing", "after"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(48 * k):
        kern = gen.KERNELS[(i + i // 4) % 4]
        fix = dict(kernel=kern, eval=["serial", "vectorize", "reverse", "random"][(i // 3) % 4], n_total=[60, 140][i % 2],
                   blob=[None, "f1", None, "arr", None, "str"][i % 6])
        if fix["eval"] == "vectorize":
            fix["blob"] = None
        if kern[1]:
            fix["flow"] = ["tinymaf", "maf3"][i // 4 % 2]
        c, = gen.scenarios(1, seed, 2600 + i, **fix)
        if kern[1]:
            c["cfg"]["train_frequency"] = [3, 1, 4][i % 3]
            c["like"]["s"] = [round(0.3 * v, 4) for v in c["like"]["s"]]
        c.update(method=METHODS[i % 3], when=WHEN[(i + i // 12) % 4], progress=bool((i + i // 6) % 2), i=i)
        out.append(c)
    return out


class Draws(gen.RecPrior):
    """A prior that takes its random numbers from numpy's global generator."""

    def rvs(self, size=1):
        if self.shape:
            keep = []
            while len(keep) < size:
                x = np.stack([gen.component(c).ppf(np.random.rand()) for c in self.comps])
                if self.inside(x[None])[0]:
                    keep.append(x)
            return np.array(keep)
        return np.stack([gen.component(c).ppf(np.random.rand(size)) for c in self.comps], axis=1)


class Pool(gen.HostilePool):
    """A pool that cannot be copied."""

    def __init__(self, *a):
        super().__init__(*a)
        self.lock = threading.Lock()


HOOK = [None]


def make_class():
    import pocomc

    class Watched(pocomc.Sampler):
        def save_state(self, path):
            if HOOK[0]:
                HOOK[0](self)
    Watched.__qualname__ = Watched.__name__ = "Watched"
    Watched.__module__ = __name__
    globals()["Watched"] = Watched
    return Watched


def clone(s, method):
    if method == "pickle":
        return pickle.loads(pickle.dumps(s))
    if method == "dill":
        import dill
        return dill.loads(dill.dumps(s))
    return copy.deepcopy(s)


def look(s):
    """Everything observable, without using up random numbers."""
    st = same.get_rng()
    try:
        if not s.t:
            return dict(counters=dict(t=int(s.t), calls=int(s.calls)))
        return same.snapshot(s, rng=False)
    finally:
        same.set_rng(st)


def run(c, m):
    cls = make_class()
    cfg = dict(c["cfg"])
    if "flow" in cfg:
        cfg["flow"] = gen.make_flow(cfg["flow"], len(c["prior"]))
    bd = gen.blobs_dtype(c)
    if bd is not None:
        cfg["blobs_dtype"] = bd
    pool = None
    if c["eval"] not in ("serial", "vectorize"):
        pool = cfg["pool"] = Pool(c["eval"], 5)
    s = cls(prior=Draws(c["prior"], c.get("shape"), record=False), likelihood=gen.Like(c["like"], vectorize=bool(cfg.get("vectorize")), record=False),
            **cfg)
    what = "%s copy, %s, %s%s" % (c["method"], c["cfg"]["sample"], "flow" if c["cfg"]["precondition"] else "no flow", ", pool" if pool else "")
    kw = dict(progress=c["progress"], save_every=1, n_evidence=c["run"]["n_evidence"], n_total=c["run"]["n_total"])
    more = dict(kw, n_total=2 * kw["n_total"], n_evidence=0)
    got = []

    def take(s, moment):
        before = look(s)
        st = same.get_rng()
        t = clone(s, c["method"])
        same.set_rng(st)
        d = same.differ(before, look(t))
        m.check("copy equals the original", not d, "%s taken %s: other %s" % (what, moment, ", ".join(d[:5])))
        d = same.differ(before, look(s))
        m.check("original untouched by its copy", not d, "%s taken %s: copying changed %s" % (what, moment, ", ".join(d[:5])))
        m.judged("copied " + moment)
        if pool:
            m.judged("copied from a sampler with a pool")
        got.append((moment, t, st, before))
    n = [0]
    target = dict(warmup=1, annealing=2 + (c["seed"] % 3 if "seed" in c else c["i"] % 3)).get(c["when"])
    npr = c["cfg"].get("n_prior")

    def hook(s):
        n[0] += 1
        beta = s.results["beta"]
        warm = beta[-1] == 0
        if c["when"] == "warmup" and n[0] == 1 or c["when"] == "annealing" and not warm and beta[-1] < 1 and len(got) < 1:
            m.judged("copied with a progress bar") if c["progress"] else None
            take(s, "between iterations")
    sink = open(os.devnull, "w")
    with contextlib.redirect_stderr(sink if c["i"] % 2 else io.StringIO()):
        if c["when"] == "before":
            take(s, "before the run")
        HOOK[0] = hook
        s.run(**kw)
        HOOK[0] = None
        end = look(s)
        endrng = same.get_rng()
        if c["when"] == "after" or not got:
            m.judged("copied with a progress bar") if c["progress"] else None
            take(s, "after the run")
        moment, t, st, before = got[0]
        # the original's later life does not show in the copy
        d = same.differ(before, look(t))
        m.check("copy untouched by the original", not d, "%s taken %s: the original's run changed its %s" % (what, moment, ", ".join(d[:5])))
        if c["i"] % 3 == 1:
            t = clone(t, METHODS[(c["i"] // 3) % 3])
            m.judged("copy of a copy")
        if moment != "after the run":
            same.set_rng(st)
            t.run(**kw)
            d = same.differ(end, look(t))
            m.check("copy continues like the original", not d, "%s taken %s: the run ends with other %s" % (what, moment, ", ".join(d[:5])))
            if d:
                return
            d = same.differ(end, look(s))
            m.check("original untouched by its copy", not d, "%s taken %s: the copy's run changed %s" % (what, moment, ", ".join(d[:5])))
        same.set_rng(endrng)
        t.run(**more)
        last = look(t)
        d = same.differ(end, look(s))
        m.check("original untouched by its copy", not d, "%s taken %s: the copy's run changed %s" % (what, moment, ", ".join(d[:5])))
        same.set_rng(endrng)
        maps = pool.maps if pool else 0
        s.run(**more)
        if pool and len(look(s)["results"]["beta"]) > len(end["results"]["beta"]):
            m.check("original keeps its pool", pool.maps > maps, "%s taken %s: the original no longer uses its pool" % (what, moment))
        d = same.differ(last, look(s))
        m.check("copy continues like the original", not d, "%s taken %s: the next run ends with other %s" % (what, moment, ", ".join(d[:5])))
        d = same.differ(last, look(t))
        m.check("copy untouched by the original", not d, "%s taken %s: the original's next run changed %s" % (what, moment, ", ".join(d[:5])))
    m.key(gen.sig(c), moment, c["method"])
    m.note(moment=moment, method=c["method"], iterations=len(last["results"]["beta"]))
