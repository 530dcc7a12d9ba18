"""C13: runs are reproducible and do not depend on how the likelihood is evaluated."""
import os

import numpy as np

from .. import gen, same

RULE = ("one case = one scenario run once serially and then again in several other ways (again, internal pools, external pools "
        "with adversarial evaluation order, vectorised, progress bar on, states saved during the run, another process), all "
        "results, posterior, evidence, counters and the final random-number state compared bit by bit; distinct by scenario "
        "signature and way")
REQUIRED = ["again", "again with other history of the generators", "seed of a numpy type", "internal pool", "external pool reverse",
            "external pool random", "external pool threads", "external pool lazy", "vectorised", "vectorised in another precision", "progress bar",
            "saving states", "another seed differs"]
CPU = 240
SOFT = dict(quick=300, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 9
    out = []
    for j in range(4):
        out += gen.scenarios(6 * k, seed, 1300 + j, kernel=gen.KERNELS[j], eval="serial")
    for j, sc in enumerate(gen.scenarios(8 * k, seed, 1310, eval="serial", blob=None)):
        out.append(sc)
    for i, sc in enumerate(out):
        if i % 9 == 4:
            sc["cfg"]["random_state"] = 0
        if i % 9 == 7:
            sc["cfg"]["random_state"] = 2 ** 32 - 2
        sc["i"] = i
    return out


def one(sc, like=None, pool=None, progress=False, save=None, scratch=None, **over):
    like = like or gen.Like(sc["like"], record=False)
    cfg = {}
    if save:
        cfg = dict(output_dir=os.path.join(scratch, "s%d" % save), output_label="x")
    s, like, prior, p = gen.make_sampler(sc, like=like, pool=pool, **cfg, **over)
    kw = dict(sc["run"])
    if save:
        kw["save_every"] = save
    s.run(progress=progress, **kw)
    return s, same.snapshot(s)


class Cast:
    """The likelihood, its values of another floating-point type."""

    def __init__(self, like, dt):
        self.like, self.dt = like, dt

    def __call__(self, x, *a, **k):
        return np.asarray(self.like(x, *a, **k)).astype(self.dt)[()]

    def __getattr__(self, k):
        return getattr(self.__dict__["like"], k)


def run(sc, m):
    import torch
    blob = sc["like"].get("blob")
    i = sc["i"]
    s, base = one(sc)
    m.note(iterations=int(s.t), calls=int(s.calls))

    def compare(name, snap, skip=()):
        d = same.differ(base, snap, skip)
        m.key(gen.sig(sc), name)
        m.check(name, not d, "differs from the serial run in %s" % ", ".join(d[:6]), scenario={k: sc["cfg"][k] for k in ("sample", "precondition")})

    compare("again", one(sc)[1])
    np.random.seed(12345)
    np.random.normal(size=7)
    torch.manual_seed(99)
    torch.randn(5)
    compare("again with other history of the generators", one(sc)[1])
    # the same seed, as numpy hands integers out
    kind = [np.int64, np.uint32, np.int64][i % 3]
    compare("seed of a numpy type", one(dict(sc, cfg=dict(sc["cfg"], random_state=kind(sc["cfg"]["random_state"]))))[1])
    mode = ["reverse", "random", "threads", "lazy"][i % 4]
    compare("external pool " + mode, one(sc, pool=gen.HostilePool(mode, i))[1])
    if i % 2 == 0:
        mode = ["reverse", "random", "threads", "lazy"][(i // 2 + 2) % 4]
        compare("external pool " + mode, one(sc, pool=gen.HostilePool(mode, i))[1])
    if i % 3 == 0:
        n = [2, 1, 5, 3][i // 3 % 4]
        s2, snap = one(sc, pool=n)
        s2.pool.terminate()
        s2.pool.join()
        compare("internal pool", snap)
    if blob is None:
        compare("vectorised", one(sc, like=gen.Like(sc["like"], vectorize=True, record=False), vectorize=True)[1])
        if i % 2:
            # the same values in the precision of another library
            dt = [np.float32, np.longdouble, np.float16][i // 2 % 3]
            a = one(sc, like=Cast(gen.Like(sc["like"], record=False), dt))[1]
            b = one(sc, like=Cast(gen.Like(sc["like"], vectorize=True, record=False), dt), vectorize=True)[1]
            d = same.differ(a, b)
            m.check("vectorised in another precision", not d, "%s: vectorised differs from serial in %s" % (dt.__name__, ", ".join(d[:6])))
    compare("progress bar", one(sc, progress=True)[1])
    compare("saving states", one(sc, save=[1, 2, 3, 7][i % 4], scratch=sc["_scratch"])[1])
    sc2 = dict(sc, cfg=dict(sc["cfg"], random_state=sc["cfg"]["random_state"] + 1))
    d = same.differ(base, one(sc2)[1])
    m.check("another seed differs", bool(d), "another random_state gives the same run")
