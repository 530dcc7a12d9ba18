"""Recorders and drivers around a real pocomc.Sampler."""
import types

import numpy as np

from . import gen


def tracing_class(log, like):
    """A Sampler whose save_state records instead of writing: run() calls it
    at the boundary between two iterations when save_every=1."""
    import pocomc

    class Tracing(pocomc.Sampler):
        def save_state(self, path):
            log.append(dict(path=str(path), t=self.t, n_effective=self.n_effective, n_like=like.n,
                            calls=int(self.calls)))
    return Tracing


def run(sc, trace=False, like=None, prior=None, **run_over):
    """Run a scenario to the end. Returns a namespace with everything seen."""
    like = like or gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)))
    log = []
    cls = tracing_class(log, like) if trace else None
    s, like, prior, pool = gen.make_sampler(sc, cls=cls, like=like, prior=prior)
    kw = dict(progress=False)
    kw.update(sc["run"])
    kw.update(run_over)
    if trace:
        kw.setdefault("save_every", 1)
    s.run(**kw)
    return types.SimpleNamespace(s=s, like=like, prior=prior, pool=pool, saves=log)


POSTERIOR_OPTIONS = [
    dict(),
    dict(trim_importance_weights=False),
    dict(resample=True),
    dict(resample=True, trim_importance_weights=False),
    dict(return_logw=True),
    dict(return_logw=True, trim_importance_weights=False),
    dict(ess_trim=0.9, bins_trim=50),
    dict(ess_trim=0.5, bins_trim=200),
    dict(ess_trim=0.999, bins_trim=5),
    dict(ess_trim=0.7, bins_trim=20, return_logw=True),
    dict(ess_trim=0.8, bins_trim=300, resample=True),
]


def posterior(s, blobs, **kw):
    """posterior() as a dict of named parts."""
    out = s.posterior(return_blobs=blobs, **kw)
    out = list(out)
    d = dict(x=out.pop(0))
    if blobs:
        d["blobs"] = out.pop(-1)
    if not kw.get("resample"):
        d["logw" if kw.get("return_logw") else "weights"] = out.pop(0)
    d["logl"] = out.pop(0)
    d["logp"] = out.pop(0)
    assert not out, "posterior() returned too many arrays"
    return d
