"""C11: resampling draws particles in proportion to their weights."""
import collections
import contextlib
import unittest.mock as mock

import numpy as np

from .. import gen, rec, ref
from . import c12

RULE = ("one case = a block of weight vectors resampled systematically with many random offsets, or one run in which every "
        "proposal after the warm-up is rejected (so that the stored particles are the resampled ones), or one ordinary run "
        "with the input of the MCMC kernel recorded; non-trivial if the weights differ; distinct by family/size or scenario")
REQUIRED = ["systematic: number and range", "systematic: counts", "systematic: expectation", "resampled from history",
            "run frequencies", "extreme offset"]
CPU = 150
SOFT = dict(quick=240, thorough=2000)


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = []
    for i in range(28 * k):
        out.append(dict(mode="syst", fam=c12.FAMS[i % len(c12.FAMS)], seed=seed * 77773 + i, n=12))
    for i in range(16 * k):
        out.append(dict(mode="expect", fam=c12.FAMS[i % len(c12.FAMS)], seed=seed * 77783 + i, n=3))
    for j, (rs, kern) in enumerate([(r, kn) for r in ("mult", "syst") for kn in gen.KERNELS]):
        for sc in gen.scenarios((3 if not kern[1] else 2) * k, seed, 1100 + j, resample=rs, kernel=kern,
                                kind=["gauss", "banana", "bimodal"][j % 3], n_steps=1, eval="serial", shape=None,
                                **({"flow": "tinymaf", "train": None} if kern[1] else {})):
            sc["mode"] = "blocked"
            sc["cfg"]["n_steps"] = 1
            sc["cfg"]["n_max_steps"] = 2
            sc["cfg"]["n_prior"] = 6 * sc["cfg"]["n_active"]
            sc["like"]["s"] = [2 * v for v in sc["like"]["s"]]
            out.append(sc)
    # few active particles, a long and uneven history
    for j, (rs, kern) in enumerate([("mult", gen.KERNELS[2]), ("syst", gen.KERNELS[3]), ("mult", gen.KERNELS[3]), ("syst", gen.KERNELS[2])]):
        for q, sc in enumerate(gen.scenarios(2 * k, seed, 1140 + j, resample=rs, kernel=kern, kind=["gauss", "corr"][j % 2], n_steps=1,
                                             eval="serial", shape=None, dim=2, dynamic=False)):
            sc["mode"] = "blocked"
            na = [32, 24][q % 2]
            sc["cfg"].update(n_steps=1, n_max_steps=1, n_active=na, n_prior=14 * na, n_effective=2 * na)
            sc["like"].update(kind="spike", rare=1 / 200.0, height=[3.4, 4.0][j % 2], blob=None)
            sc["total"] = 130
            sc["reps"] = 100
            out.append(sc)
    for j, rs in enumerate(["mult", "syst"]):
        for sc in gen.scenarios(8 * k, seed, 1120 + j, resample=rs):
            sc["mode"] = "wrapped"
            out.append(sc)
    return out


@contextlib.contextmanager
def offset(v):
    """Make the global generator's uniform draws return v."""
    def arr(*size, **k):
        sz = size[0] if size and not isinstance(size[0], tuple) else (size[0] if size else k.get("size"))
        return v if sz is None else np.full(sz, v)

    def uni(low=0.0, high=1.0, size=None):
        r = low + (high - low) * v
        return r if size is None else np.full(size, r)
    with mock.patch("numpy.random.random", arr), mock.patch("numpy.random.rand", arr), \
            mock.patch("numpy.random.random_sample", arr), mock.patch("numpy.random.uniform", uni):
        yield


def basic(m, idx, size, n, tag):
    idx = np.asarray(idx)
    ok = idx.shape == (size,) and np.issubdtype(idx.dtype, np.integer)
    ok = ok and (size == 0 or (idx.min() >= 0 and idx.max() < n and np.all(np.diff(idx) >= 0)))
    m.check("systematic: number and range", ok, "%s: size %d of %d weights gave %s (%s)" % (
        tag, size, n, idx[:10], idx.shape))
    return ok


def syst(c, m):
    from pocomc.tools import systematic_resample
    rng = np.random.default_rng(c["seed"])
    for rep in range(c["n"]):
        fam = c["fam"] if rep % 3 else c12.FAMS[int(rng.integers(len(c12.FAMS)))]
        w = c12.weights(rng, fam)
        n = len(w)
        norm = rep % 2
        if norm:
            w = w / w.sum()
        p = np.asarray((w.astype(np.longdouble) / w.astype(np.longdouble).sum()), dtype=float)
        for size in {1, 2, n, int(rng.integers(1, 4 * n + 2)), 3 * n + 1}:
            keep = w.copy()
            for rs in range(6):
                if rs % 2:
                    idx = systematic_resample(size, w, random_state=int(rng.integers(2**31)))
                else:
                    np.random.seed(int(rng.integers(2**31)))
                    idx = systematic_resample(size, weights=w)
                if not basic(m, idx, size, n, fam):
                    return
                cnt = np.bincount(idx, minlength=n)
                m.judged("systematic: counts", n)
                dev = np.abs(cnt - size * p)
                if not np.all(dev < 1 + 1e-6):
                    i = int(np.argmax(dev))
                    m.violation("systematic: counts: index %d of weight %r drawn %d times, expected %r" % (
                        i, p[i], cnt[i], size * p[i]), fam=fam, n=n, size=size)
                    return
            m.check("weights unchanged", np.array_equal(w, keep), "the weights were modified")
            for v in (0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53):
                with offset(v):
                    idx = systematic_resample(size, weights=w)
                m.judged("extreme offset")
                if not basic(m, idx, size, n, "offset %r" % v):
                    return
                cnt = np.bincount(idx, minlength=n)
                m.check("extreme offset counts", np.all(np.abs(cnt - size * p) <= 1 + 1e-6), "offset %r" % v, fam=fam)
        m.key(fam, n, norm)
    # the same seed gives the same draw
    a = systematic_resample(50, p, random_state=7)
    b = systematic_resample(50, p, random_state=7)
    m.check("seeded draw repeats", np.array_equal(a, b), "random_state is not honoured")


def expect(c, m):
    """E[count_i] = size * w_i over the random offset."""
    from pocomc.tools import systematic_resample
    rng = np.random.default_rng(c["seed"])
    for rep in range(c["n"]):
        w = c12.weights(rng, c["fam"])
        w = w[:40]
        if w.sum() <= 0:
            continue
        n = len(w)
        p = w / w.sum()
        size = int(rng.integers(1, 60))

        def z(R):
            np.random.seed(int(rng.integers(2**31)))
            C = np.zeros(n)
            for _ in range(R):
                C += np.bincount(systematic_resample(size, w if rep % 2 else p), minlength=n)
            f = size * p - np.floor(size * p)
            return (C - R * size * p) / np.sqrt(R * f * (1 - f) + 1.0)
        s = z(1500)
        if np.max(np.abs(s)) > 5:
            s = z(12000)
        m.check("systematic: expectation", np.max(np.abs(s)) < 6.5, "expected counts off by %.1f sigma" % np.max(np.abs(s)),
                fam=c["fam"], n=n, size=size)


class Freq:
    """Accumulates counts of drawn history rows against their weights."""

    def __init__(self, scheme):
        self.scheme = scheme
        self.obs = collections.defaultdict(float)
        self.exp = collections.defaultdict(float)
        self.var = collections.defaultdict(float)

    def add(self, m, hist_x, w, drawn_x, t):
        """hist_x: rows of the history; w: their weights; drawn_x: rows drawn."""
        rows = collections.OrderedDict()
        for i, x in enumerate(hist_x):
            rows.setdefault(x.tobytes(), []).append(i)
        gid = {k: j for j, k in enumerate(rows)}
        W = np.array([np.sum(w[v]) for v in rows.values()])
        K = np.array([len(v) for v in rows.values()])
        n = len(drawn_x)
        cnt = np.zeros(len(W))
        for x in drawn_x:
            j = gid.get(np.asarray(x).tobytes())
            m.judged("resampled from history")
            if j is None:
                m.violation("resampled from history: iteration %d has an active particle that was never stored" % t, x=x)
                return
            cnt[j] += 1
        if self.scheme == "syst":
            dev = np.abs(cnt - n * W) - K - 0.03 * n * W
            m.check("run systematic counts", np.all(dev < 1e-6 + 0.02 * n * W.max()),
                    "iteration %d: count off by %.2f" % (t, dev.max()))
        rank = np.argsort(np.argsort(W, kind="stable"), kind="stable")
        first = np.array([v[0] for v in rows.values()])
        # 0: the heaviest row, 1: the next three, 2: the next eight
        top = np.searchsorted([1, 4, 12], len(W) - 1 - rank, side="right")
        for name, b in (("rank", rank * 6 // len(W)), ("age", first * 5 // len(hist_x)), ("top", top)):
            for k in range(6):
                sel = b == k
                e = W[sel].sum()
                self.obs[name, k] += cnt[sel].sum()
                self.exp[name, k] += n * e
                self.var[name, k] += n * e * (1 - e)

    def verdict(self, m, slack=0.03):
        m.data.update(scheme=self.scheme, obs=dict(self.obs), exp=dict(self.exp), var=dict(self.var))
        worst = 0.0
        for k in self.obs:
            d = abs(self.obs[k] - self.exp[k]) - slack * self.exp[k]
            worst = max(worst, d / np.sqrt(self.var[k] + 1.0))
        m.check("run frequencies", worst < 6, "draws deviate from the weights by %.1f sigma" % worst,
                observed=dict(self.obs), expected=dict(self.exp))


def trimmed(w, ess=0.99):
    """Weights after removing the lowest while keeping 99% of the ESS."""
    full = ref.ess(w)
    o = np.sort(w)[::-1]
    cs, cs2 = np.cumsum(o), np.cumsum(o ** 2)
    ok = cs ** 2 / cs2 >= ess * full
    k = int(np.argmax(ok)) + 1
    out = np.where(w >= o[k - 1], w, 0.0)
    return out / out.sum()


def blocked(sc, m):
    na = sc["cfg"]["n_active"]
    npr = sc["cfg"].get("n_prior")
    W = max((npr if npr is not None else 2 * max(sc["cfg"]["n_effective"] // na, 1) * na) // na, 1)

    def once(seed):
        like = gen.Like(sc["like"], record=False)
        like.block_after = W * na
        s, like, prior, pool = gen.make_sampler(sc, like=like, random_state=seed)
        try:
            s.run(n_total=sc.get("total", 250), n_evidence=0, progress=False)
        except np.linalg.LinAlgError:
            # particles that never move end up too few for a covariance: judge what was stored before
            pass
        return s.results
    fr = Freq(sc["cfg"]["resample"])
    for k in range(sc.get("reps") or (8 if not sc["cfg"]["precondition"] else 3)):
        res = once(sc["cfg"]["random_state"] % 10**6 + k)
        feed(m, fr, res, W)
    fr.verdict(m)
    m.key("blocked", gen.sig(sc))
    m.note(draws=sum(v for k, v in fr.obs.items() if k[0] == "rank"))


def feed(m, fr, res, W, drawn=None):
    beta, logz, logl, X = res["beta"], res["logz"], res["logl"], res["x"]
    for t in range(W, len(beta)):
        d = X[t] if drawn is None else drawn.get(t)
        if d is None:
            continue
        lw = ref.mixture_logw(logl[:t], beta[:t], logz[:t], beta[t])
        w = np.asarray(ref.normalise(lw), dtype=float)
        fr.add(m, np.concatenate(X[:t]), trimmed(w), d, t)


def wrapped(sc, m):
    """Ordinary run; the state handed to the MCMC kernel is recorded."""
    import pocomc.sampler as ps
    na = sc["cfg"]["n_active"]
    npr = sc["cfg"].get("n_prior")
    W = max((npr if npr is not None else 2 * max(sc["cfg"]["n_effective"] // na, 1) * na) // na, 1)
    drawn = []
    patches = []
    for name in ("preconditioned_pcn", "preconditioned_rwm", "pcn", "rwm"):
        f = getattr(ps, name, None)
        if f is None:
            continue

        def wrap(state, *a, _f=f, **k):
            try:
                drawn.append({q: np.array(state[q], copy=True) for q in ("x", "u", "logl", "logp", "logdetj")})
            except Exception:
                pass
            return _f(state, *a, **k)
        patches.append(mock.patch.object(ps, name, wrap))
    with contextlib.ExitStack() as st:
        for p in patches:
            st.enter_context(p)
        r = rec.run(sc, n_evidence=0)
    res = r.s.results
    T = len(res["beta"])
    if len(drawn) != T - W:
        return
    fr = Freq(sc["cfg"]["resample"])
    feed(m, fr, res, W, {W + i: d["x"] for i, d in enumerate(drawn)})
    fr.verdict(m)
    for i, d in enumerate(drawn):
        m.check("active set size", len(d["x"]) == na, "iteration %d starts from %d particles" % (W + i, len(d["x"])))
    m.key("wrapped", gen.sig(sc))


def run(c, m):
    dict(syst=syst, expect=expect, blocked=blocked, wrapped=wrapped)[c["mode"]](c, m)


def finish(data, m, tier, seed):
    """All runs of a scheme together."""
    for scheme in ("mult", "syst"):
        fr = Freq(scheme)
        for c, d in data:
            if d.get("scheme") == scheme:
                for k in d["obs"]:
                    fr.obs[k] += d["obs"][k]
                    fr.exp[k] += d["exp"][k]
                    fr.var[k] += d["var"][k]
        if fr.obs:
            fr.verdict(m)
            m.note(**{scheme: "drawn " + str(sum(v for k, v in fr.obs.items() if k[0] == "rank"))})
