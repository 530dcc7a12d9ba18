"""C22: configurations are honoured, and invalid ones refused before any evaluation."""
import contextlib
import inspect
import os
import unittest.mock as mock
import warnings

import numpy as np
import scipy.stats as st

from .. import gen, rec, same

RULE = ("one case = one scenario whose configuration is honoured or not as seen from outside: extra arguments received by every "
        "evaluation, particle numbers stored and drawn, equality (bit by bit) of runs whose configurations must mean the same, "
        "training options received by the flow, latent coordinates of the chosen transform, evaluations seen by the pool; or one "
        "block of invalid configurations embedded in otherwise valid random ones; distinct by option and scenario")
REQUIRED = ["arguments reach every evaluation", "keyword arguments reach every evaluation", "no arguments when none given",
            "argument objects unchanged", "dimension inferred", "n_active inferred", "n_effective inferred", "n_ess works",
            "n_ess warns", "defaults as documented", "n_active used", "n_prior used", "refused: transform", "refused: metric",
            "refused: sample", "refused: resample", "refused: flow", "refused: blobs and vectorize", "refused: no particle number",
            "no evaluation before refusal", "blobs refused when absent", "blobs given when present", "training options",
            "transform used", "external pool used", "internal pool used", "vectorised batches", "single points",
            "valid names accepted", "train every iteration", "no training without preconditioning", "torch threads"]
CPU = 200
SOFT = dict(quick=240, thorough=2000)


class ArgLike:
    """Likelihood that records the extra arguments of every evaluation."""

    def __init__(self, base, log):
        self.base = base
        self.log = log

    @property
    def n(self):
        return self.base.n

    def __call__(self, *args, **kwargs):
        self.log.append((args[1:], kwargs, np.shape(args[0]), os.getpid()))
        return self.base(args[0])


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []

    def add(mode, n, salt, **fix):
        for i, sc in enumerate(gen.scenarios(n * k, seed, salt, **fix)):
            sc["mode"] = mode
            sc["i"] = i
            out.append(sc)
    add("args", 14, 2200, n_total=120)
    add("twins", 10, 2201, n_total=120, eval="serial")
    add("numbers", 10, 2202, n_total=120)
    add("numbers", 3, 2212, n_total=120, eval="vectorize", blob=None)
    add("numbers", 3, 2213, n_total=120, eval="reverse")
    add("numbers", 3, 2214, n_total=80, eval="reverse", shape="thin", dim=1, n_active=24)
    add("refuse", 12, 2203)
    add("blobs", 8, 2204, n_total=120, eval="serial")
    for j in range(2):
        add("train", 6, 2205 + j, n_total=120, kernel=gen.KERNELS[j], train=None, blob=None)
    add("train", 3, 2207, n_total=120, kernel=gen.KERNELS[2])
    add("transform", 8, 2208, n_total=120, priors="both", shape=None)
    add("pools", 6, 2210, n_total=120, eval="serial", kernel=gen.KERNELS[3], blob=None)
    out.append(dict(mode="defaults", seed=seed))
    out.append(dict(mode="names", seed=seed))
    out.append(dict(mode="threads", seed=seed))
    return out


def warm(sc):
    """Number of warm-up iterations the configuration asks for."""
    na = sc["cfg"]["n_active"]
    npr = sc["cfg"].get("n_prior")
    return max((npr if npr is not None else 2 * max(sc["cfg"]["n_effective"] // na, 1) * na) // na, 1)


def eq(p, q):
    if p is q:
        return True
    try:
        return type(p) is type(q) and bool(np.all(np.asarray(p == q)))
    except Exception:
        return False


def run_args(sc, m):
    arr = np.arange(5.0)
    obj = {"k": [1, 2]}
    sets = [([arr, obj], None), (None, dict(data=arr, opt=obj, flag=None)), ([arr], dict(opt="x")), ([None, 0], {}), (None, None),
            ([], dict(x2=False)), ((arr, 3), dict(z=arr))]
    A, K = sets[sc["i"] % len(sets)]
    a0, o0 = arr.copy(), repr(obj)
    log = []
    base = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    like = ArgLike(base, log)
    s, _, prior, pool = gen.make_sampler(sc, like=like, likelihood_args=A, likelihood_kwargs=K)
    s.run(progress=False, **sc["run"])
    s.run(progress=False, n_total=sc["run"]["n_total"] + 100, n_evidence=0)
    eA, eK = tuple(A or ()), dict(K or {})
    ok_a = all(len(g) == len(eA) and all(eq(p, q) for p, q in zip(g, eA)) for g, _, _, _ in log)
    ok_k = all(set(g) == set(eK) and all(eq(g[q], eK[q]) for q in eK) for _, g, _, _ in log)
    if eA:
        m.judged("arguments reach every evaluation", len(log))
    if eK:
        m.judged("keyword arguments reach every evaluation", len(log))
    if not eA and not eK:
        m.judged("no arguments when none given", len(log))
    if not (ok_a and ok_k):
        bad = next(g for g in log if not (len(g[0]) == len(eA) and all(eq(p, q) for p, q in zip(g[0], eA)) and
                                          set(g[1]) == set(eK) and all(eq(g[1][q], eK[q]) for q in eK)))
        m.violation("arguments reach every evaluation: given %r %r, an evaluation received %r %r" % (eA, eK, bad[0], bad[1]))
    m.check("argument objects unchanged", np.array_equal(arr, a0) and repr(obj) == o0, "the argument objects were modified")
    m.key("args", sc["i"] % len(sets), sc["eval"], sc["cfg"]["sample"], sc["cfg"]["precondition"])


def once(sc, **over):
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    s, like, prior, pool = gen.make_sampler(sc, like=like, **over)
    s.run(progress=False, **sc["run"])
    return s, same.snapshot(s)


def without(sc, *names):
    c = dict(sc)
    c["cfg"] = {k: v for k, v in sc["cfg"].items() if k not in names}
    return c


def run_twins(sc, m):
    import pocomc
    d = len(sc["prior"])
    E = 2 * (sc["cfg"]["n_effective"] // 2)
    base = dict(sc)
    base["cfg"] = dict(sc["cfg"], n_effective=E, n_active=E // 2)
    s, ref0 = once(base)
    m.check("dimension inferred", int(s.n_dim) == d and s.results["x"].shape[2] == d, "dimension %r for %d parameters" % (s.n_dim, d))

    def eq(name, snap):
        df = same.differ(ref0, snap)
        m.check(name, not df, "the run differs from the explicit configuration in %s" % ", ".join(df[:5]))
        m.key("twin", name, gen.sig(sc))
    eq("dimension inferred", once(base, n_dim=d)[1])
    eq("n_active inferred", once(base, n_active=None)[1])
    eq("n_effective inferred", once(base, n_effective=None)[1])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        sn = once(without(base, "n_effective"), n_ess=E)[1]
    eq("n_ess works", sn)
    m.check("n_ess warns", any("n_ess" in str(x.message) for x in w), "no deprecation warning for n_ess")
    # n_active missing, odd n_effective
    odd = once(base, n_active=None, n_effective=E + 1)[0]
    m.check("n_active inferred", odd.results["x"].shape[1] == (E + 1) // 2, "n_effective=%d gives %d active particles" %
            (E + 1, odd.results["x"].shape[1]))


def run_numbers(sc, m):
    log = []
    na = sc["cfg"]["n_active"]
    base = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    like = ArgLike(base, log)
    s, _, prior, pool = gen.make_sampler(sc, like=like)
    s.run(progress=False, **sc["run"])
    r = s.results
    m.check("n_active used", r["x"].shape[1] == na and r["logl"].shape[1] == na,
            "n_active=%d, iterations have %d particles" % (na, r["x"].shape[1]))
    W = warm(sc)
    drawn = sum(len(a) for a in prior.rvs_log)
    npr = sc["cfg"].get("n_prior")
    npr = max(na, npr if npr is not None else 2 * max(sc["cfg"]["n_effective"] // na, 1) * na)
    calls = [int(v) for v in r["calls"][:W]]
    m.check("n_prior used", W * na <= drawn <= npr and calls == [na * (i + 1) for i in range(W)] and
            np.all(np.asarray(r["beta"][:W]) == 0),
            "n_prior=%d, n_active=%d: %d prior draws, calls of the first iterations %r" % (npr, na, drawn, calls))
    if len(r["beta"]) > W:
        m.check("n_prior used", int(r["steps"][W]) >= 1 and int(r["calls"][W]) <= W * na + na * int(r["steps"][W]),
                "iteration %d is not an MCMC iteration" % W)
    rows = {x.tobytes() for a in prior.rvs_log for x in np.asarray(a)}
    first = np.concatenate(r["x"][:W])
    m.check("warm-up particles are prior draws", all(x.tobytes() in rows for x in first), "a warm-up particle was never drawn")
    if sc["cfg"].get("vectorize"):
        ok = all(len(g[2]) == 2 and g[2][1] == len(sc["prior"]) for g in log)
        m.judged("vectorised batches", len(log))
        if not ok:
            m.violation("vectorised batches: shapes %r" % (set(g[2] for g in log),))
    else:
        ok = all(g[2] == (len(sc["prior"]),) for g in log)
        m.judged("single points", len(log))
        if not ok:
            m.violation("single points: shapes %r" % (set(g[2] for g in log),))
    if pool is not None:
        m.check("external pool used", pool.tasks == len(log), "%d evaluations, the pool saw %d" % (len(log), pool.tasks))
    m.key("numbers", na, npr, sc["eval"])


BAD = dict(transform=["", "Probit", "logistic", "probit ", "identity", "none", None, "logit_"],
           metric=["", "ESS", "usss", "ess ", "kl", None, "unique", "es"],
           sample=["", "TPCN", "pcn", "hmc", "rwm ", "mcmc", None, "tpcnrwm"],
           resample=["", "systematic", "mult ", "multinomial", "residual", None, "SYST", "strat"],
           flow=["", "nsf", "maf", "maf4", "NSF3", "nsf6 ", "realnvp", "nsf24", None, 3])


def run_refuse(sc, m):
    rng = np.random.default_rng(sc["seed"])

    def attempt(what, bad, **over):
        like = gen.Like(sc["like"], vectorize=bool(over.get("vectorize", sc["cfg"].get("vectorize", False))))
        prior = gen.make_prior(sc)
        err = None
        import pocomc
        cfg = {k: v for k, v in sc["cfg"].items() if k != "flow"}
        cfg.update(over)
        if gen.blobs_dtype(sc) and "blobs_dtype" not in over and not cfg.get("vectorize"):
            cfg["blobs_dtype"] = gen.blobs_dtype(sc)
        try:
            s = pocomc.Sampler(prior=prior, likelihood=like, **cfg)
        except ValueError as e:
            err = e
        except Exception as e:
            err = e
        m.check("refused: %s" % what, isinstance(err, ValueError),
                "%s=%r was %s" % (what, bad, "accepted" if err is None else "refused with %r instead of ValueError" % err))
        m.check("no evaluation before refusal", like.n == 0, "the likelihood was evaluated %d times" % like.n)
        m.key("refuse", what, bad)
    for what, vals in BAD.items():
        for j in rng.permutation(len(vals))[:5]:
            attempt(what, vals[j], **{what: vals[j]})
    for dt in ([("a", float)], float, "f8"):
        attempt("blobs and vectorize", dt, vectorize=True, blobs_dtype=dt)
    attempt("blobs and vectorize", "pool", vectorize=True, blobs_dtype=float, pool=gen.HostilePool())
    attempt("no particle number", None, n_active=None, n_effective=None)
    attempt("no particle number", "n_dim", n_active=None, n_effective=None, n_dim=len(sc["prior"]))
    # two invalid options at once
    attempt("metric", "two", metric="x", resample="y")


def run_blobs(sc, m):
    if sc["i"] % 2:
        sc["like"]["blob"] = None
    has = sc["like"].get("blob") is not None
    like = gen.Like(sc["like"], record=False)
    s, like, prior, pool = gen.make_sampler(sc, like=like)
    s.run(progress=False, **sc["run"])
    for kw in rec.POSTERIOR_OPTIONS[:6]:
        try:
            out = s.posterior(return_blobs=True, **kw)
            err = None
        except Exception as e:
            err = e
        if has:
            m.check("blobs given when present", err is None and len(out[-1]) == len(out[0]), "posterior(return_blobs=True): %r" % err)
        else:
            m.check("blobs refused when absent", isinstance(err, ValueError), "posterior(return_blobs=True) without blobs: %r" % (err,))
    m.key("blobs", sc["like"].get("blob"))


TRAIN = [dict(epochs=3, learning_rate=0.01), dict(epochs=2, patience=7, shuffle=False, validation_split=0.25),
         dict(epochs=2, noise=0.05, clip_grad_norm=0.3), dict(epochs=2, gaussian_scale=2.0, annealing=True),
         dict(epochs=2, laplace_scale=1.5, batch_size=16), dict(epochs=4, batch_size=10**6, verbose=0)]
DEFAULT = dict(validation_split=0.5, learning_rate=1e-3, annealing=False, gaussian_scale=None, laplace_scale=None, noise=None,
               shuffle=True, clip_grad_norm=1.0)


def run_train(sc, m):
    import pocomc.flow as pf
    pre = sc["cfg"]["precondition"]
    T = TRAIN[sc["i"] % len(TRAIN)]
    given = dict(T)
    seen = []
    orig = pf.Flow.fit
    sig = inspect.signature(orig)

    def fit(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        seen.append({n: v for n, v in b.arguments.items() if n not in ("self", "x", "weights")} |
                    dict(n=len(b.arguments["x"]), w=b.arguments.get("weights")))
        return orig(self, *a, **k)
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    every = sc["i"] % 2 == 0
    with mock.patch.object(pf.Flow, "fit", fit):
        s, like, prior, pool = gen.make_sampler(sc, like=like, **(dict(train_config=given, train_frequency=1 if every else 2)))
        s.run(progress=False, **sc["run"])
    iters = len(s.results["beta"]) - warm(sc)
    m.check("training options unchanged", given == T, "the user's training options were modified: %r" % given)
    if not pre:
        m.check("no training without preconditioning", not seen, "the flow was trained %d times" % len(seen))
        return
    for k in seen:
        want = {**DEFAULT, **T}
        bad = {n: (k.get(n), v) for n, v in want.items() if n not in ("batch_size", "verbose") and k.get(n) != v}
        m.check("training options", not bad, "training received %r (received, wanted)" % bad)
        if "batch_size" in T:
            m.check("training batch size", k["batch_size"] == min(k["n"] // 2, T["batch_size"]),
                    "batch size %r for %d samples, wanted %d" % (k["batch_size"], k["n"], T["batch_size"]))
        m.check("training weights", k["w"] is not None and len(k["w"]) == k["n"], "samples without weights")
    if every:
        m.check("train every iteration", len(seen) == iters, "%d trainings in %d iterations" % (len(seen), iters))
    else:
        m.check("train at least once", 1 <= len(seen) <= iters, "%d trainings in %d iterations" % (len(seen), iters))
    m.key("train", sc["i"] % len(TRAIN), every, sc["cfg"]["flow"])


def run_transform(sc, m):
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    for tr in ("probit", "logit"):
        s, _, prior, pool = gen.make_sampler(sc, like=gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)),
                                                               record=False), transform=tr)
        s.run(progress=False, **sc["run"])
        x, u = np.concatenate(s.results["x"]), np.concatenate(s.results["u"])
        b = prior.bounds
        q = (x - b[:, 0]) / (b[:, 1] - b[:, 0])
        lat = dict(probit=st.norm.ppf(q), logit=np.log(q) - np.log1p(-q))
        for j in range(x.shape[1]):
            ok = (q[:, j] > 1e-6) & (q[:, j] < 1 - 1e-6)
            if ok.sum() < 20:
                continue
            f = {}
            for nme, v in lat.items():
                A = np.stack([v[ok, j], np.ones(ok.sum())], axis=1)
                c, *_ = np.linalg.lstsq(A, u[ok, j], rcond=None)
                f[nme] = np.abs(A @ c - u[ok, j]).max()
            m.check("transform used", f[tr] < 1e-5, "latent coordinate %d is not an affine map of the %s of the parameter "
                    "(deviation %.2g; of the other transform %.2g)" % (j, tr, f[tr], max(f.values())))
    m.key("transform", gen.sig(sc))


def run_pools(sc, m):
    """An integer pool evaluates in that many other processes; an external one is used for everything."""
    k = [2, 3, 1, 4][sc["i"] % 4]
    d = os.path.join(sc["_scratch"], "pids")
    os.makedirs(d)
    main = os.getpid()
    base = gen.Like(sc["like"], record=False)

    def like(x, *a, **kw):
        p = os.getpid()
        with open(os.path.join(d, str(p)), "ab") as f:
            f.write(b"x")
        if not (len(a) == 2 and np.array_equal(a[0], np.arange(3)) and a[1] is None and kw == dict(key="v")):
            with open(d + ".bad", "ab") as f:
                f.write(repr((a, kw)).encode())
        return base.one(x)
    import pocomc
    s, _, prior, _ = gen.make_sampler(sc, like=like, pool=k, likelihood_args=[np.arange(3), None], likelihood_kwargs=dict(key="v"))
    s.run(progress=False, **sc["run"])
    pids = {int(f): os.path.getsize(os.path.join(d, f)) for f in os.listdir(d)}
    m.check("internal pool used", main not in pids and 1 <= len(pids) <= k, "pool=%d: evaluations in %d processes%s" %
            (k, len(pids), ", the main one included" if main in pids else ""))
    m.check("arguments reach the pool", not os.path.exists(d + ".bad"), "an evaluation in a pool received other arguments")
    m.check("internal pool evaluations", sum(pids.values()) == int(s.calls), "%d evaluations, %d calls reported" %
            (sum(pids.values()), s.calls))
    if getattr(s, "pool", None) is not None:
        try:
            s.pool.terminate()
        except Exception:
            pass
    m.key("pool", k)


def run_defaults(sc, m):
    """Leaving an option out is the same as giving its documented default."""
    from pocomc import Prior, Sampler
    rng = np.random.default_rng(sc["seed"])

    def go(**kw):
        pr = Prior([st.uniform(-3, 6), st.norm(0, 2)])
        s = Sampler(pr, lambda x: -0.5 * float(np.sum(x ** 2)), random_state=7, train_config=dict(epochs=2), **kw)
        s.run(n_total=300, n_evidence=64, progress=False)
        return same.snapshot(s)
    a = go()
    for kw in (dict(n_effective=512, n_active=256, n_dim=2), dict(transform="probit", sample="tpcn", resample="mult"),
               dict(flow="nsf6", precondition=True, dynamic=True, metric="ess"), dict(vectorize=False, pool=None, n_prior=1024),
               dict(likelihood_args=None, likelihood_kwargs=None, blobs_dtype=None, periodic=None, reflective=None),
               dict(pytorch_threads=1, output_dir=None, output_label=None)):
        df = same.differ(a, go(**kw))
        m.check("defaults as documented", not df, "giving the documented defaults %r changes %s" % (kw, ", ".join(df[:5])))
        m.key("default", *kw)
    b = go(transform="logit")
    m.check("options matter", bool(same.differ(a, b)), "transform makes no difference")
    b = go(sample="rwm")
    m.check("options matter", bool(same.differ(a, b)), "sample makes no difference")
    b = go(resample="syst")
    m.check("options matter", bool(same.differ(a, b)), "resample makes no difference")
    b = go(precondition=False)
    m.check("options matter", bool(same.differ(a, b)), "precondition makes no difference")


def run_names(sc, m):
    from pocomc import Prior, Sampler
    pr = Prior([st.uniform(-3, 6), st.norm(0, 2)])
    n = [0]

    def like(x):
        n[0] += 1
        return -0.5 * float(np.sum(x ** 2))
    for kw in ([dict(flow=f) for f in ("maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12")] +
               [dict(transform=t) for t in ("probit", "logit")] + [dict(metric=t) for t in ("ess", "uss")] +
               [dict(sample=t) for t in ("tpcn", "rwm")] + [dict(resample=t) for t in ("mult", "syst")]):
        try:
            Sampler(pr, like, **kw)
            err = None
        except Exception as e:
            err = e
        m.check("valid names accepted", err is None, "%r refused: %r" % (kw, err))
        m.check("no evaluation when built", n[0] == 0, "building the sampler evaluated the likelihood")
        m.key("name", *kw.values())


def run_threads(sc, m):
    import torch
    from pocomc import Prior, Sampler
    for k in (1, 2, 3, 1):
        Sampler(Prior([st.norm(0, 1)] * 2), lambda x: 0.0, pytorch_threads=k)
        m.check("torch threads", torch.get_num_threads() == k, "pytorch_threads=%d leaves %d threads" % (k, torch.get_num_threads()))
    torch.set_num_threads(3)
    Sampler(Prior([st.norm(0, 1)] * 2), lambda x: 0.0, pytorch_threads=None)
    m.check("torch threads", torch.get_num_threads() == 3, "pytorch_threads=None leaves %d threads" % torch.get_num_threads())
    m.key("threads")


def run(c, m):
    globals()["run_" + c["mode"]](c, m)
