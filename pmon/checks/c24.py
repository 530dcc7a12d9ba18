"""C24: samplers in one process do not interfere, and the user's objects are left alone."""
import copy
import os
import signal
import sys

import numpy as np

from .. import gen, same

RULE = ("one case = two or three samplers, each run alone and then again with their life cycles interleaved (between calls, at "
        "iteration boundaries and inside likelihood evaluations), each with its own stream of random numbers; everything they "
        "report is compared bit by bit, the objects the user passed and the process-wide settings before and after; distinct by "
        "scenario signatures and interleaving")
REQUIRED = ["same alone and together", "same with another inside", "user's objects unchanged", "process settings unchanged", "switch between calls",
            "switch at an iteration boundary", "switch inside the likelihood", "shared prior", "shared training options",
            "same with tools used in between", "switch while building", "user's code runs under the user's settings"]
CPU = 240
SOFT = dict(quick=280, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    rng = np.random.default_rng([seed, 2424])
    for i in range(26 * k):
        ka = gen.KERNELS[i % 4]
        kb = gen.KERNELS[(i // 4 + i) % 4]
        same_prior = i % 3 == 0
        a, = gen.scenarios(1, seed, 2400 + 3 * i, kernel=ka, eval=["serial", "vectorize"][i % 2], n_total=[60, 150][i % 2],
                           blob=None if i % 2 else ["f1", None, "arr"][i // 2 % 3], **(dict(flow="tinymaf") if ka[1] else {}))
        b, = gen.scenarios(1, seed, 2401 + 3 * i, kernel=kb, eval=["serial", "vectorize"][i // 2 % 2], n_total=[100, 40][i % 2],
                           blob=None, **(dict(flow=["tinymaf", "maf3"][i % 2]) if kb[1] else {}),
                           **(dict(dim=len(a["prior"])) if same_prior or i % 3 == 1 else {}))
        if same_prior:
            b["prior"], b["shape"] = a["prior"], a["shape"]
            b["like"] = dict(a["like"], blob=None, m=[v + 0.1 for v in a["like"]["m"]])
            for f in ("periodic", "reflective"):
                b["cfg"].pop(f, None)
                if f in a["cfg"]:
                    b["cfg"][f] = list(a["cfg"][f])
        mode = ["calls", "boundary", "inside", "build", "tools", "boundary", "inside"][i % 7]
        out.append(dict(a=a, b=b, shared=same_prior, shared_train=bool(ka[1] and kb[1] and rng.integers(2)), mode=mode, i=i,
                        seed=int(rng.integers(2 ** 31)), prior=a["prior"], like=a["like"], cfg=a["cfg"], eval=a["eval"]))
    for q, c in enumerate(out):
        if q % 4 == 3 and c["a"]["cfg"]["precondition"] and c["b"]["cfg"]["precondition"]:
            c["shared_train"] = True
    return out


class Life:
    """The life of one sampler, in small steps, with its own random numbers."""

    def __init__(self, sc, tag, seed, prior=None, train=None, scratch=None):
        self.sc, self.tag, self.seed, self.scratch = sc, tag, seed, scratch
        self.prior = prior or gen.make_prior(sc)
        self.train = train
        self.hooks = {}
        self.out = []
        self.rng = None
        self.busy = False
        self.args = None

    def own(self):
        """Continue with the random numbers of this life."""
        if self.rng is None:
            import torch
            np.random.seed(self.seed)
            torch.manual_seed(self.seed)
        else:
            same.set_rng(self.rng)

    def rest(self):
        self.rng = same.get_rng()

    def pause(self, where):
        f = self.hooks.get(where)
        if f and not self.busy:
            self.busy = True
            self.rest()
            try:
                f()
            finally:
                self.own()
                self.busy = False

    def step(self, n):
        self.own()
        getattr(self, "step%d" % n)()
        self.rest()

    def step0(self):
        import pocomc
        life = self
        sc = self.sc
        cfg = copy.deepcopy(dict(sc["cfg"]))
        if self.train is not None and cfg["precondition"]:
            cfg["train_config"] = self.train
        cfg.pop("random_state", None)
        base = gen.Like(sc["like"], vectorize=bool(cfg.get("vectorize", False)), record=False)
        self.base = base

        life.around = {}

        def like(x, *a, **k):
            if not life.busy:
                now = around()
                life.around.setdefault(repr(now), now)
            life.pause("inside")
            base.extra.append((copy.deepcopy(a), copy.deepcopy(k)))
            del base.extra[:-3]
            v = base(x)
            return v
        self.like = like

        class Tracing(pocomc.Sampler):
            def save_state(self, path):
                life.pause("boundary")
        if "flow" in cfg:
            cfg["flow"] = gen.make_flow(cfg["flow"], len(sc["prior"]))
        bd = gen.blobs_dtype(sc)
        if bd is not None:
            cfg["blobs_dtype"] = bd
        self.args = dict(likelihood_args=[1.0, {"a": [1, 2]}], likelihood_kwargs=dict(k=np.arange(3.0), opt=dict(z=1)), cfg=cfg)
        self.before = self.freeze()
        self.s = Tracing(prior=self.prior, likelihood=like, likelihood_args=self.args["likelihood_args"],
                         likelihood_kwargs=self.args["likelihood_kwargs"], **cfg)

    def freeze(self):
        """What the user passed, in comparable form."""
        c = {k: v for k, v in self.args["cfg"].items() if k != "flow"}
        p = self.prior
        d = getattr(p, "dists", None)
        return repr(sorted(c.items(), key=lambda t: t[0])), repr(self.args["likelihood_args"]), repr(self.args["likelihood_kwargs"]), \
            repr(np.asarray(p.bounds).tolist()), repr([(type(v).__name__, v.args, v.kwds) for v in d if hasattr(v, "args")]) if d else ""

    def step1(self):
        self.s.run(progress=False, save_every=1, n_total=self.sc["run"]["n_total"], n_evidence=0)
        self.read()

    def step2(self):
        self.s.run(progress=False, save_every=1, n_total=2 * self.sc["run"]["n_total"], n_evidence=self.sc["run"]["n_evidence"])
        self.read()

    def step3(self):
        self.read()

    def read(self):
        self.out.append(same.snapshot(self.s, rng=False))
        self.out[-1]["rng"] = dict(state=same.rng_digest()["state"])
        self.out[-1]["counters"]["n_like"] = self.base.n

    STEPS = 4


def around():
    """The settings user code runs under."""
    import torch
    return dict(errstate=np.geterr(), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(),
                dtype=str(torch.get_default_dtype()), cwd=os.getcwd())


def settings():
    import torch
    return dict(errstate=np.geterr(), errcall=np.geterrcall(), print_options={k: str(v) for k, v in np.get_printoptions().items()},
                dtype=str(torch.get_default_dtype()), grad=torch.is_grad_enabled(), anomaly=torch.is_anomaly_enabled(),
                deterministic=torch.are_deterministic_algorithms_enabled(), cwd=os.getcwd(), umask=_umask(),
                sigint=signal.getsignal(signal.SIGINT), sigterm=signal.getsignal(signal.SIGTERM), recursion=sys.getrecursionlimit(),
                stdout=sys.stdout, stderr=sys.stderr, trace=sys.gettrace())


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def tools(sc, rng_seed):
    """Uses of the library that have nothing to do with the sampler under watch."""
    import pocomc
    from pocomc import tools as T, geometry, scaler
    rs = np.random.RandomState(rng_seed % 2 ** 31)
    d = len(sc["prior"])

    def one():
        import torch
        np.random.seed(rs.randint(2 ** 31 - 1))
        torch.manual_seed(int(rs.randint(2 ** 31 - 1)))
        p = gen.make_prior(sc)
        x = p.rvs(200) if not sc.get("shape") else None
        q = scaler.Reparameterize(d, bounds=p.bounds, transform=["logit", "probit"][rs.randint(2)])
        x = np.array(gen.make_prior(dict(sc, shape=None)).rvs(200))
        q.fit(x)
        u = q.forward(x)
        q.inverse(u * 1.1)
        w = rs.dirichlet(np.ones(200))
        T.trim_weights(np.arange(200), w, ess=0.9)
        T.systematic_resample(150, w)
        T.effective_sample_size(w), T.unique_sample_size(w, k=10)
        g = geometry.Geometry()
        g.fit(rs.randn(200, d), weights=w)
        f = pocomc.Flow(d, gen.make_flow("tinymaf", d))
        f.fit(torch.tensor(u, dtype=torch.float32), epochs=2)
        f.sample(10)
    return one


def run(c, m):
    set0 = settings()
    at0 = around()
    sa, sb = c["a"], c["b"]
    scratch = c["_scratch"]
    # alone
    alone = {}
    for tag, sc, seed in (("a", sa, c["seed"]), ("b", sb, c["seed"] + 1)):
        L = Life(sc, tag, seed % 2 ** 31)
        for n in range(Life.STEPS):
            L.step(n)
        alone[tag] = L.out
        calls = L.base.n
        if tag == "a":
            na_calls = calls
    # together
    prior = gen.make_prior(sa) if c["shared"] else None
    train = copy.deepcopy(sa["cfg"].get("train_config")) if c["shared_train"] else None
    if c["shared_train"]:
        # what the options are must not differ from the runs alone
        for tag, sc, seed in (("b", sb, c["seed"] + 1),):
            L = Life(sc, tag, seed % 2 ** 31, train=copy.deepcopy(train))
            for n in range(Life.STEPS):
                L.step(n)
            alone[tag] = L.out
    A = Life(sa, "a", c["seed"] % 2 ** 31, prior=prior, train=train)
    B = Life(sb, "b", (c["seed"] + 1) % 2 ** 31, prior=prior, train=train)
    if c["shared"]:
        m.judged("shared prior")
    if train is not None:
        m.judged("shared training options")
    train0 = copy.deepcopy(train)
    mode = c["mode"]
    nb = [0]

    def advance():
        if nb[0] < Life.STEPS:
            B.step(nb[0])
            nb[0] += 1
            return True
        return False
    count = [0]
    if mode == "tools":
        every = tools(sb, c["seed"])

        def hook():
            count[0] += 1
            if count[0] % 3 == 1:
                every()
                m.judged("switch at an iteration boundary")
        A.hooks["boundary"] = hook
    elif mode == "boundary":
        def hook():
            count[0] += 1
            if count[0] % 2 == 1 and advance():
                m.judged("switch at an iteration boundary")
        A.hooks["boundary"] = hook
    elif mode == "inside":
        at = [1 + (c["seed"] % 7), 5 + c["seed"] % 11, 12, 18] if sa["cfg"].get("vectorize") else \
            [int(v * na_calls) for v in (0.03, 0.4, 0.6, 0.8)]

        def hook():
            count[0] += 1
            if nb[0] < len(at) and count[0] >= at[nb[0]] and advance():
                m.judged("switch inside the likelihood")
        A.hooks["inside"] = hook
    if mode == "build":
        A.step(0)
        while advance():
            if nb[0] == 1:
                A2 = Life(sa, "a", 99)
                A2.step(0)
                m.judged("switch while building")
        for n in range(1, Life.STEPS):
            A.step(n)
    elif mode == "calls":
        for n in range(Life.STEPS):
            A.step(n)
            if n % 2 == 0:
                advance()
            advance()
            m.judged("switch between calls")
    else:
        for n in range(Life.STEPS):
            A.step(n)
    A.hooks.clear()
    while mode != "tools" and advance():
        pass
    name = {"tools": "same with tools used in between", "inside": "same with another inside", "boundary": "same with another inside"}.get(
        mode, "same alone and together")
    for tag, L in (("a", A), ("b", B)):
        if tag == "b" and mode == "tools":
            continue
        for q, (x, y) in enumerate(zip(alone[tag], L.out)):
            d = same.differ(x, y)
            m.check(name if tag == "a" else "same alone and together", not d,
                    "sampler %s (%s, %s) reports other %s after call %d when another sampler is used %s" % (
                        tag, L.sc["cfg"]["sample"], "flow" if L.sc["cfg"]["precondition"] else "no flow", ", ".join(d[:5]), q,
                        {"inside": "inside its likelihood", "boundary": "between its iterations", "tools": "or tools are used in between"}.get(
                            mode, "between its calls")))
            if d:
                return
        bad = sorted({k for v in L.around.values() for k in v if v[k] != at0[k]})
        m.check("user's code runs under the user's settings", not bad, "the likelihood was called with changed %s" % ", ".join(bad),
                expected=at0, seen=list(L.around.values()))
        m.check("user's objects unchanged", L.freeze() == L.before, "sampler %s changed the objects it was given" % tag, before=L.before,
                after=L.freeze())
    if train is not None:
        m.check("user's objects unchanged", train == train0, "the shared training options became %r" % (train,))
    set1 = settings()
    bad = [k for k in set0 if set0[k] != set1[k]]
    m.check("process settings unchanged", not bad, "process-wide settings changed: %s" % ", ".join(bad),
            before={k: set0[k] for k in bad}, after={k: set1[k] for k in bad})
    m.key(gen.sig(sa), gen.sig(sb), mode)
    m.note(mode=mode, iterations=len(A.out[-1]["results"]["beta"]), calls=na_calls)
