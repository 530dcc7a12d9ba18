"""C10: flow training uses the data, weights, split, noise and penalties as documented.

The flow handed to pocomc.Flow is a zuko flow that records every batch it is
asked the density of, and the gradient of the loss with respect to each
density: that gradient is the weight the sample was trained with."""
import numpy as np

from .. import gen, rec, ref

RULE = ("one case = one training (or sampler run) of an instrumented flow with generated data, weights, split, batch size, "
        "noise, penalties and patience; the recorded batches, gradients and parameter snapshots are the trace judged; distinct "
        "by kind of case and options")
REQUIRED = ["sample keeps its weight", "epoch uses every training sample once", "split fraction", "validation disjoint",
            "validation weights", "noise scale", "early stop", "best epoch restored", "history length", "penalty gradient",
            "penalty shrinks", "input unchanged", "fit improves", "weights change the fit", "sampler trains on its particles"]
CPU = 200
SOFT = dict(quick=240, thorough=1500)


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("trace", 40), ("noise", 12), ("stop", 24), ("penalty", 10), ("improve", 10), ("sampler", 8)):
        for i in range(n * k):
            out.append(dict(kind=kind, i=i, seed=seed * 1000003 + len(out)))
    return out


def make_rec(dim, log, snap=False, spline=False):
    import torch
    import zuko
    base = zuko.flows.NSF if spline else zuko.flows.MAF

    class Rec(base):
        def forward(self, c=None):
            d = super().forward(c)
            orig = d.log_prob
            me = self

            def log_prob(x):
                lp = orig(x)
                ev = dict(x=x.detach().clone(), lp=lp.detach().clone(), grad=None)
                if snap:
                    ev["params"] = [p.detach().clone() for p in me.parameters()]
                log.append(ev)
                if lp.requires_grad:
                    def hook(g):
                        ev["grad"] = g.detach().clone()
                    lp.register_hook(hook)
                return lp
            d.log_prob = log_prob
            return d
    kw = dict(bins=4) if spline else {}
    return Rec(dim, transforms=1 + (dim > 1), hidden_features=[12], **kw)


def epochs_of(log, n_train):
    """Split the trace into epochs by the number of trained rows. Each epoch: (train events, validation events)."""
    out = []
    cur, val, seen = [], [], 0
    for ev in log:
        if ev["grad"] is not None:
            if seen >= n_train:
                out.append((cur, val))
                cur, val, seen = [], [], 0
            cur.append(ev)
            seen += len(ev["x"])
        else:
            val.append(ev)
    if cur or val:
        out.append((cur, val))
    return out


def rows(x):
    return [r.tobytes() for r in np.ascontiguousarray(np.asarray(x, dtype=np.float32))]


def run(c, m):
    globals()["case_" + c["kind"]](c, m)


def case_trace(c, m):
    import torch
    from pocomc.flow import Flow
    rng = np.random.default_rng(c["seed"])
    d = int(rng.choice([1, 2, 3]))
    n = int(rng.choice([12, 40, 101, 250]))
    X = rng.normal(size=(n, d)).astype(np.float32)
    w = None
    if c["i"] % 4:
        w = rng.exponential(1, n) ** 2 + 1e-3
        if c["i"] % 4 == 2:
            w = w / w.sum()
        w = w.astype(np.float32)
    split = float([0.0, 0.1, 0.2, 0.5, 0.75, 0.3][c["i"] % 6])
    bs = int(rng.choice([1000, max(2, n // 2), 7, n]))
    shuffle = bool(rng.integers(2))
    ep = int(rng.integers(2, 5))
    log = []
    fl = Flow(d, make_rec(d, log, spline=bool(rng.integers(2))))
    dbl = c["i"] % 5 == 0
    x = torch.tensor(X.astype(float) if dbl else X)
    wt = None if w is None else torch.tensor(w)
    x0, w0 = x.clone(), None if wt is None else wt.clone()
    kw = dict(weights=wt, validation_split=split, epochs=ep, batch_size=bs, shuffle=shuffle, patience=int(rng.choice([50, 20])),
              annealing=bool(rng.integers(2)), clip_grad_norm=float(rng.choice([1.0, 0.1])))
    tag = "n=%d dim=%d %s" % (n, d, {k: v for k, v in kw.items() if k != "weights"})
    h = fl.fit(x, **kw)
    m.key("trace", split, shuffle, w is not None, "one batch" if bs >= n else "batches", dbl)
    m.check("input unchanged", torch.equal(x, x0) and (wt is None or torch.equal(wt, w0)), "fit changed its input (%s)" % tag)
    idx = {k: i for i, k in enumerate(rows(X))}
    trained = sum(len(e["x"]) for e in log if e["grad"] is not None)
    if not m.check("epoch uses every training sample once", trained % ep == 0, "%d rows trained in %d epochs (%s)" % (trained, ep, tag)):
        return
    nt = trained // ep
    nv = n - nt
    m.check("split fraction", abs(nv - split * n) <= 1 and (split > 0 or nv == 0),
            "%d of %d samples held out with validation_split=%g (%s)" % (nv, n, split, tag))
    eps = epochs_of(log, nt)
    m.check("history length", len(h["loss"]) == ep and len(h["val_loss"]) == (ep if split > 0 else 0) and len(eps) == ep,
            "history has %d and %d entries after %d epochs (%s)" % (len(h["loss"]), len(h["val_loss"]), ep, tag))
    tset = None
    ratio_t, ratio_v = [], []
    for e, (tr, va) in enumerate(eps):
        ids = [idx.get(r) for ev in tr for r in rows(ev["x"])]
        ok = None not in ids and len(set(ids)) == len(ids) == nt
        m.check("epoch uses every training sample once", ok, "epoch %d trains on %d rows, %d distinct samples (%s)" %
                (e, len(ids), len(set(ids)), tag))
        if not ok:
            return
        vids = [idx.get(r) for ev in va for r in rows(ev["x"])]
        if nv:
            m.check("epoch uses every training sample once", None not in vids and len(set(vids)) == len(vids) == nv,
                    "epoch %d validates on %d rows, %d distinct (%s)" % (e, len(vids), len(set(vids)), tag))
        m.check("validation disjoint", not set(ids) & set(vids), "samples both trained and validated on in epoch %d (%s)" % (e, tag))
        if tset is None:
            tset = set(ids)
        m.check("validation disjoint", set(ids) == tset, "the training set changes between epochs (%s)" % tag)
        for ev in tr:
            m.check("batch size", len(ev["x"]) <= bs, "batch of %d with batch_size=%d" % (len(ev["x"]), bs))
            g = -ev["grad"].double().numpy()
            ii = [idx[r] for r in rows(ev["x"])]
            ww = np.ones(len(ii)) if w is None else w[ii].astype(float)
            q = g / ww
            m.check("sample keeps its weight", np.all(q > 0) and q.max() / q.min() < 1 + 1e-3,
                    "gradient weights over the samples' own weights vary from %g to %g in a batch (%s)" % (q.min(), q.max(), tag))
        if len(tr) == 1:
            ii = [idx[r] for r in rows(tr[0]["x"])]
            ww = np.ones(len(ii)) if w is None else w[ii].astype(float)
            ratio_t.append((h["loss"][e], -np.sum(ww * tr[0]["lp"].double().numpy()) / ww.sum()))
        if nv and len(va) == 1 and None not in vids:
            ww = np.ones(len(vids)) if w is None else w[vids].astype(float)
            ratio_v.append((h["val_loss"][e], -np.sum(ww * va[0]["lp"].double().numpy()) / ww.sum()))
    for name, rr in (("training loss", ratio_t), ("validation weights", ratio_v)):
        if len(rr) >= 2:
            a = np.array(rr)
            s = np.dot(a[:, 0], a[:, 1]) / np.dot(a[:, 1], a[:, 1])
            m.check(name, s > 0 and np.all(np.abs(a[:, 0] - s * a[:, 1]) < 1e-4 * np.abs(a[:, 0]).max() + 1e-6 * s),
                    "reported losses %r are not proportional to the weighted mean negative log-densities %r (%s)" %
                    (a[:, 0], a[:, 1], tag))


def case_noise(c, m):
    import torch
    from pocomc.flow import Flow
    rng = np.random.default_rng(c["seed"])
    # two square lattices of different spacing: each point's nearest neighbour is known
    d = 2
    k1, k2 = int(rng.integers(8, 12)), int(rng.integers(5, 8))
    s1, s2 = 0.25, 1.0
    g = lambda k, s: np.array([[i * s, j * s] for i in range(k) for j in range(k)])
    X = np.concatenate([g(k1, s1), g(k2, s2) + [20.0, -7.0]])
    X = X + rng.normal(0, 1e-3, X.shape)
    # every sixth case: many samples whose spacing changes along the array, kept in this order
    big = c["i"] % 6 == 3
    if big:
        X = np.concatenate([g(20, s1), g(24, s2) + [40.0, -7.0]][::-1 if rng.integers(2) else 1])
        X = X + rng.normal(0, 1e-3, X.shape)
    else:
        X = X[rng.permutation(len(X))]
    X = X.astype(np.float32)
    n = len(X)
    D = np.linalg.norm(X[:, None].astype(float) - X[None], axis=-1)
    np.fill_diagonal(D, np.inf)
    nn = D.min(axis=1)
    noise = float(rng.choice([0.01, 0.02, 0.03]))
    if c["i"] % 6 == 5:
        noise = 0.0 + 1e-12
    split = [0.0, 0.0, 0.25][c["i"] % 3]
    log = []
    fl = Flow(d, make_rec(d, log))
    x = torch.tensor(X)
    x0 = x.clone()
    w = None
    if c["i"] % 2:
        w = torch.tensor(rng.exponential(1, n).astype(np.float32) + 0.05)
    shuffle = bool(rng.integers(2)) and not big
    ep = 5 if big else 14
    fl.fit(x, weights=w, noise=noise, validation_split=split, epochs=ep, batch_size=int(rng.choice([1000, 30])), shuffle=shuffle,
           learning_rate=1e-4)
    m.key("noise", noise, split, shuffle, w is not None)
    m.check("input unchanged", torch.equal(x, x0), "fit with noise changed its input")
    disp = []
    for ev in log:
        xx = ev["x"].double().numpy()
        dist = np.linalg.norm(xx[:, None] - X[None], axis=-1)
        j = dist.argmin(axis=1)
        disp.append((ev["grad"] is not None, j, xx - X[j], None if ev["grad"] is None else -ev["grad"].double().numpy()))
    tr = np.concatenate([q[2] for q in disp if q[0]])
    scale = nn.mean()
    sd = np.sqrt(np.mean(tr ** 2))
    tol = 0.03 + 6 / np.sqrt(2 * tr.size)
    if split:                      # whether the neighbours are sought in all or the training samples is a choice
        tol += 0.3
    if noise > 1e-9:
        m.check("noise scale", abs(sd / (noise * scale) - 1) < tol, "noise has standard deviation %g, noise * mean nearest-neighbour distance is %g" %
                (sd, noise * scale), split=split, shuffle=shuffle)
        m.check("noise scale", abs(tr.mean()) < 6 * sd / np.sqrt(tr.size), "noise is not centred: mean %g" % tr.mean())
        a = {}
        rep = 0
        for t, j, dd, _ in disp:
            for i, v in zip(j, dd):
                rep += (int(i), v.tobytes()) in a
                a[(int(i), v.tobytes())] = 1
        m.check("noise scale", rep < 0.01 * len(tr), "the same noise is used in different epochs")
    else:
        m.check("noise scale", sd < 1e-5, "noise=%g displaced the samples by %g" % (noise, sd))
    if w is not None:
        for t, j, dd, gr in disp:
            if t:
                q = gr / w.numpy()[j]
                m.check("sample keeps its weight", np.all(q > 0) and q.max() / q.min() < 1 + 1e-3,
                        "with noise, gradient weights over own weights vary from %g to %g" % (q.min(), q.max()))
    tset = set(np.concatenate([j for t, j, _, _ in disp if t]).tolist())
    vset = set(np.concatenate([j for t, j, _, _ in disp if not t] or [np.zeros(0, int)]).tolist())
    m.check("validation disjoint", not tset & vset, "with noise, samples are both trained and validated on")


def case_stop(c, m):
    import torch
    from pocomc.flow import Flow
    rng = np.random.default_rng(c["seed"])
    d = 2
    n = 60
    X = torch.tensor(rng.normal(size=(n, d)).astype(np.float32))
    pat = int(rng.choice([1, 2, 3, 5, 8]))
    ep = int(rng.choice([60, 150]))
    lr = float(rng.choice([0.3, 0.1, 0.03, 1.0]))
    split = float([0.0, 0.3][c["i"] % 2])
    log = []
    fl = Flow(d, make_rec(d, log, snap=True))
    init = [p.detach().clone() for p in fl.flow.parameters()]
    w = torch.tensor(rng.exponential(1, n).astype(np.float32)) if c["i"] % 3 == 0 else None
    h = fl.fit(X, weights=w, validation_split=split, epochs=ep, batch_size=int(rng.choice([1000, 20])), patience=pat, learning_rate=lr,
               annealing=bool(c["i"] % 4 == 1), clip_grad_norm=10.0)
    mon = np.array(h["val_loss"] if split else h["loss"])
    L = len(h["loss"])
    trained = sum(len(e["x"]) for e in log if e["grad"] is not None)
    nt = trained // L if L else 0
    tag = "patience=%d epochs=%d lr=%g split=%g ran %d" % (pat, ep, lr, split, L)
    m.check("history length", L > 0 and L <= ep and trained == nt * L and len(h["val_loss"]) == (L if split else 0),
            "history has %d entries (%s)" % (L, tag))
    best, gap = 0, []
    bl = np.inf
    for e in range(L):
        if mon[e] < bl:
            bl, best = mon[e], e
        gap.append(e - best)
    gap = np.array(gap)
    lo, hi = pat, 2 * pat
    if L < ep:
        m.check("early stop", lo <= gap[-1] <= hi, "stopped %d epochs after the best one (%s)" % (gap[-1], tag), loss=mon[-12:])
        m.check("early stop", np.all(gap[:-1] <= hi), "went on %d epochs after the best one (%s)" % (gap.max(), tag))
        eps = epochs_of(log, nt)
        m.check("history length", len(eps) == L, "%d epochs in the trace, %d in the history (%s)" % (len(eps), L, tag))
        if best + 1 < len(eps):
            want = eps[best + 1][0][0]["params"]
            got = [p.detach() for p in fl.flow.parameters()]
            last = log[-1]["params"]
            same = all(torch.equal(a, b) for a, b in zip(want, got))
            m.check("best epoch restored", same, "the parameters after an early stop are not those of the best epoch %d (%s)" % (best, tag),
                    equal_to_last_seen=all(torch.equal(a, b) for a, b in zip(last, got)),
                    equal_to_initial=all(torch.equal(a, b) for a, b in zip(init, got)))
        m.key("stop", "early", pat, bool(split), best > 0)
    else:
        m.check("early stop", np.all(gap[:-1] <= hi), "did not stop %d epochs after the best one (%s)" % (gap.max(), tag))
        m.key("stop", "ran out", pat, bool(split))


def case_penalty(c, m):
    import copy
    import torch
    from pocomc.flow import Flow
    rng = np.random.default_rng(c["seed"])
    d = 2
    X = torch.tensor(rng.normal(size=(80, d)).astype(np.float32))
    base = make_rec(d, [], spline=bool(c["i"] % 2))
    w = torch.tensor(rng.exponential(1, 80).astype(np.float32)) if c["i"] % 3 else None
    split = [0.0, 0.25][c["i"] % 2]

    def first_gradient(**kw):
        f = copy.deepcopy(base)
        g = {}
        for nm, p in f.named_parameters():
            def hook(v, nm=nm):
                if nm not in g:
                    g[nm] = v.detach().double().clone()
            p.register_hook(hook)
        Flow(d, f).fit(X, weights=w, epochs=1, batch_size=1000, shuffle=False, validation_split=split, **kw)
        return g
    g0 = first_gradient()
    par = {nm: p.detach().double() for nm, p in base.named_parameters()}
    names = [nm for nm in par if nm.endswith("weight")]
    for kind in ("gaussian_scale", "laplace_scale"):
        size = []
        for s in (0.05, 0.5):
            g1 = first_gradient(**{kind: s})
            num = den = dn = 0.0
            for nm in names:
                dlt = g1[nm] - g0[nm]
                t = par[nm] if kind[0] == "g" else torch.sign(par[nm])
                num += float((dlt * t).sum())
                den += float((t * t).sum())
                dn += float((dlt * dlt).sum())
            cos = num / np.sqrt(den * dn) if dn > 0 else 0.0
            size.append(num)
            m.check("penalty gradient", cos > 0.99, "%s=%g: the penalty's gradient has cosine %.3f with the direction that grows the weights" %
                    (kind, s, cos))
        m.check("penalty gradient", size[0] > size[1], "%s: a larger scale gives a stronger penalty" % kind)
        m.key("penalty", kind, w is None)
        # and it has that effect
        norms = []
        for s in (None, 0.05):
            f = copy.deepcopy(base)
            torch.manual_seed(c["seed"] % 2**31)
            Flow(d, f).fit(X, weights=w, epochs=150, batch_size=1000, patience=1000, learning_rate=5e-3, **{kind: s})
            norms.append(sum(float((p.detach() ** 2).sum()) for nm, p in f.named_parameters() if nm.endswith("weight")))
        m.check("penalty shrinks", norms[1] < 0.8 * norms[0], "%s=0.05: squared weights %g with, %g without the penalty" % (kind, norms[1], norms[0]))
    both = first_gradient(gaussian_scale=0.3, laplace_scale=0.3)
    a, b = first_gradient(gaussian_scale=0.3), first_gradient(laplace_scale=0.3)
    e = max(float((both[nm] - a[nm] - b[nm] + g0[nm]).abs().max()) for nm in names)
    sc = max(float(both[nm].abs().max()) for nm in names)
    m.check("penalty gradient", e < 1e-3 * sc + 1e-4, "both penalties together are not the sum of the two")


def case_improve(c, m):
    import torch
    from pocomc.flow import Flow
    rng = np.random.default_rng(c["seed"])
    name = ["maf3", "nsf3", "maf6", "tinymaf", "nice", "nsf6", "tinynsf", "maf3", "nsf3", "tinymaf"][c["i"] % 10]
    d = int(rng.choice([2, 3]))
    n = 400
    A = np.eye(d) * 2 + 0.5
    Y = rng.normal(size=(n, d)) @ A
    Y[:, 0] += 0.3 * Y[:, 1] ** 2
    X = torch.tensor((Y - 1.0).astype(np.float32))
    half = torch.tensor((Y[:, 1] > np.median(Y[:, 1])).astype(np.float32))
    wA = half + 0.02
    wB = (1 - half) + 0.02
    for w, split, noise in ((None, 0.0, None), (wA, 0.2, None), (None, 0.2, 0.05)):
        torch.manual_seed(c["seed"] % 2**31)
        fl = Flow(d, gen.make_flow(name, d))
        ww = torch.ones(n) if w is None else w
        ww = ww / ww.sum()
        with torch.no_grad():
            a = float((fl.log_prob(X) * ww).sum())
        fl.fit(X, weights=w, epochs=60, batch_size=100, learning_rate=2e-3, validation_split=split, noise=noise)
        with torch.no_grad():
            b = float((fl.log_prob(X) * ww).sum())
            s, _ = fl.sample(2000)
        m.check("fit improves", b > a, "mean log-density of the training data went from %g to %g (%s)" % (a, b, name))
        m.key("improve", name, w is not None)
    mean = []
    for w in (wA, wB):
        torch.manual_seed(c["seed"] % 2**31)
        fl = Flow(d, gen.make_flow(name, d))
        fl.fit(X, weights=w, epochs=60, batch_size=100, learning_rate=2e-3)
        with torch.no_grad():
            mean.append(((fl.log_prob(X) * wA / wA.sum()).sum() - (fl.log_prob(X) * wB / wB.sum()).sum()).item())
    m.check("weights change the fit", mean[0] > mean[1], "the fit does not prefer the samples of large weight (%s): %r" % (name, mean))


def case_sampler(c, m):
    """Trace of the training inside a run."""
    import torch
    sc = gen.scenarios(1, c["seed"], salt=10, kernel=KER[c["i"] % 2], eval="serial", flow="x", train=None, blob=None,
                       kind=["gauss", "bimodal", "corr"][c["i"] % 3], shape=None, dim=[2, 3][c["i"] % 2])[0]
    log = []
    d = len(sc["prior"])
    sc["cfg"]["flow"] = make_rec(d, log)
    tc = dict(epochs=2, shuffle=bool(c["i"] % 2), validation_split=[0.0, 0.25][c["i"] // 2 % 2])
    sc["cfg"]["train_config"] = tc
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)))
    marks = []
    import pocomc

    class Tr(pocomc.Sampler):
        def save_state(self, path):
            marks.append((len(log), int(self.t)))
    s, like, prior, pool = gen.make_sampler(sc, cls=Tr, like=like)
    s.run(progress=False, save_every=1, **sc["run"])
    res = s.results
    T = len(res["beta"])
    m.key("sampler", sc["cfg"]["sample"], tc["shuffle"], tc["validation_split"])
    U = np.asarray(res["u"], dtype=float)
    # each stretch between two marks is one iteration
    bounds = [0] + [k for k, _ in marks]
    sessions = 0
    for a, b in zip(bounds[:-1], bounds[1:]):
        evs = [e for e in log[a:b] if e["grad"] is not None]
        if not evs:
            continue
        sessions += 1
        t = min(v for k, v in marks if k == b)
        it = t - 1
        # the particles stored before iteration `it`
        n_before = it
        logl, logp = res["logl"][:n_before], res["logp"][:n_before]
        beta, logz = res["beta"][:n_before], res["logz"][:n_before]
        lw = ref.mixture_logw(logl, beta, logz, float(res["beta"][it])).ravel()
        lookup = {}
        for k, v in zip(rows(U[:n_before].reshape(-1, d)), lw):
            lookup.setdefault(k, v)
        for ev in evs:
            l = [lookup.get(r) for r in rows(ev["x"])]
            if not m.check("sampler trains on its particles", None not in l, "iteration %d trains on points that are not stored particles" % it):
                return
            g = -ev["grad"].double().numpy()
            q = np.log(g) - np.array(l)
            m.check("sampler trains on its particles", np.all(g > 0) and q.max() - q.min() < 2e-2,
                    "iteration %d: training weights are not proportional to the importance weights (spread of the log ratio %g)" %
                    (it, q.max() - q.min()), worst=[(float(g[k]), float(l[k])) for k in (int(np.argmax(q)), int(np.argmin(q)))],
                    gmax=g.max(), lmax=max(l))
    m.check("sampler trains on its particles", sessions >= 1, "the flow was never trained in a run of %d iterations" % T)


KER = [("tpcn", True), ("rwm", True)]
