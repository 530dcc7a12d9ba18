"""C09: the normalizing flow is a bijection with a consistent density."""
import copy
import warnings

import numpy as np
import scipy.stats as st

RULE = ("one case = one flow (predefined or custom zuko flow, dimension, weights untrained, trained or strongly perturbed), "
        "put through all oracles at random points of several spreads; distinct by flow type, dimension and state of the weights")
REQUIRED = ["x round trip", "u round trip", "log-Jacobians opposite", "Jacobian forward", "Jacobian inverse", "density",
            "sample density", "samples follow the density", "double cast", "float kept", "invalid flow refused",
            "rows independent", "input unchanged"]
CPU = 200
SOFT = dict(quick=240, thorough=1500)
FLOWS = ["maf3", "nsf3", "maf6", "nsf6", "maf12", "nsf12", "tinymaf", "tinynsf", "nice", "realnvp"]


def cases(tier, seed):
    out = []
    dims = [1, 2, 3, 5, 8]
    k = 2 if tier == "quick" else 14
    for rep in range(k):
        for i, f in enumerate(FLOWS):
            for j, state in enumerate(["fresh", "trained", "perturbed", "tame"]):
                out.append(dict(flow=f, state=state, dim=dims[(i + j + rep + seed) % len(dims)],
                                seed=seed * 1000003 + len(out)))
    return out


def build(c):
    import torch
    import zuko
    from pocomc.flow import Flow
    from .. import gen
    d = c["dim"]
    f = c["flow"]
    if f == "realnvp":
        f = zuko.flows.RealNVP(d, transforms=3, hidden_features=[16]) if d > 1 else zuko.flows.MAF(1, transforms=1)
    else:
        f = gen.make_flow(f, d)
    fl = Flow(d, f)
    rng = np.random.default_rng(c["seed"])
    if c["state"] == "trained":
        x = torch.tensor(np.column_stack([rng.normal(1, 2, 300) + (i > 0) * 0.5 * rng.normal(size=300) ** 2
                                          for i in range(d)]), dtype=torch.float32)
        fl.fit(x, epochs=12, batch_size=100, learning_rate=3e-3, annealing=False)
    elif c["state"] == "perturbed":
        with torch.no_grad():
            for p in fl.flow.parameters():
                p.add_(torch.randn_like(p) * 0.05)
    elif c["state"] == "tame":
        with torch.no_grad():
            for p in fl.flow.parameters():
                p.mul_(0.4)
    return fl


def row_jacobians(f, X):
    import torch
    J = []
    for r in X:
        J.append(torch.autograd.functional.jacobian(lambda v: f(v[None, :])[0][0], r))
    return torch.nan_to_num(torch.stack(J).double(), nan=0.0, posinf=1e300, neginf=-1e300).clamp(-1e200, 1e200)


def run(c, m):
    import torch
    fl = build(c)
    d = c["dim"]
    tag = "%s dim %d %s" % (c["flow"], d, c["state"])
    m.key(c["flow"], c["state"], d)
    rng = np.random.default_rng(c["seed"] + 1)
    # the same flow in double precision, and through zuko alone in single precision: a deep flow can be
    # too ill-conditioned for single precision, whatever pocomc does
    twin = copy.deepcopy(fl.flow).double()
    single = copy.deepcopy(fl.flow)
    with torch.no_grad():
        z = torch.randn(400, d)
        t = single().transform
        e = (t(t.inv(z)) - z).abs()
        sound = bool(torch.isfinite(e).all()) and float(e.max()) < 1e-3
        a64 = twin().transform(t.inv(z).double())
        sound = sound and bool(torch.isfinite(a64).all()) and float((a64 - z.double()).abs().max()) < 1e-3
    m.judged("flow resolvable in single precision" if sound else "flow too ill-conditioned for single precision")
    for spread in (0.3, 1.0, 3.0):
        X = torch.tensor(rng.normal(size=(24, d)) * spread, dtype=torch.float32)
        X0 = X.clone()
        with torch.no_grad():
            U, LJ = fl.forward(X)
            X2, LI = fl.inverse(U)
            LP = fl.log_prob(X)
        m.check("input unchanged", torch.equal(X, X0), "forward/log_prob changed their input (%s)" % tag)
        m.check("shape", U.shape == X.shape and LJ.shape == (24,) and X2.shape == X.shape and LI.shape == (24,) and LP.shape == (24,),
                "shapes %r %r %r %r %r (%s)" % (U.shape, LJ.shape, X2.shape, LI.shape, LP.shape, tag))
        m.check("float kept", all(t.dtype == torch.float32 for t in (U, LJ, X2, LI, LP)), "single-precision input gave other dtypes (%s)" % tag)
        with torch.no_grad():
            t, t64 = single().transform, twin().transform
            u64 = t64(X.double())
            x64 = t64.inv(u64)
            rt = (t.inv(t(X)) - X).abs().max(dim=1).values
            fw = (t(X).double() - u64).abs().max(dim=1).values / (1 + u64.abs().max(dim=1).values)
            res = (rt < 1e-4 * (1 + X.abs().max(dim=1).values)) & (fw < 1e-4)
            rev = ((t64.inv(U.double()) - X.double()).abs().max(dim=1).values < 1e-4 * (1 + X.abs().max(dim=1).values))
            res = (res & rev)[:8]
        # derivatives
        JF = row_jacobians(fl.forward, X[:8])
        ld = torch.linalg.slogdet(JF)[1]
        cond = torch.linalg.cond(JF)
        sv = torch.linalg.svdvals(JF)
        for i in range(8):
            if not bool(torch.isfinite(cond[i])) or cond[i] > 1e4 or not bool(res[i]):
                continue
            m.check("Jacobian forward", abs(float(ld[i] - LJ[i])) < 2e-3 + 1e-5 * float(cond[i]) + 1e-4 * abs(float(ld[i])),
                    "forward log-Jacobian %g, derivative gives %g (%s)" % (LJ[i], ld[i], tag))
        amp = (1 / sv[:, -1]).clamp(min=1.0)
        tolx = 2e-4 * (1 + X[:8].abs().max(dim=1).values.double()) + 3e-5 * amp * (1 + U[:8].abs().max(dim=1).values.double())
        err = (X2 - X)[:8].abs().max(dim=1).values.double()
        ok = (amp < 300) & res
        m.judged("x round trip", int(ok.sum()))
        if bool((ok & ~(err < tolx)).any()):
            i = int((ok & ~(err < tolx)).double().argmax())
            m.violation("x round trip: inverse(forward(x)) = %r for x = %r (%s)" % (X2[i].tolist(), X[i].tolist(), tag))
        dl = (LJ + LI)[:8].abs().double()
        m.judged("log-Jacobians opposite", int(ok.sum()))
        tl = 5e-3 + 2e-4 * amp + 1e-3 * LJ[:8].abs().double()
        if bool((ok & ~(dl < tl)).any()):
            i = int((ok & ~(dl < tl)).double().argmax())
            m.violation("log-Jacobians opposite: forward %g, inverse at the image %g (%s)" % (LJ[i], LI[i], tag))
        # density
        ref = -0.5 * (U.double() ** 2).sum(dim=1) - 0.5 * d * np.log(2 * np.pi) + LJ.double()
        keep = (fw < 1e-4) & (U.abs().max(dim=1).values < 1e4)
        m.judged("density", int(keep.sum()))
        b = keep & ~((LP.double() - ref).abs() < 1e-3 + 1e-5 * (U.double() ** 2).sum(dim=1) + 1e-4 * LJ.abs().double())
        if bool(b.any()):
            i = int(b.double().argmax())
            m.violation("density: log_prob %g, standard normal of the latent point plus log-Jacobian %g (%s)" % (LP[i], ref[i], tag))
        # the inverse direction on its own
        V = torch.tensor(rng.normal(size=(8, d)) * min(spread, 1.5), dtype=torch.float32)
        V0 = V.clone()
        with torch.no_grad():
            Y, LY = fl.inverse(V)
            V2, LV = fl.forward(Y)
        with torch.no_grad():
            rv = (t(t.inv(V)) - V).abs().max(dim=1).values < 1e-4
            yv = (t64.inv(V.double()) - t.inv(V).double()).abs().max(dim=1).values
            rv &= yv < 1e-4 * (1 + t64.inv(V.double()).abs().max(dim=1).values)
        m.check("input unchanged", torch.equal(V, V0), "inverse changed its input (%s)" % tag)
        JI = row_jacobians(fl.inverse, V)
        ldi = torch.linalg.slogdet(JI)[1]
        condi = torch.linalg.cond(JI)
        svi = torch.linalg.svdvals(JI)
        for i in range(8):
            if not bool(torch.isfinite(condi[i])) or condi[i] > 1e4 or not bool(rv[i]):
                continue
            m.check("Jacobian inverse", abs(float(ldi[i] - LY[i])) < 3e-3 + 2e-5 * float(condi[i]) + 2e-4 * abs(float(ldi[i])),
                    "inverse log-Jacobian %g, derivative gives %g (%s)" % (LY[i], ldi[i], tag))
            a = max(1.0, 1 / float(svi[i, -1]))
            if a < 300:
                e = float((V2[i] - V[i]).abs().max())
                m.check("u round trip", e < 2e-4 * (1 + float(V[i].abs().max())) + 3e-5 * a * (1 + float(Y[i].abs().max())),
                        "forward(inverse(u)) = %r for u = %r (%s)" % (V2[i].tolist(), V[i].tolist(), tag))
        # rows
        with torch.no_grad():
            u1, l1 = fl.forward(X[5:6])
            x1, k1 = fl.inverse(V[2:3])
            p1 = fl.log_prob(X[5:6])
        if bool(res[5]) and bool(rv[2]):
          m.check("rows independent", torch.allclose(u1[0], U[5], rtol=1e-3, atol=1e-4) and torch.allclose(l1[0], LJ[5], rtol=1e-3, atol=1e-3)
                and torch.allclose(p1[0], LP[5], rtol=1e-3, atol=1e-3)
                and torch.allclose(x1[0], Y[2], rtol=1e-3, atol=1e-3 * max(1.0, float(svi[2, 0]))),
                "a row maps differently alone and in a batch (%s)" % tag)
        # double precision
        for name, f, a, want in (("forward", fl.forward, X, U), ("inverse", fl.inverse, V, Y), ("log_prob", fl.log_prob, X, LP)):
            with warnings.catch_warnings(record=True) as ws, torch.no_grad():
                warnings.simplefilter("always")
                got = f(a.double())
            got = got[0] if isinstance(got, tuple) else got
            m.check("double cast", len(ws) >= 1 and got.dtype == torch.float32 and torch.allclose(got, want, rtol=1e-4, atol=1e-5, equal_nan=True),
                    "%s of double-precision input: %d warnings, dtype %s (%s)" % (name, len(ws), got.dtype, tag))
            with warnings.catch_warnings(record=True) as ws, torch.no_grad():
                warnings.simplefilter("always")
                f(a)
            m.check("float kept", not [w for w in ws if "64" in str(w.message) or "cast" in str(w.message).lower()],
                    "%s warned about single-precision input (%s)" % (name, tag))
    # samples
    if not sound:
        return refusals(m, d)
    n = 3000
    with torch.no_grad():
        S, LS = fl.sample(n)
        L2 = fl.log_prob(S)
        US, _ = fl.forward(S)
    m.check("shape", S.shape == (n, d) and LS.shape == (n,), "sample shapes %r %r" % (S.shape, LS.shape))
    err = (LS - L2).abs()
    lim = 2e-2 + 2e-3 * L2.abs()
    frac = float((~(err < lim)).double().mean())
    m.judged("sample density", n)
    if frac > 0.02 or not float(err.median()) < 3e-3:
        m.violation("sample density: the log-density returned with samples differs from log_prob by up to %g (%s)" % (float(err.max()), tag))
    for size in (1, 7):
        with torch.no_grad():
            s, l = fl.sample(size)
            l2 = fl.log_prob(s)
        m.check("shape", s.shape == (size, d) and l.shape == (size,), "sample(%d) has shapes %r %r" % (size, s.shape, l.shape))
    un = US.double().numpy()
    un = np.nan_to_num(un, nan=1e9, posinf=1e9, neginf=-1e9)
    q = (np.arange(n) + 0.5) / n
    ks = np.array([np.abs(st.norm.cdf(np.sort(un[:, i])) - q).max() for i in range(d)])
    m.check("samples follow the density", np.all(ks < 3.0 / np.sqrt(n) + 0.004),
            "latent images of drawn samples are not standard normal: KS distances %r (%s)" % (ks, tag))
    with torch.no_grad():
        sa, _ = fl.sample(50)
        sb, _ = fl.sample(50)
    m.check("samples follow the density", not torch.equal(sa, sb), "two draws are identical (%s)" % tag)
    refusals(m, d)


def refusals(m, d):
    import torch
    from pocomc.flow import Flow
    for bad in ("maf4", "MAF3", "nsf", "", None, 3, "maf", "nsf24", torch.nn.Linear(d, d)):
        try:
            Flow(d, bad)
            r = False
        except ValueError:
            r = True
        m.check("invalid flow refused", r, "Flow(%d, %r) was accepted" % (d, bad))
