"""C20: the proposal geometry describes the weighted particles."""
import contextlib
import unittest.mock as mock

import numpy as np

from .. import gen, rec, ref
from .c11 import trimmed

RULE = ("one case = a block of generated point sets (Gaussian, correlated, skewed, heavy-tailed, 1 to 12 dimensions, scales from "
        "1e-6 to 1e6, far from the origin) with weights (none, equal, random, tilted, with zeros), each fitted and refitted "
        "after shifts, rescalings, permutations, weight rescalings and displacement of zero-weight points under the same random "
        "numbers; or one ordinary run with every geometry fit and every kernel's geometry judged; non-trivial if weighted or "
        "multivariate; distinct by family, dimension and weighting, or by scenario")
REQUIRED = ["weighted mean", "weighted covariance", "normal covariance SPD", "student finite and SPD", "shift equivariance",
            "scale equivariance", "permutation equivariance", "weight scale", "zero weight ignored", "student describes the points",
            "student location in range", "dof of Student data", "dof of Gaussian data", "input unchanged", "refit forgets"]
ASSUMPTIONS = ["points are in general position: effective number of points well above the dimension"]
CPU = 200
SOFT = dict(quick=240, thorough=2000)
FAMS = ["gauss", "corr", "skew", "t5", "uniform", "offset", "mixed", "tiny", "huge", "bimodal"]
WTS = ["none", "equal", "random", "tilt", "zeros", "power", "tilt", "random"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for i in range(60 * k):
        out.append(dict(mode="fit", fam=FAMS[i % len(FAMS)], wt=WTS[(i // 2) % len(WTS)], seed=seed * 90001 + i,
                        d=[1, 2, 3, 5, 1, 2, 8, 12, 4][i % 9]))
    # long histories whose distribution drifts
    for i in range(8 * k):
        out.append(dict(mode="fit", fam=["gauss", "corr", "mixed", "offset"][i % 4], wt=["random", "equal", "power", "zeros"][(i // 2) % 4],
                        seed=seed * 90011 + i, d=[1, 2, 3, 6][i % 4], n=[5000, 12000, 30000, 9000][i % 4], reps=1))
    for i in range(10 * k):
        out.append(dict(mode="dof", seed=seed * 90007 + i, d=[1, 2, 3, 5][i % 4], nu=[3.0, 5.0, 2.0, 8.0, np.inf][i % 5]))
    for j, kern in enumerate(gen.KERNELS):
        for sc in gen.scenarios(3 * k, seed, 2000 + j, kernel=kern, eval="serial", shape=None, train_frequency=1):
            sc["mode"] = "run"
            out.append(sc)
    # the flow is trained now and then only
    for j, kern in enumerate(gen.KERNELS):
        if kern[1]:
            for q, sc in enumerate(gen.scenarios(3 * k, seed, 2020 + j, kernel=kern, eval="serial", shape=None, flow="tinymaf",
                                                 train_frequency=2 + j)):
                sc["mode"] = "run"
                sc["cfg"]["train_frequency"] = 2 + (q + j) % 3
                out.append(sc)
    return out


def points(rng, fam, d, n):
    z = rng.normal(size=(n, d))
    if fam == "corr":
        A = np.linalg.cholesky(np.full((d, d), 0.8) + 0.2 * np.eye(d))
        z = z @ A.T
    elif fam == "skew":
        z = rng.exponential(size=(n, d))
    elif fam == "t5":
        z = z / np.sqrt(rng.chisquare(5, size=(n, 1)) / 5)
    elif fam == "uniform":
        z = rng.uniform(size=(n, d))
    elif fam == "offset":
        z = z + 1e4 * rng.normal(size=d)
    elif fam == "mixed":
        z = z * 10.0 ** rng.uniform(-4, 4, size=d) + rng.normal(size=d)
    elif fam == "tiny":
        z = z * 1e-6
    elif fam == "huge":
        z = z * 1e6 + 1e6
    elif fam == "bimodal":
        z = z * 0.3 + np.where(rng.uniform(size=(n, 1)) < 0.4, 2.0, -1.0)
    return z


def weighting(rng, wt, z):
    n = len(z)
    if wt == "none":
        return None
    if wt == "equal":
        return np.full(n, 1.0 / n)
    if wt == "random":
        w = rng.exponential(size=n)
    elif wt == "tilt":
        t = (z[:, 0] - z[:, 0].mean()) / z[:, 0].std()
        w = np.exp(0.8 * np.clip(t, -4, 4))
    elif wt == "zeros":
        w = rng.exponential(size=n) * (rng.uniform(size=n) < 0.6)
    else:
        w = rng.uniform(size=n) ** 3
    return w / w.sum()


def moments(z, w):
    """Weighted mean and (reliability-corrected) covariance in extended precision."""
    z = z.astype(np.longdouble)
    w = np.full(len(z), 1.0 / len(z), dtype=np.longdouble) if w is None else w.astype(np.longdouble) / w.astype(np.longdouble).sum()
    mu = w @ z
    r = z - mu
    C = (w[:, None] * r).T @ r / (1 - np.sum(w * w))
    return mu.astype(float), C.astype(float)


def fit(z, w, seed):
    from pocomc.geometry import Geometry
    g = Geometry()
    np.random.seed(seed)
    g.fit(z) if w is None else g.fit(z, weights=w)
    return g


def vec(g, d):
    """normalised views of the fitted attributes"""
    return (np.asarray(g.normal_mean, dtype=float).reshape(d), np.asarray(g.normal_cov, dtype=float).reshape(d, d),
            np.asarray(g.t_mean, dtype=float).reshape(d), np.asarray(g.t_cov, dtype=float).reshape(d, d), float(g.t_nu))


def spd(C):
    if not (np.all(np.isfinite(C)) and np.all(np.diag(C) > 0)):
        return False
    s = np.sqrt(np.diag(C))
    R = C / s / s[:, None]
    return bool(np.allclose(R, R.T, rtol=0, atol=1e-9) and np.linalg.eigvalsh(R).min() > 1e-12)


def close(a, b, sd, t):
    """do (mean, cov) pairs agree, in units of sd?"""
    return np.all(np.abs(a[0] - b[0]) <= t * sd) and np.all(np.abs(a[1] - b[1]) <= t * np.outer(sd, sd))


def judge_fit(m, g, z, w, tag, exact=1e-7):
    """The normal part against the definition; the Student part for sanity. Returns the views or None."""
    d = z.shape[1]
    mu, C = moments(z, w)
    sd = np.sqrt(np.diag(C))
    noise = 1e-12 * np.abs(z).max(axis=0) / sd
    tol = exact + noise.max()
    try:
        nm, nc, tm, tc, nu = vec(g, d)
    except Exception as e:
        m.judged("weighted mean")
        m.violation("weighted mean: geometry has no usable attributes: %r (%s)" % (e, tag))
        return None
    m.check("weighted mean", np.all(np.abs(nm - mu) <= tol * sd), "mean %r, weighted mean is %r (%s)" %
            (nm.tolist(), mu.tolist(), tag))
    m.check("weighted covariance", np.all(np.abs(nc - C) <= tol * np.outer(sd, sd)),
            "covariance %r, weighted covariance is %r (%s)" % (nc.tolist(), C.tolist(), tag))
    m.check("normal covariance SPD", spd(nc), "normal covariance is not symmetric positive definite (%s)" % tag)
    m.check("student finite and SPD", np.all(np.isfinite(tm)) and spd(tc) and np.isfinite(nu) and nu > 0,
            "Student-t location %r, scatter %r, dof %r (%s)" % (tm.tolist(), tc.tolist(), nu, tag))
    nz = z if w is None else z[w > 0]
    m.check("student location in range", np.all(tm >= nz.min(axis=0) - 1e-9 * sd) and np.all(tm <= nz.max(axis=0) + 1e-9 * sd),
            "Student-t location %r outside the points (%s)" % (tm.tolist(), tag))
    return nm, nc, tm, tc, nu, mu, C, sd, tol


def run_fit(c, m):
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    for rep in range(c.get("reps", 8)):
        fam = c["fam"] if rep % 2 == 0 else FAMS[int(rng.integers(len(FAMS)))]
        wt = c["wt"] if rep % 3 or c.get("n") else WTS[int(rng.integers(len(WTS)))]
        n = c.get("n") or int(rng.choice([40, 150, 600, 2000])) + 12 * d
        z = points(rng, fam, d, n)
        w = weighting(rng, wt, z)
        if c.get("n"):
            # in order, as the older particles of a run come first
            o = np.argsort(z[:, 0], kind="stable")
            z, w = z[o], w[o]
        tag = "%s, %s weights, n=%d, d=%d" % (fam, wt, n, d)
        seed = int(rng.integers(2**31))
        z0, w0 = z.copy(), None if w is None else w.copy()
        g = fit(z, w, seed)
        m.check("input unchanged", np.array_equal(z, z0) and (w is None or np.array_equal(w, w0)), "inputs modified (%s)" % tag)
        r = judge_fit(m, g, z, w, tag)
        if r is None:
            continue
        nm, nc, tm, tc, nu, mu, C, sd, tol = r
        et = 1e-5 + 10 * tol
        # where the points are normal, location and scatter are those of the points
        n_eff = n if w is None else ref.ess(w)
        if fam in ("gauss", "corr", "offset", "mixed", "tiny", "huge") and n_eff > 100:
            slack = 0.12 + 6 / np.sqrt(n_eff)
            L = np.linalg.cholesky(C)
            ev = np.linalg.eigvalsh(np.linalg.solve(L, np.linalg.solve(L, tc).T))
            loc = np.linalg.solve(L, tm - mu)
            m.check("student describes the points", np.all(np.abs(loc) < 1.3 * 6 / np.sqrt(n_eff)) and
                    ev.max() < 1 + slack and ev.min() > 1 - slack,
                    "Student-t fit is off the weighted points: location by %r sd, scatter ratios %.3f..%.3f (%s)" %
                    (np.round(loc, 3).tolist(), ev.min(), ev.max(), tag))
        # shift, scale, permutation
        sh = rng.normal(size=d) * sd * 3
        v = vec(fit(z + sh, w, seed), d)
        m.check("shift equivariance", close((v[0] - sh, v[1]), (nm, nc), sd, et) and close((v[2] - sh, v[3]), (tm, tc), sd, et),
                "a shifted point set has another shape (%s)" % tag)
        k = 2.0 ** rng.integers(-12, 13, size=d) * rng.choice([1.0, 1.0, -1.0], size=d)
        v = vec(fit(z * k, w, seed), d)
        m.check("scale equivariance", close((v[0] / k, v[1] / np.outer(k, k)), (nm, nc), sd, et) and
                close((v[2] / k, v[3] / np.outer(k, k)), (tm, tc), sd, et), "rescaled coordinates have another shape (%s)" % tag)
        p = rng.permutation(d)
        v = vec(fit(z[:, p], w, seed), d)
        m.check("permutation equivariance", close((v[0], v[1]), (nm[p], nc[np.ix_(p, p)]), sd[p], et) and
                close((v[2], v[3]), (tm[p], tc[np.ix_(p, p)]), sd[p], et), "permuted coordinates have another shape (%s)" % tag)
        if w is not None:
            for f in (2.0 ** int(rng.integers(-30, 30)), float(n)):
                v = vec(fit(z, w * f, seed), d)
                # rounding may move one resampled point for a factor that is not a power of two
                et2 = et if f == 2.0 ** np.round(np.log2(f)) else et + 30 / n
                m.check("weight scale", close((v[0], v[1]), (nm, nc), sd, et) and close((v[2], v[3]), (tm, tc), sd, et2),
                        "weights times %g give another geometry (%s)" % (f, tag))
            # zero-weight points may be anywhere
            wz = w.copy()
            dead = rng.uniform(size=n) < 0.2
            wz[dead] = 0
            zz = z.copy()
            zz[dead] = zz[dead] + sd * rng.normal(0, 1e3, size=(dead.sum(), d))
            a, b = vec(fit(z, wz, seed), d), vec(fit(zz, wz, seed), d)
            m.check("zero weight ignored", close(a[:2], b[:2], sd, et) and close(a[2:4], b[2:4], sd, et) and a[4] == b[4],
                    "moving points of zero weight changes the geometry (%s)" % tag)
            a, b = vec(fit(z[~dead], wz[~dead], seed), d), vec(fit(zz, wz, seed), d)
            m.check("zero weight ignored", close(a[:2], b[:2], sd, et), "points of zero weight change mean or covariance (%s)" % tag)
        # a second fit of the same object depends only on the second data
        from pocomc.geometry import Geometry
        h = Geometry()
        y = points(rng, "skew", d, 60)
        h.fit(y)
        np.random.seed(seed)
        h.fit(z) if w is None else h.fit(z, weights=w)
        v = vec(h, d)
        m.check("refit forgets", close(v[:2], (nm, nc), sd, 1e-12) and close(v[2:4], (tm, tc), sd, 1e-12) and v[4] == nu,
                "the geometry depends on an earlier fit (%s)" % tag)
        if d > 1 or w is not None:
            m.key(fam, wt, d, n > 500)


def run_dof(c, m):
    from pocomc.student import fit_mvstud
    rng = np.random.default_rng(c["seed"])
    d, nu0 = c["d"], float(c["nu"])
    n = 6000
    A = np.linalg.cholesky(np.full((d, d), 0.5) + 0.5 * np.eye(d)) * 2
    z = rng.normal(size=(n, d)) @ A.T
    if np.isfinite(nu0):
        z = z / np.sqrt(rng.chisquare(nu0, size=(n, 1)) / nu0)
    z = z + 3.0
    keep = z.copy()
    S0 = A @ A.T
    for how in ("plain", "geometry", "weighted"):
        if how == "plain":
            mu, S, nu = fit_mvstud(z)
        else:
            g = fit(z, None if how == "geometry" else np.full(n, 1.0 / n), 5)
            mu, S, nu = g.t_mean, g.t_cov, g.t_nu
        m.check("input unchanged", np.array_equal(z, keep), "the data were modified")
        mu = np.asarray(mu, dtype=float).reshape(d)
        S = np.asarray(S, dtype=float).reshape(d, d)
        nu = float(nu)
        m.check("student finite and SPD", np.all(np.isfinite(mu)) and spd(S) and nu > 0, "dof %r: %r %r %r" % (nu0, mu, S, nu))
        m.check("student location of Student data", np.all(np.abs(mu - 3.0) < 8 * 2 * 1.6 / np.sqrt(n)),
                "location %r of Student-t data around 3" % (mu.tolist(),))
        if not np.isfinite(nu0):
            m.check("dof of Gaussian data", nu > 15, "Gaussian data are given %r degrees of freedom" % nu)
            m.check("student describes the points", np.all(np.abs(S / S0 - 1) < 0.2), "scatter %r, truth %r" % (S, S0))
        elif nu >= 1e5:
            m.judged("dof of Student data")
            m.finding("student-dof-never-fitted",
                      "fit_mvstud gives nu=inf (t_nu=1e6) on %d-dimensional Student-t data with %g degrees of freedom" % (d, nu0))
        else:
            m.check("dof of Student data", 0.7 * nu0 < nu < 1.45 * nu0, "data with %g degrees of freedom are given %r" % (nu0, nu))
            m.check("student scatter", np.all(np.abs(S / S0 - 1) < 0.25), "scatter %r, truth %r" % (S, S0))
    m.key("dof", d, nu0)


def run_run(sc, m):
    """Every fit of an ordinary run, and the geometry every kernel is given."""
    import pocomc.geometry as pg
    import pocomc.sampler as ps
    na = sc["cfg"]["n_active"]
    npr = sc["cfg"].get("n_prior")
    W = max((npr if npr is not None else 2 * max(sc["cfg"]["n_effective"] // na, 1) * na) // na, 1)
    seen = []
    orig = pg.Geometry.fit

    def wfit(self, theta, weights=None, *a, **k):
        out = orig(self, theta, weights, *a, **k)
        t = np.array(theta, dtype=float)
        w = None if weights is None else np.array(weights, dtype=float)
        neff = len(t) if w is None else ref.ess(w)
        if neff > 3 * t.shape[1] + 3 and np.linalg.matrix_rank(np.cov(t.T).reshape(t.shape[1], -1)) == t.shape[1]:
            judge_fit(m, self, t, w, "fit in a run", exact=1e-5)
            m.judged("fit within a run")
        return out

    def wrapper(name, f):
        pre = name.startswith("preconditioned")

        def wrap(state, funcs, opts, *a, **k):
            try:
                g = funcs["theta_geometry" if pre else "u_geometry"]
                seen.append((np.array(g.normal_mean), np.atleast_2d(np.array(g.normal_cov)), funcs.get("flow") if pre else None,
                             [p.detach().clone() for p in funcs["flow"].flow.parameters()] if pre else None, vec(g, len(sc["prior"]))))
            except Exception:
                seen.append(None)
            return f(state, funcs, opts, *a, **k)
        return wrap
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(pg.Geometry, "fit", wfit))
        for name in ("preconditioned_pcn", "preconditioned_rwm", "pcn", "rwm"):
            f = getattr(ps, name, None)
            if f is not None:
                st.enter_context(mock.patch.object(ps, name, wrapper(name, f)))
        r = rec.run(sc, n_evidence=0)
    res = r.s.results
    beta, logz, logl, U = res["beta"], res["logz"], res["logl"], res["u"]
    if len(seen) != len(beta) - W:
        m.note(kernel_calls="%d for %d iterations" % (len(seen), len(beta) - W))
        return
    import torch
    for t in range(W, len(beta)):
        if seen[t - W] is None:
            continue
        gm, gc, flow, par, views = seen[t - W]
        if flow is not None and t > W and seen[t - W - 1] is not None:
            was = seen[t - W - 1]
            if all(torch.equal(p, q) for p, q in zip(par, was[3])):
                # not trained in this iteration
                m.check("geometry kept between trainings", all(np.array_equal(a, b) for a, b in zip(views, was[4])),
                        "iteration %d: the flow is that of the iteration before but the geometry is not" % t)
                continue
        lw = ref.mixture_logw(logl[:t], beta[:t], logz[:t], beta[t])
        w = trimmed(np.asarray(ref.normalise(lw), dtype=float))
        u = np.concatenate(U[:t])
        if flow is not None:
            with torch.no_grad():
                now = [p.detach().clone() for p in flow.flow.parameters()]
                for p, q in zip(flow.flow.parameters(), par):
                    p.copy_(q)
                u = flow.forward(torch.as_tensor(u, dtype=torch.float32))[0].numpy().astype(float)
                for p, q in zip(flow.flow.parameters(), now):
                    p.copy_(q)
        keep = w > 0
        mu, C = moments(u[keep], w[keep])
        try:
            L = np.linalg.cholesky(C)
            ev = np.linalg.eigvalsh(np.linalg.solve(L, np.linalg.solve(L, gc).T))
            loc = np.linalg.solve(L, gm - mu)
        except np.linalg.LinAlgError:
            continue
        m.check("kernel geometry in a run", np.abs(loc).max() < 0.2 and ev.min() > 0.6 and ev.max() < 1.6,
                "iteration %d: the kernel's geometry is not that of the weighted particles: mean off by %.2f sd, covariance "
                "ratios %.2f..%.2f" % (t, np.abs(loc).max(), ev.min(), ev.max()))
        n_eff = ref.ess(w[keep])
        ltm = np.linalg.solve(L, views[2] - mu)
        m.check("kernel Student geometry in a run", np.all(np.isfinite(views[2])) and np.abs(ltm).max() < 3.0,
                "iteration %d: Student-t location %.2f sd from the weighted particles (ESS %.0f)" % (t, np.abs(ltm).max(), n_eff))
    m.key("run", gen.sig(sc))


def run(c, m):
    dict(fit=run_fit, dof=run_dof, run=run_run)[c["mode"]](c, m)
