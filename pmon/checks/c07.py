"""C07: the bound reparameterisation is a bijection with the right Jacobian."""
import itertools

import numpy as np

RULE = ("one case = a block of generated reparameterisations (kinds of bounds per parameter, locations and widths over many "
        "orders of magnitude, transform, scaling, way of writing the bounds), each put through all oracles at random and "
        "adversarial points; distinct by kinds, transform and scaling")
REQUIRED = ["x round trip", "u round trip", "containment", "points on bounds", "Jacobian", "tail Jacobian", "fit moments",
            "refusal", "input unchanged", "rows independent"]
CPU = 120
SOFT = dict(quick=200, thorough=1500)
KINDS = ["none", "left", "right", "both"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 6000
    out = []
    combos = list(itertools.product(["probit", "logit"], ["none", "diag", "full"]))
    for i in range(n):
        t, s = combos[i % len(combos)]
        out.append(dict(transform=t, scaling=s, seed=seed * 1000003 + i, n=12))
    return out


def build(rng, c):
    d = int(rng.choice([1, 2, 3, 4, 6]))
    kinds = [KINDS[int(rng.integers(4))] for _ in range(d)]
    style = int(rng.integers(6))
    loc = rng.normal(0, 1, d) * 10.0 ** rng.integers(-2, 3, d)
    wid = 10.0 ** rng.uniform(-2, 3, d)
    if rng.uniform() < 0.5:
        loc = loc * (rng.uniform(size=d) < 0.3)
    if rng.uniform() < 0.25:                          # parameters of tiny or huge scale
        k = 10.0 ** rng.uniform(-9, 7, d)
        loc, wid = loc / (1 + np.abs(loc)) * k, k
    low = np.where([k in ("left", "both") for k in kinds], loc, -np.inf)
    high = np.where([k in ("right", "both") for k in kinds], loc + wid, np.inf)
    bounds = np.array([low, high]).T
    arg = bounds
    if style == 0:                                    # no bounds at all
        kinds = ["none"] * d
        bounds = np.tile([-np.inf, np.inf], (d, 1))
        arg = None
    elif style == 1 and d != 2:                       # one shared pair
        kinds = [kinds[0]] * d
        bounds = np.tile(bounds[0], (d, 1))
        arg = [float(bounds[0, 0]), float(bounds[0, 1])]
        loc, wid = np.full(d, loc[0]), np.full(d, wid[0])
    elif style == 2:                                  # NaN for a missing bound
        arg = np.where(np.isfinite(bounds), bounds, np.nan)
    return d, kinds, bounds, arg, loc, wid


def inside(rng, n, kinds, loc, wid, spread=1.0):
    d = len(kinds)
    A = np.eye(d) + 0.3 * rng.normal(size=(d, d))
    z = rng.normal(size=(n, d)) @ A * spread
    x = np.empty((n, d))
    for i, k in enumerate(kinds):
        if k == "none":
            x[:, i] = loc[i] + wid[i] * z[:, i]
        elif k == "left":
            x[:, i] = loc[i] + wid[i] * np.exp(z[:, i])
        elif k == "right":
            x[:, i] = loc[i] + wid[i] - wid[i] * np.exp(z[:, i])
        else:
            x[:, i] = loc[i] + wid[i] / (1 + np.exp(-z[:, i]))
    return x


def fd_logdet(f, u):
    """log |det| of the derivative of f at each row of u, by a five-point stencil, and its uncertainty."""
    n, d = u.shape
    h = 2e-3
    J = np.empty((n, d, d))
    mag = np.zeros((n, d))
    for j in range(d):
        e = np.zeros(d)
        e[j] = h
        a, b, p, q = f(u - 2 * e), f(u - e), f(u + e), f(u + 2 * e)
        J[:, :, j] = (8 * (p - b) - (q - a)) / (12 * h)
        mag = np.maximum(mag, np.abs(q))
    err = 20 * np.finfo(float).eps * mag / h
    s, ld = np.linalg.slogdet(J)
    inv = np.linalg.inv(J + 1e-300 * np.eye(d))
    unc = np.einsum("nij,nj->n", np.abs(inv), err) * d + 1e-7
    return ld, unc


def run(c, m):
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(c["seed"])
    eps = np.finfo(float).eps
    for rep in range(c["n"]):
        d, kinds, bounds, arg, loc, wid = build(rng, c)
        low, high = bounds.T
        scale = c["scaling"] != "none"
        diag = c["scaling"] != "full"
        n = int(rng.choice([60, 300, 1000]))
        kw = dict(transform=c["transform"], scale=scale, diagonal=diag)
        R = Reparameterize(d, arg if arg is None else (list(arg) if isinstance(arg, list) else arg.copy()), **kw)
        X = inside(rng, n, kinds, loc, wid, spread=float(rng.choice([1.0, 1.0, 1.0, 1e-4])))
        X = np.clip(X, low, high)
        X0 = X.copy()
        if scale:
            R.fit(X)
        U = R.forward(X)
        tag = "%s %s %s %s" % (c["transform"], c["scaling"], kinds, "fit n=%d" % n)
        m.key(c["transform"], c["scaling"], "".join(sorted(k[0] for k in kinds)), type(arg).__name__)
        m.check("input unchanged", np.array_equal(X, X0), "fit/forward changed their input (%s)" % tag)
        m.check("shape", U.shape == X.shape, "latent shape %r for %r" % (U.shape, X.shape))
        if scale:
            mu = U.mean(axis=0)
            far = np.max(np.abs(X).max(axis=0) / X.std(axis=0))      # rounding of data far from zero
            ok = np.all(np.abs(mu) < 1e-7 + 1e4 * eps * far)
            C = np.atleast_2d(np.cov(U.T, ddof=0))
            tv = 1.1 / n + 1e-6 + 1e4 * eps * far
            ok = ok and np.all(np.abs(np.diag(C) - 1) < tv)
            if not diag:
                ok = ok and np.all(np.abs(C - np.eye(d)) < tv)
            m.check("fit moments", ok, "fitted data do not have mean 0 and (co)variance 1 (%s)" % tag, mean=mu, cov=C)

        # x -> u -> x, with adversarial points
        P = inside(rng, 60, kinds, loc, wid, spread=2.0)
        for i, k in enumerate(kinds):
            if k == "both":
                q = rng.choice([1e-11, 1e-9, 1e-6, 1e-3, 0.1, 0.5], size=30)
                q = np.where(rng.uniform(size=30) < 0.5, q, 1 - q)
                P[:30, i] = low[i] + q * (high[i] - low[i])
            elif k == "left":
                P[:30, i] = low[i] + wid[i] * 10.0 ** rng.uniform(-9, 6, 30)
            elif k == "right":
                P[:30, i] = high[i] - wid[i] * 10.0 ** rng.uniform(-9, 6, 30)
            else:
                P[:30, i] = loc[i] + wid[i] * rng.normal(size=30) * 10.0 ** rng.uniform(-6, 6, 30)
        for i, k in enumerate(kinds):
            if k == "left":
                P[:, i] = np.maximum(P[:, i], np.nextafter(low[i], np.inf))
            elif k == "right":
                P[:, i] = np.minimum(P[:, i], np.nextafter(high[i], -np.inf))
        P = np.clip(P, low, high)
        UP = R.forward(P)
        X2, LJ = R.inverse(UP)
        amp = 1.0
        if scale and not diag:
            amp = 1e3                       # conditioning of the covariance
        tol = np.empty_like(P)
        for i, k in enumerate(kinds):
            if k == "both":
                tol[:, i] = amp * 1e-12 * wid[i] + 20 * eps * (abs(low[i]) + abs(high[i]))
            elif k == "none":
                tol[:, i] = amp * 1e-12 * (np.abs(P[:, i]) + abs(loc[i]) + wid[i] + np.abs(X[:, i]).max())
            else:
                b = low[i] if k == "left" else high[i]
                tol[:, i] = amp * 1e-11 * np.abs(P[:, i] - b) + 20 * eps * abs(b) + 20 * eps * np.abs(P[:, i])
        bad = np.abs(X2 - P) > tol
        if not diag and scale:
            # error of the mixed latent coordinates: eps * sum |L| |u|, at most
            T = R._forward(P) if hasattr(R, "_forward") else None
            if T is not None:
                du = 1e3 * eps * (np.abs(T).max(axis=1, keepdims=True) + np.abs(UP).sum(axis=1, keepdims=True) *
                                  np.abs(T).max())
                g = np.empty_like(P)
                for i, k in enumerate(kinds):
                    g[:, i] = wid[i] if k == "both" else 1.0 if k == "none" else np.abs(P[:, i] - (low[i] if k == "left" else high[i]))
                bad &= np.abs(X2 - P) > tol + du * g
        m.judged("x round trip", P.size)
        if np.any(bad) or not np.all(np.isfinite(UP)):
            r = np.argwhere(bad | ~np.isfinite(UP))[0]
            m.violation("x round trip: inverse(forward(x)) = %r for x = %r (%s)" % (X2[r[0], r[1]], P[r[0], r[1]], tag),
                        kind=kinds[r[1]], bounds=bounds[r[1]], u=UP[r[0], r[1]])

        # u -> x -> u, Jacobian
        u = rng.normal(0, 1.2, size=(12, d))
        if not scale:
            for i, k in enumerate(kinds):
                if k == "none":
                    u[:, i] = loc[i] + wid[i] * u[:, i]
                elif k != "both":
                    u[:, i] += np.log(wid[i])
        u0 = u.copy()
        x, lj = R.inverse(u)
        m.check("input unchanged", np.array_equal(u, u0), "inverse changed its input (%s)" % tag)
        m.check("shape", np.shape(x) == u.shape and np.shape(lj) == (len(u),), "inverse gave shapes %r, %r" % (np.shape(x), np.shape(lj)))
        f = lambda v: R.inverse(v)[0]
        ld, unc = fd_logdet(f, u)
        good = unc < 0.02
        m.judged("Jacobian", int(good.sum()))
        err = np.abs(ld - lj)
        if np.any(good & ~(err < unc)):
            r = int(np.argmax(np.where(good, np.where(np.isfinite(err), err, np.inf), -1)))
            m.violation("Jacobian: log-Jacobian %r, derivative of the inverse map gives %r (%s)" % (lj[r], ld[r], tag),
                        u=u[r], unc=unc[r], bounds=bounds)
        ok = np.all((x > low) & (x < high), axis=1) & good & (unc < 1e-4)
        if np.any(ok):
            ub = R.forward(x[ok])
            sl = np.abs(u[ok]) + 1 + (np.abs(u[ok]).max(axis=1, keepdims=True) if not diag else 0)
            m.judged("u round trip", int(ok.sum()))
            b = np.abs(ub - u[ok]) > 3e-5 * sl
            if np.any(b):
                r = np.argwhere(b)[0]
                m.violation("u round trip: forward(inverse(u)) = %r for u = %r (%s)" % (ub[r[0], r[1]], u[ok][r[0], r[1]], tag))

        # rows independent
        xi, li = R.inverse(u[3:4])
        m.check("rows independent", np.allclose(xi[0], x[3], rtol=1e-13, atol=0, equal_nan=True) and np.allclose(li[0], lj[3], rtol=1e-12),
                "a row maps differently alone and in a batch (%s)" % tag)
        fi = R.forward(P[5:6])
        m.check("rows independent", np.allclose(fi[0], UP[5], rtol=1e-12, atol=1e-14), "a row maps differently alone and in a batch (%s)" % tag)

        # containment, for any finite latent point
        v = rng.normal(size=(40, d)) * 10.0 ** rng.uniform(-2, 4, size=(40, 1))
        v[0] = 0.0
        v[1] = 700.0
        v[2] = -700.0
        xv, lv = R.inverse(v)
        slack = 8 * eps * np.where(np.isfinite(low), np.abs(low), 0) + 8 * eps * np.where(np.isfinite(high), np.abs(high), 0)
        inb = (xv >= low - slack) & (xv <= high + slack)
        fin = np.array([k in ("both", "none") for k in kinds])
        m.judged("containment", v.size)
        if not np.all(inb) or not np.all(np.isfinite(xv[:, fin])):
            r = np.argwhere(~inb | (~np.isfinite(xv) & fin))[0]
            m.violation("containment: u = %r maps to %r outside %r (%s)" % (v[r[0]], xv[r[0], r[1]], bounds[r[1]], tag))
        m.check("Jacobian is a number", not np.any(np.isnan(lv)), "log-Jacobian is NaN (%s)" % tag)

        # points on two-sided bounds
        both = [i for i, k in enumerate(kinds) if k == "both"]
        if both:
            Q = inside(rng, 4, kinds, loc, wid)
            Q = np.clip(Q, low, high)
            i = both[int(rng.integers(len(both)))]
            Q[0, i] = low[i]
            Q[1, i] = high[i]
            uq = R.forward(Q)
            xq, _ = R.inverse(uq)
            ok = np.all(np.isfinite(uq)) and np.all(np.abs(xq - Q)[:2, i] <= amp * 1e-10 * wid[i] + 100 * eps * (abs(low[i]) + abs(high[i])))
            m.check("points on bounds", ok, "points on the bounds %r map to %r and back to %r (%s)" % (bounds[i], uq[:2, i], xq[:2, i], tag))

        # refusal
        fini = [(i, s) for i in range(d) for s in (0, 1) if np.isfinite(bounds[i, s])]
        for i, s in fini[:3]:
            Q = inside(rng, 5, kinds, loc, wid)
            Q = np.clip(Q, low, high)
            off = float(rng.choice([0.0, 1e-12, 1e-9, 1e-6, 1e-2, 1.0, 100.0])) * wid[i]
            row = int(rng.integers(5))
            Q[row, i] = np.nextafter(bounds[i, s], np.inf if s else -np.inf) + (off if s else -off)
            if rng.uniform() < 0.05:
                Q[row, i] = np.nan
            for name, call in (("forward", R.forward), ("forward(check_input=True)", lambda q: R.forward(q, check_input=True)),
                               ("fit", Reparameterize(d, bounds, **kw).fit)):
                try:
                    call(Q)
                    raised = False
                except ValueError:
                    raised = True
                m.check("refusal", raised, "%s accepted a point %g outside bound %d of parameter %d (%s)" % (name, off, s, i, tag))

    # the tails in one dimension, where the derivative can be resolved
    for t in (c["transform"],):
        w = 10.0 ** rng.uniform(-2, 3)
        for b, lo, hi, us in ((np.array([[0.0, w]]), 0, 1, np.linspace(-25, 3, 30) if t == "logit" else np.linspace(-6, 3, 20)),
                              (np.array([[-w, 0.0]]), 0, 1, np.linspace(-3, 5.5, 20)),
                              (np.array([[0.0, np.inf]]), 0, 1, np.linspace(-60, 60, 30)),
                              (np.array([[-np.inf, 0.0]]), 0, 1, np.linspace(-60, 60, 30))):
            R = Reparameterize(1, b, transform=t, scale=False)
            u = us[:, None] + 0.01 * rng.normal()
            x, lj = R.inverse(u)
            h = 1e-2
            g = lambda k: R.inverse(u + k * h)[0][:, 0]
            dx = (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h)
            aerr = 1e-15 * w if np.all(np.isfinite(b)) and (t == "probit" or b[0, 0] < 0) else 0.0
            aerr = 8 * aerr + 8e-16 * np.abs(x[:, 0]) * (1 if np.all(np.isfinite(b)) else 1)
            unc = aerr / h / np.abs(dx) + 1e-5
            ok = unc < 0.1
            m.judged("tail Jacobian", int(ok.sum()))
            bad = ok & ~(np.abs(np.log(np.abs(dx)) - lj) < unc)
            if np.any(bad):
                r = int(np.flatnonzero(bad)[0])
                m.violation("tail Jacobian: log-Jacobian %r at u = %r, derivative gives %r (%s, bounds %r)" %
                            (lj[r], u[r, 0], np.log(abs(dx[r])), t, b.tolist()))
    # far in the tails of a two-sided parameter the Jacobian keeps decreasing
    R = Reparameterize(1, np.array([[1.0, 3.0]]), transform=c["transform"], scale=False)
    for sgn in (-1, 1):
        u = sgn * np.array([[10.0], [20.0], [30.0], [36.0], [40.0], [100.0], [600.0]])
        lj = R.inverse(u)[1]
        m.check("tail Jacobian", np.all(np.isfinite(lj)) and np.all(np.diff(lj) < 0),
                "log-Jacobian of a two-sided parameter in the tail is %r at u = %r" % (lj, u[:, 0]))
