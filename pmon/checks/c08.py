"""C08: periodic and reflective wrapping folds points into the bounds."""
import numpy as np

RULE = ("one case = a block of generated bound boxes and declarations (periodic only, reflective only, both, none), each "
        "applied to points inside, on, just outside and up to thousands of periods outside the bounds on both sides; distinct "
        "by declaration, side and number of crossings")
REQUIRED = ["periodic", "reflective", "inside unchanged", "undeclared unchanged", "input unchanged", "in bounds"]
CPU = 120
SOFT = dict(quick=200, thorough=1500)


def cases(tier, seed):
    n = 96 if tier == "quick" else 1500
    return [dict(mode=["periodic", "reflective", "both", "none"][i % 4 if i % 8 != 7 else 2], seed=seed * 1000003 + i, n=12)
            for i in range(n)]


def run(c, m):
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(c["seed"])
    eps = np.finfo(float).eps
    for rep in range(c["n"]):
        d = int(rng.choice([1, 2, 3, 5]))
        low = rng.normal(size=d) * 10.0 ** rng.integers(-2, 3, d)
        wid = 10.0 ** rng.uniform(-2, 2, d)
        special = rng.uniform(size=d)
        low = np.where(special < 0.3, 0.0, low)
        wid = np.where(special < 0.15, 2 * np.pi, wid)
        bounds = np.array([low, low + wid]).T
        high = bounds[:, 1]
        wid = high - low
        idx = rng.permutation(d)
        per = ref = None
        if c["mode"] == "periodic":
            per = idx[:int(rng.integers(0, d + 1))]
        elif c["mode"] == "reflective":
            ref = idx[:int(rng.integers(0, d + 1))]
        elif c["mode"] == "both":
            k = int(rng.integers(0, d + 1))
            per, ref = idx[:k], idx[k:int(rng.integers(k, d + 1))]
        # undeclared parameters need no bounds
        for i in range(d):
            if (per is None or i not in per) and (ref is None or i not in ref) and rng.uniform() < 0.5:
                bounds[i] = [[-np.inf, np.inf], [low[i], np.inf], [-np.inf, high[i]]][int(rng.integers(3))]
        conv = [list, tuple, np.array][int(rng.integers(3))]
        ints = (lambda a: None if a is None else conv([int(v) for v in a]))
        kw = dict(periodic=ints(per), reflective=ints(ref))
        R = Reparameterize(d, bounds, transform=["probit", "logit"][int(rng.integers(2))], **kw)
        n = int(rng.choice([1, 2, 7, 40]))
        k = np.where(rng.uniform(size=(n, d)) < 0.5, rng.integers(-3, 4, size=(n, d)),
                     np.rint(rng.normal(size=(n, d)) * 10.0 ** rng.uniform(0, 3, size=(n, d))))
        frac = rng.uniform(size=(n, d))
        frac = np.where(rng.uniform(size=(n, d)) < 0.1, rng.choice([0.0, 1.0, 1e-12, 1 - 1e-12, 0.5], size=(n, d)), frac)
        x = low + (k + frac) * wid
        ins = rng.uniform(size=(n, d)) < 0.25
        x = np.where(ins, np.clip(low + frac * wid, low, high), x)
        edge = rng.uniform(size=(n, d)) < 0.04
        x = np.where(edge, np.where(rng.uniform(size=(n, d)) < 0.5, low, high), x)
        if c["mode"] == "both" and rng.uniform() < 0.3:
            x = np.asfortranarray(x)
        x0 = x.copy()
        y = R.apply_boundary_conditions_x(x)
        m.check("input unchanged", np.array_equal(x, x0), "apply_boundary_conditions_x changed its input (%r)" % kw)
        if not m.check("shape", np.shape(y) == x.shape, "shape %r for %r" % (np.shape(y), x.shape)):
            continue
        for i in range(d):
            dec = "periodic" if per is not None and i in per else "reflective" if ref is not None and i in ref else None
            a, b, w = low[i], high[i], wid[i]
            xi, yi = x0[:, i], y[:, i]
            if dec is None:
                m.judged("undeclared unchanged", n)
                if not np.array_equal(xi, yi):
                    m.violation("undeclared unchanged: parameter %d is not declared but was changed (%r)" % (i, kw))
                continue
            inside = (xi >= a) & (xi <= b)
            m.judged("inside unchanged", int(inside.sum()))
            if not np.array_equal(xi[inside], yi[inside]):
                m.violation("inside unchanged: %s parameter %d changed a point inside %r: %r -> %r" %
                            (dec, i, [a, b], xi[inside], yi[inside]))
            m.judged("in bounds", n)
            if not np.all((yi >= a) & (yi <= b)):
                j = int(np.argmin((yi >= a) & (yi <= b)))
                m.violation("in bounds: %s parameter %d maps %r to %r outside %r" % (dec, i, xi[j], yi[j], [a, b]))
            cross = np.abs((xi - a) / w)
            tol = 4 * eps * (cross + 2) * (np.abs(xi) + abs(a) + abs(b)) + 1e-12 * w
            if dec == "periodic":
                r = (yi - xi) / w
                dist = np.abs(r - np.rint(r)) * w
            else:
                t = np.mod(xi - a, 2 * w)
                t = np.where(t <= w, t, 2 * w - t)
                dist = np.abs(a + t - yi)
            m.judged(dec, int((~inside).sum()))
            if np.any(dist > tol):
                j = int(np.argmax(dist - tol))
                m.violation("%s: parameter %d with bounds %r maps %r to %r" % (dec, i, [a, b], xi[j], yi[j]), tol=tol[j])
            for j in np.flatnonzero(~inside):
                m.key(dec, "above" if xi[j] > b else "below", int(np.ceil(np.log2(cross[j] + 1))), c["mode"])
