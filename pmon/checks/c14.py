"""C14: a saved state resumes to exactly the run it was taken from."""
import os
import pickle
import re
import shutil

import numpy as np

from .. import gen, same, zygote

RULE = ("one case = one scenario run to the end with a state saved after every iteration, then resumed in fresh processes from "
        "states of every phase (before the start, warm-up, annealing, end; chains of resumes; continuation past the end; other "
        "pools), with the random-number state recorded at the save; results, posterior, evidence, counters, evaluated points "
        "and state files are compared with the uninterrupted run; distinct by scenario signature and phase of the save")
REQUIRED = ["resumed run", "resumed warm-up", "resumed annealing", "resumed end", "resumed before start", "evaluations after resume",
            "chained resume", "continuation past the end", "own pool", "state files", "state files after resume", "restored counters",
            "state file unchanged", "load_state restores"]
CPU = 240
SOFT = dict(quick=300, thorough=2400)


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for j in range(4):
        out += gen.scenarios(6 * k, seed, 1400 + j, kernel=gen.KERNELS[j], n_total=None)
    out += gen.scenarios(6 * k, seed, 1410, dynamic=True, n_prior=4.5)
    for i, sc in enumerate(out):
        sc["i"] = i
        sc["full"] = tier != "quick"
        sc["run"]["n_total"] = min(sc["run"]["n_total"], 300)
    return out


def recorder(scratch):
    import pocomc

    class Rec(pocomc.Sampler):
        def save_state(self, path):
            with open(os.path.join(scratch, "rng_%s.pkl" % os.path.basename(str(path))), "wb") as f:
                pickle.dump((same.get_rng(), gen.TOTAL[0], int(self.t)), f)
            super().save_state(path)
    return Rec


def fresh(sc, scratch, outdir, seed_shift, pool, label="pmc", cls=None):
    sc = dict(sc, cfg=dict(sc["cfg"], random_state=(sc["cfg"]["random_state"] + seed_shift) % 2**31))
    like = gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False)
    return gen.make_sampler(sc, cls=cls or recorder(scratch), like=like, pool=pool, output_dir=outdir, output_label=label)[0]


def resume_job(sc, scratch, path, rng, outdir, poolmode, save_every, run_kw):
    """In a fresh process: resume from `path` and run to the end."""
    gen.EVALS = []
    gen.TOTAL[0] = 0
    pool = gen.HostilePool(poolmode, 3) if poolmode else None
    s = fresh(sc, scratch, outdir, 17, pool)
    same.set_rng(rng)
    kw = dict(run_kw)
    s.run(progress=False, resume_state_path=path, save_every=save_every, **kw)
    return dict(snap=same.snapshot(s), evals=gen.EVALS, n=gen.TOTAL[0], tasks=None if pool is None else pool.tasks,
                own=(s.pool is pool), t=int(s.t))


def load_job(sc, scratch, path, outdir):
    """In a fresh process: only load the state."""
    s = fresh(sc, scratch, outdir, 5, None)
    s.load_state(path)
    r = same.snapshot(s, rng=False) if s.t > 0 else None
    return dict(snap=r, t=int(s.t), calls=int(s.calls))


def files(d):
    return sorted(os.listdir(d)) if os.path.isdir(d) else []


def expected_files(t0, T, k, label="pmc"):
    return sorted(["%s_%d.state" % (label, t) for t in range(t0 + k, T, k)] + ["%s_final.state" % label])


def run(sc, m):
    scratch = sc["_scratch"]
    z = zygote.Zygote()
    rng = np.random.default_rng(sc["seed"])
    i = sc["i"]
    vec = bool(sc["cfg"].get("vectorize", False))
    # the uninterrupted run
    gen.EVALS = []
    gen.TOTAL[0] = 0
    out0 = os.path.join(scratch, "a", "nested") if i % 2 else os.path.join(scratch, "a")
    s = gen.make_sampler(sc, cls=recorder(scratch), output_dir=out0,
                         like=gen.Like(sc["like"], vectorize=vec, record=False))[0]
    pre = os.path.join(scratch, "pre", "before.state")
    s.save_state(pre)
    s.run(progress=False, save_every=1, **sc["run"])
    T = int(s.t)
    rng_end = same.get_rng()
    base = same.snapshot(s)
    evals = list(gen.EVALS)
    n_end = gen.TOTAL[0]
    got = [f for f in files(out0) if f.endswith(".state")]
    m.check("state files", got == expected_files(0, T, 1), "state files %r after %d iterations with save_every=1" % (got, T))
    m.check("state files", not [f for f in files(out0) if not f.endswith(".state")], "left-over files %r" % files(out0))
    # keep the files apart: a resumed run may write to the directory named in the state
    keep = os.path.join(scratch, "keep")
    os.rename(out0, keep)
    nw = int(np.sum(np.asarray(base["results"]["beta"]) == 0))
    meta = {}
    for f in got + ["before.state"]:
        with open(os.path.join(scratch, "rng_%s.pkl" % f), "rb") as h:
            meta[f] = pickle.load(h)
    ts = [t for t in range(1, T)]
    warm = [t for t in ts if t < nw]
    ann = [t for t in ts if t >= nw]
    pick = []
    if warm:
        pick.append(("warm-up", int(rng.choice(warm))))
    if nw in ts:
        pick.append(("annealing", nw))
    rest = [t for t in ann if t != nw]
    for t in rng.permutation(rest)[:(2 if not sc["full"] else 6)]:
        pick.append(("annealing", int(t)))
    pick.append(("end", "final"))
    pick.append(("before start", "before"))
    pools = [None, "reverse", None, "random"]
    last = None
    for q, (phase, t) in enumerate(pick):
        f = "pmc_%s.state" % t if phase != "before start" else "before.state"
        path = os.path.join(keep, f) if phase != "before start" else pre
        st, n_at, t_at = meta[f]
        pm = None if vec else pools[(q + i) % 4]
        with open(path, "rb") as h:
            blob = h.read()
        k = [None, 1, 2, 3][(q + i) % 4]
        outd = os.path.join(scratch, "r%d" % q)
        shutil.rmtree(out0, ignore_errors=True)
        ok, r = z.call("pmon.checks.c14:resume_job", sc, scratch, path if q % 2 else __import__("pathlib").Path(path), st, outd, pm, k, sc["run"])
        tag = "resumed from %s (t=%s of %d, warm-up %d)" % (f, t_at, T, nw)
        m.key(gen.sig(sc), phase)
        if not m.check("resumed run", ok == "ok", "%s: %s" % (tag, r)):
            continue
        with open(path, "rb") as h:
            m.check("state file unchanged", h.read() == blob or k is not None, "loading changed the state file")
        if phase == "before start":
            # scipy's frozen distributions pickle a private copy of the random generator, so that the prior draws of
            # the resumed run need not be those of this one: it must be a complete run, the same each time
            ok, r2 = z.call("pmon.checks.c14:resume_job", sc, scratch, path, st, outd, None, None, sc["run"])
            d = same.differ(r["snap"], r2["snap"]) if ok == "ok" else [r2]
            m.check("resumed before start", not d and r["n"] == r["snap"]["counters"]["calls"] and
                    len(r["snap"]["results"]["beta"]) == r["t"] and np.isfinite(r["snap"]["evidence"]["logz"]),
                    "%s: %d evaluations, counted %r, differs when repeated in %s" % (tag, r["n"], r["snap"]["counters"], d[:4]))
            continue
        d = same.differ(base, r["snap"], skip=("rng", "evidence", "counters") if phase == "end" else ())
        m.check("resumed " + phase, not d, "%s differs from the uninterrupted run in %s" % (tag, ", ".join(d[:6])))
        if phase != "end":
            m.check("evaluations after resume", sorted(r["evals"]) == sorted(evals[n_at:]), "%s evaluates %d points, the uninterrupted run %d%s" %
                    (tag, len(r["evals"]), len(evals) - n_at, "" if len(r["evals"]) != len(evals) - n_at else ", other ones"))
        else:
            ne = n_end - meta["pmc_final.state"][1]
            m.check("evaluations after resume", r["n"] <= sc["run"]["n_evidence"] and r["t"] == T,
                    "%s of a finished run evaluates %d points and ends at t=%d" % (tag, r["n"], r["t"]))
        if pm:
            m.check("own pool", r["own"] and r["tasks"] == r["n"], "%s: %d of %d evaluations went through the resuming sampler's pool" %
                    (tag, r["tasks"], r["n"]))
        else:
            m.check("own pool", r["own"], "%s: pool of the resuming sampler replaced" % tag)
        if k is not None:
            wrote = sorted(files(outd) + files(out0))
            m.check("state files after resume", wrote == expected_files(t_at, T, k),
                    "%s with save_every=%d wrote %r, expected %r" % (tag, k, wrote, expected_files(t_at, T, k)))
        ok, l = z.call("pmon.checks.c14:load_job", sc, scratch, path, outd)
        if m.check("load_state restores", ok == "ok", "load_state(%s): %s" % (f, l)):
            m.check("load_state restores", l["t"] == t_at, "load_state(%s) gives t=%d" % (f, l["t"]))
            if l["snap"] is not None:
                a = l["snap"]["results"]
                bad = [x for x in a if x in ("x", "logl", "beta", "calls", "iter", "blobs", "steps") and a[x] is not None and
                       not same.same(a[x], np.asarray(base["results"][x])[:len(a[x])])]
                m.check("load_state restores", len(a["beta"]) == t_at and not bad, "state %s holds %d iterations; %r differ" % (f, len(a["beta"]), bad))
            m.check("restored counters", l["calls"] == n_at or phase == "end", "state %s says %d calls, %d were made" % (f, l["calls"], n_at))
    # chain: resume, save every 2, resume that
    if ts:
        t = int(rng.choice(ts))
        f = "pmc_%d.state" % t
        outd = os.path.join(scratch, "c1")
        shutil.rmtree(out0, ignore_errors=True)
        ok, r = z.call("pmon.checks.c14:resume_job", sc, os.path.join(scratch), os.path.join(keep, f), meta[f][0], outd, None, 1, sc["run"])
        if not os.path.isdir(outd) and os.path.isdir(out0):
            os.rename(out0, outd)
        second = [x for x in files(outd) if re.match(r"pmc_\d+\.state$", x)]
        if ok == "ok" and second:
            g = second[int(rng.integers(len(second)))]
            with open(os.path.join(scratch, "rng_%s.pkl" % g), "rb") as h:
                st = pickle.load(h)
            ok, r2 = z.call("pmon.checks.c14:resume_job", sc, scratch, os.path.join(outd, g), st[0], os.path.join(scratch, "c2"), None, 2, sc["run"])
            d = same.differ(base, r2["snap"]) if ok == "ok" else [r2]
            m.check("chained resume", not d, "resume from t=%d of a run resumed from t=%d differs in %s" % (st[2], t, ", ".join(d[:6])))
    # continuing a finished run: in place, and from its final state
    kw = dict(sc["run"], n_total=int(sc["run"]["n_total"] * 1.5) + 50)
    s.save_state(os.path.join(scratch, "fin", "user.state"))
    same.set_rng(rng_end)
    s.run(progress=False, **kw)
    cont = same.snapshot(s)
    for q, p in enumerate([os.path.join(scratch, "fin", "user.state"), os.path.join(keep, "pmc_final.state")]):
        ok, r = z.call("pmon.checks.c14:resume_job", sc, scratch, p, rng_end, os.path.join(scratch, "c3"), None, None, kw)
        d = same.differ(cont, r["snap"]) if ok == "ok" else [r]
        m.check("continuation past the end", not d, "continuing from %s differs from continuing in place in %s" % (os.path.basename(p), ", ".join(d[:6])))
    # another interval between state files
    k = int(rng.choice([2, 3, 5]))
    outd = os.path.join(scratch, "every")
    s2 = gen.make_sampler(sc, output_dir=outd, output_label="my.long label_%d_final", like=gen.Like(sc["like"], vectorize=vec, record=False))[0]
    s2.run(progress=False, save_every=k, **sc["run"])
    m.check("state files", files(outd) == expected_files(0, int(s2.t), k, "my.long label_%d_final"),
            "state files %r after %d iterations with save_every=%d" % (files(outd), s2.t, k))
    m.note(iterations=T, warmup=nw, resumed_from=[str(t) for _, t in pick])
    z.close()

