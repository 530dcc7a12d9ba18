"""C17: the MPI pool maps every task exactly once, in order, under any schedule.

No MPI is installed here: the real MPIPool runs over a simulated communicator
(pmon/mpisim.py) with one thread per rank, eager or synchronous sends, delayed
deliveries and a seeded scheduler that decides every interleaving."""
import atexit
import hashlib

import numpy as np

from .. import gen, mpisim, same

RULE = ("one case = a block of simulated worlds (1 to 9 ranks, 0 to 33000 tasks, several maps per pool, task durations, eager or "
        "synchronous sends, scheduler weights and delivery lag all from a seed); monitors judge every send, evaluation and "
        "result; distinct by the executed interleaving (hash of the schedule)")
REQUIRED = ["terminates", "results in order", "evaluated exactly once", "one task per worker at a time", "workers stop",
            "refused without workers", "pool reused", "sampler over MPI"]
ASSUMPTIONS = ["the simulated communicator follows MPI: messages between two ranks do not overtake, send may or may not wait "
               "for the receiver, the shutdown message (an empty object) is buffered"]
CPU = 200
SOFT = dict(quick=240, thorough=1500)


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [dict(kind="worlds", seed=seed * 1000003 + i * 1000, n=40) for i in range(40 * k)]
    out += [dict(kind="big", seed=seed * 1000003 + 500000 + i, n=n) for i, n in enumerate([300, 1100, 2100, 5000, 33000] * (1 if tier == "quick" else 4))]
    if tier != "quick":
        out += [dict(kind="big", seed=seed * 1000003 + 600000 + i, n=n) for i, n in enumerate([70000, 140000])]
    out += [dict(kind="sampler", seed=seed * 1000003 + i, i=i) for i in range(6 * k)]
    return out


EVAL = []


class Work:
    """The mapped function."""

    def __init__(self, uid, kind, fast):
        self.uid = uid
        self.kind = kind
        self.fast = fast

    def __call__(self, arg):
        w = mpisim.CURRENT[0]
        i, dur, val = arg
        EVAL.append((self.uid, int(i), w.rank()))
        for _ in range(int(dur)):
            w.yield_()
        return expected(self.uid, self.kind, i, val)


def expected(uid, kind, i, val):
    if kind == 0:
        return (uid, int(i), float(val))
    if kind == 1:
        return None if i % 3 == 0 else float(val)
    if kind == 2:
        return np.array([val, uid, i])
    return [] if i % 2 else 0


def equal(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def run(c, m):
    mp = mpisim.install()
    from pocomc import parallel
    if getattr(parallel, "MPI", None) is not None:
        parallel.MPI = None
    real = atexit.register
    world = [None]

    def register(f, *a, **k):
        w = mpisim.CURRENT[0]
        if w is not None and getattr(w.local, "rank", None) is not None:
            w.exits[w.rank()].append((f, a, k))
            return f
        return real(f, *a, **k)
    atexit.register = register
    try:
        if c["kind"] == "worlds":
            for q in range(c["n"]):
                one_world(c["seed"] + q, m, mp, parallel)
        elif c["kind"] == "big":
            one_world(c["seed"], m, mp, parallel, big=c["n"])
        else:
            sampler_world(c, m, mp, parallel)
    finally:
        atexit.register = real


class Poisoned:
    """Stands for a world communicator that a pool with its own communicator must not touch."""

    def __getattr__(self, name):
        raise RuntimeError("COMM_WORLD.%s used by a pool that was given another communicator" % name)


def one_world(seed, m, mp, parallel, big=0):
    rng = np.random.default_rng(seed)
    size = int(rng.choice([1, 2, 2, 3, 3, 4, 5, 9]))
    mode = ["eager", "sync"][int(rng.integers(2))]
    maps = []
    for k in range(int(rng.choice([0, 1, 1, 2, 3, 4]))):
        n = int(rng.choice([0, 1, 2, 3, 5, size - 1, size, 2 * size, 20, 60], p=[.05, .1, .1, .1, .15, .1, .1, .1, .15, .05]))
        slow = rng.uniform() < 0.3
        dur = rng.integers(0, 30 if slow else 3, n)
        if n and rng.uniform() < 0.3:
            dur[int(rng.integers(n))] = 200
        maps.append((k, int(rng.integers(4)), [(i, int(dur[i]), float(rng.normal())) for i in range(n)],
                     ["list", "gen", "tuple", "array"][int(rng.integers(4))]))
    if big:
        size = int(rng.choice([2, 3, 5]))
        maps = [(0, int(rng.integers(4)), [(i, 0, float(i)) for i in range(big)], "list"), (1, 0, [(i, 0, 1.0 * i) for i in range(7)], "list")]
    # a pool over its own communicator: the world's must not be touched
    own = mp.COMM_WORLD if seed % 4 == 1 else None
    style = ["with", "close", "atexit", "close twice"][int(rng.integers(4))]
    w = mpisim.World(size, seed, mode, pickle=mp.pickle, max_steps=400000 + 200 * big)
    mpisim.CURRENT[0] = w
    EVAL.clear()
    out = {}
    busy = {}
    over = []

    def on_event(kind, me, other, tag, obj):
        if kind == "send" and me == 0 and obj is not None:
            busy[other] = busy.get(other, 0) + 1
            if busy[other] > 1:
                over.append(other)
        elif kind == "send" and me != 0:
            busy[me] = busy.get(me, 0) - 1
    w.on_event = on_event

    def use(pool):
        for k, kind, tasks, how in maps:
            f = Work(k, kind, False)
            if how == "gen":
                arg = (t for t in tasks)
            elif how == "tuple":
                arg = tuple(tasks)
            elif how == "array":
                arg = np.array(tasks, dtype=float).reshape(len(tasks), 3)
            else:
                arg = list(tasks)
            out[k] = pool.map(f, arg)

    def master():
        if style == "with":
            with parallel.MPIPool(comm=own) as pool:
                use(pool)
        else:
            pool = parallel.MPIPool(comm=own)
            use(pool)
            if style.startswith("close"):
                pool.close()
            if style == "close twice" and mode == "eager":
                pool.close()
        return "done"

    def worker():
        parallel.MPIPool(comm=own)
        return "came back"
    if own is not None:
        mp.COMM_WORLD = Poisoned()
    try:
        why = w.run([master] + [worker] * (size - 1))
    finally:
        if own is not None:
            mp.COMM_WORLD = own
    tag = "seed %d: %d ranks, %s sends, maps of %r tasks, shut down by %s" % (seed, size, mode, [len(t) for _, _, t, _ in maps], style)
    m.key(hashlib.sha1(repr(w.trace).encode()).hexdigest()[:12])
    if size == 1:
        o = w.outcome[0]
        m.check("refused without workers", o is not None and o[0] == "raised" and isinstance(o[1], ValueError), "a pool without workers gave %r (%s)" % (o, why))
        return
    if not m.check("terminates", why is None, "%s (%s)" % (why, tag)):
        return
    o = w.outcome[0]
    if not m.check("terminates", o == ("returned", "done"), "the master ended with %r (%s)" % (o, tag)):
        return
    for k, kind, tasks, how in maps:
        r = out.get(k)
        want = [expected(k, kind, i, v) for i, d, v in tasks]
        m.check("results in order", r is not None and len(r) == len(want) and all(equal(a, b) for a, b in zip(r, want)),
                "map %d returned %.2000r, expected %.2000r (%s)" % (k, r, want, tag))
    ev = sorted((u, i) for u, i, _ in EVAL)
    want = sorted((k, i) for k, _, tasks, _ in maps for i, _, _ in tasks)
    m.judged("evaluated exactly once", len(want))
    if ev != want:
        m.violation("evaluated exactly once: %d evaluations for %d tasks (%s)" % (len(ev), len(want), tag))
    m.judged("one task per worker at a time", len(want))
    if over or any(r == 0 for _, _, r in EVAL):
        m.violation("one task per worker at a time: workers %r were sent a second task (%s)" % (sorted(set(over)), tag))
    m.check("workers stop", all(w.outcome[r] is not None and w.outcome[r][0] == "exit" and not w.outcome[r][1] for r in range(1, size)),
            "workers ended with %r (%s)" % (w.outcome[1:], tag))
    if len([1 for t in maps if t[2]]) > 1:
        m.judged("pool reused")


def sampler_world(c, m, mp, parallel):
    sc = gen.scenarios(1, c["seed"], salt=17, kernel=gen.KERNELS[2 + c["i"] % 2], eval="serial", n_total=120, n_evidence=0, n_active=16,
                       dim=[1, 2][c["i"] % 2], blob=[None, "f2", "str"][c["i"] % 3])[0]
    s, _, _, _ = gen.make_sampler(sc, like=gen.Like(sc["like"], record=False))
    s.run(progress=False, **sc["run"])
    base = same.snapshot(s)
    size = 2 + c["i"] % 4
    w = mpisim.World(size, c["seed"], ["eager", "sync"][c["i"] % 2], max_steps=5000000, pickle=mp.pickle)
    mpisim.CURRENT[0] = w
    snap = []

    def master():
        with parallel.MPIPool() as pool:
            s2 = gen.make_sampler(sc, like=gen.Like(sc["like"], record=False), pool=pool)[0]
            s2.run(progress=False, **sc["run"])
            snap.append(same.snapshot(s2))
        return "done"

    def worker():
        parallel.MPIPool()
    why = w.run([master] + [worker] * (size - 1))
    ok = why is None and w.outcome[0] == ("returned", "done")
    d = same.differ(base, snap[0]) if ok else []
    m.key("sampler", c["seed"])
    m.check("sampler over MPI", ok and not d, "a run over the MPI pool: %r %r, differs from the serial run in %s" % (why, w.outcome[0], d[:5]))
