"""C15: a crash or I/O error while saving never loses the previous state file."""
import collections
import ctypes
import errno
import hashlib
import os
import shutil
import signal

import numpy as np

from .. import gen, same

LEVEL = "fault_enumeration"
PRELOAD = True
RULE = ("one case = one way of saving one sampler state (over an old state, to a new path, with left-over temporary files, "
        "relative and nested paths), saved once for its trace of file operations and then once more per (operation, fault): "
        "every operation x {killed before, killed after, killed in the middle of a write, short write, EIO, ENOSPC, EINTR, "
        "short write then ENOSPC}; all enumerated; distinct by operation, fault and outcome")
REQUIRED = ["clean save", "killed: old or new", "error: old or new", "returned: new", "save works afterwards", "power loss",
            "directories created", "error during a run"]
ASSUMPTIONS = ["file operations go through libc (checked: the trace of a clean save contains the writes and the rename or "
               "write of the target)", "POSIX rename is atomic; unsynced data may be lost on power loss in any combination"]
CPU = 240
SOFT = dict(quick=300, thorough=1500)
KB, KA, SK, ER, SE, SH = 1, 2, 3, 4, 5, 6
NAMES = {KB: "killed before", KA: "killed after", SK: "killed in a write", ER: "error", SE: "short write then error", SH: "short write"}


def cases(tier, seed):
    out = []
    modes = ["over", "over", "new", "stale", "relative", "nested", "path", "over", "nodot", "samename"]
    k = 1 if tier == "quick" else 5
    for i, sc in enumerate(gen.scenarios(10 * k, seed, 1500, eval="serial", n_total=None)):
        sc["run"]["n_total"] = 120
        sc["mode"] = modes[i % len(modes)]
        sc["i"] = i
        out.append(sc)
    for i, sc in enumerate(gen.scenarios(2 * k, seed, 1501, eval="serial", kernel=("rwm", False), blob=None)):
        sc["run"]["n_total"] = 120
        sc["mode"] = "run"
        sc["i"] = i
        out.append(sc)
    return out


def lib():
    L = ctypes.CDLL(None)
    assert L.pmon_loaded() == 4711
    return L


PROBE = []


def load(path):
    """What the path holds: None (missing), the digest of a complete state, or 'broken'."""
    if not os.path.exists(path):
        return None
    p = PROBE[0]
    try:
        p.load_state(path)
        snap = same.snapshot(p, rng=False)
    except Exception as e:
        return "broken: %s" % type(e).__name__
    h = hashlib.sha1()
    for g in sorted(snap):
        for k in sorted(snap[g]):
            v = snap[g][k]
            h.update(("%s.%s" % (g, k)).encode())
            if isinstance(v, np.ndarray) and not v.dtype.hasobject:
                h.update(v.tobytes())
            else:
                h.update(repr(v.tolist() if isinstance(v, np.ndarray) else v).encode())
    for k, v in sorted(p.flow.flow.state_dict().items()) if hasattr(p.flow, "flow") else []:
        h.update(v.numpy().tobytes())
    return h.hexdigest()


def attempt(s, path, watch, fault, at, err, tracefile):
    """save_state in a forked process with one fault. Returns 'killed', 'returned', 'raised ...'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        L = lib()
        fd = os.open(tracefile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.close(r)
        L.pmon_arm(watch.encode(), fd, fault, at, err)
        try:
            s.save_state(path)
            msg = b"returned"
        except BaseException as e:
            msg = b"raised " + type(e).__name__.encode()
        L.pmon_disarm()
        os.write(w, msg)
        os._exit(0)
    os.close(w)
    msg = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        msg += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
        return "killed"
    return msg.decode() or "ended with status %d" % st


def read_trace(f):
    return [ln.rstrip("\n").split("\t") for ln in open(f)]


OPS = ("open", "write", "fsync", "close", "rename", "link", "symlink", "unlink", "mkdir", "ftruncate", "truncate")


def power_loss(trace, target, existed):
    """Can a power loss at any point of this trace leave anything but the complete old or new state at `target`?

    Model: directory operations reach the disk in order at any later time; data reach it for certain only by a sync of
    that file, otherwise any part may be lost. So nothing unsynced may ever be reachable through the target name, and the
    name must not be absent once it existed."""
    target = os.path.realpath(target)
    ino = {}            # path -> inode
    fds = {}
    dirty = collections.Counter()
    fresh = [0]
    problems = []
    osync = set()

    def new():
        fresh[0] += 1
        return fresh[0]
    if existed:
        ino[target] = new()
    rp = lambda p: os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))

    def look(why):
        i = ino.get(target)
        if i is not None and dirty[i]:
            problems.append("%s while data of the file at the target are not synced" % why)
    for ev in trace:
        op = ev[0]
        if op in ("open", "rdopen"):
            p = rp(ev[2])
            if p not in ino:
                ino[p] = new()
            fds[ev[1]] = ino[p]
            if op == "open":
                if ev[5] == "1":
                    osync.add(ev[1])
                if ev[3] == "1" and (ev[4] == "1"):
                    dirty[ino[p]] += 1
                look("open of the target")
        elif op == "dup":
            fds[ev[2]] = fds.get(ev[1])
        elif op in ("write", "ftruncate"):
            if (op == "ftruncate" or ev[2] != "0") and ev[1] not in osync:
                dirty[fds.get(ev[1])] += 1
            look(op)
        elif op == "truncate":
            dirty[ino.get(rp(ev[1]))] += 1
            look(op)
        elif op == "fsync":
            dirty[fds.get(ev[1])] = 0
        elif op == "sync":
            dirty.clear()
        elif op in ("rename", "link") and ev[3] == "0":
            a, b = rp(ev[1]), rp(ev[2])
            ino[b] = ino.get(a, new())
            if op == "rename":
                ino.pop(a, None)
                if a == target:
                    problems.append("the target is renamed away")
            if b == target:
                look(op)
        elif op == "unlink" and ev[2] == "0":
            if rp(ev[1]) == target:
                problems.append("the target is removed")
            ino.pop(rp(ev[1]), None)
    return problems


def run(sc, m):
    if sc["mode"] == "run":
        return case_run(sc, m)
    scratch = sc["_scratch"]
    rng = np.random.default_rng(sc["seed"])
    s, like, prior, pool = gen.make_sampler(sc, like=gen.Like(sc["like"], vectorize=bool(sc["cfg"].get("vectorize", False)), record=False),
                                            prior=gen.make_prior(sc, record=False))
    PROBE[:] = [gen.make_sampler(sc, like=gen.Like(sc["like"], record=False), prior=gen.make_prior(sc, record=False))[0]]
    watch = os.path.join(scratch, "w")
    gold = os.path.join(scratch, "gold")
    os.makedirs(gold)
    mode = sc["mode"]
    sub = "deep/er/est" if mode == "nested" else "st"
    name = dict(nodot="state", samename="run.v2_final.state").get(mode, "pmc_5.state")
    path = os.path.join(watch, sub, name)
    s.run(progress=False, **sc["run"])
    s.save_state(os.path.join(gold, "old.state"))
    old = load(os.path.join(gold, "old.state"))
    for extra in (60, 400, 1000, 3000):
        s.run(progress=False, n_total=sc["run"]["n_total"] + extra, n_evidence=0)
        s.save_state(os.path.join(gold, "new.state"))
        new = load(os.path.join(gold, "new.state"))
        if new != old:
            break
    m.check("clean save", old != new and len(old) == 40 and len(new) == 40, "the states cannot be told apart: %r %r" % (old, new))
    oldbytes = open(os.path.join(gold, "old.state"), "rb").read()
    with_old = mode not in ("new", "nested")
    arg = path
    if mode == "path":
        import pathlib
        arg = pathlib.Path(path)
    elif mode == "relative":
        arg = os.path.join("w", sub, name)

    def prepare():
        shutil.rmtree(watch, ignore_errors=True)
        if mode == "nested":
            os.makedirs(watch)
            return
        os.makedirs(os.path.dirname(path))
        if with_old:
            with open(path, "wb") as f:
                f.write(oldbytes)
        if mode == "stale":
            for suf in (".temp", ".tmp"):
                with open(os.path.splitext(path)[0] + suf, "wb") as f:
                    f.write(b"left over" * 5000)
    tr = os.path.join(scratch, "trace")
    prepare()
    res = attempt(s, arg, watch, 0, 0, 0, tr)
    trace = read_trace(tr)
    # operations that pass the gate: closes of read-only descriptors do not
    wr = set()
    gates = []
    for ev in trace:
        if ev[0] == "open":
            wr.add(ev[1])
        if ev[0] == "close":
            if ev[1] in wr:
                wr.discard(ev[1])
                gates.append("close")
        elif ev[0] in OPS:
            gates.append(ev[0])
    m.check("clean save", res == "returned" and load(path) == new, "save_state %s and the path holds %r" % (res, load(path)), trace=trace[:20])
    m.check("clean save", "write" in gates, "no write of the state was observed in %r" % gates)
    m.note(mode=mode, operations=gates)
    pr = power_loss(trace, path, with_old)
    m.check("power loss", not pr, "; ".join(sorted(set(pr))), operations=gates)
    if mode == "nested":
        m.check("directories created", os.path.isdir(os.path.dirname(path)), "missing directories were not created")
    n = len(gates)
    plan = []
    for k in range(1, n + 1):
        plan += [(KB, k, 0), (KA, k, 0), (ER, k, errno.EIO), (ER, k, errno.ENOSPC)]
        if gates[k - 1] == "write":
            plan += [(SK, k, 0), (SE, k, errno.ENOSPC), (SH, k, 0)]
        if gates[k - 1] in ("open", "write", "fsync"):
            plan += [(ER, k, errno.EINTR)]
        if gates[k - 1] in ("open", "rename", "mkdir"):
            plan += [(ER, k, errno.EACCES)]
    for fault, k, err in plan:
        prepare()
        res = attempt(s, arg, watch, fault, k, err, tr)
        hold = load(path)
        what = "%s at operation %d of %d (%s%s), save_state %s" % (NAMES[fault], k, n, gates[k - 1], " " + errno.errorcode[err] if err else "", res)
        ok = hold == new or hold == (old if with_old else None)
        m.key(mode, gates[k - 1], NAMES[fault], err, res, "new" if hold == new else "old")
        if res == "returned":
            m.check("returned: new", hold == new, "%s, but the path holds %s" % (what, "the old state" if hold == old else hold))
        elif res == "killed":
            m.check("killed: old or new", ok, "%s: the path holds %r" % (what, hold))
        else:
            m.check("error: old or new", ok and res.startswith("raised"), "%s: the path holds %r" % (what, hold))
        # a stale temporary file must not get in the way
        if (k + fault) % 2 == 0 or res == "killed":
            res2 = attempt(s, arg, watch, 0, 0, 0, tr)
            m.check("save works afterwards", res2 == "returned" and load(path) == new, "after %s, the next save_state %s and the path holds %r" %
                    (what, res2, load(path)))
    # a state that cannot be pickled, at several places of the state
    for q in range(3):
        prepare()
        setattr(s, ["aaa_user_attr", "zzz_user_attr", "m_user_attr"][q], Unpicklable())
        res = attempt(s, arg, watch, 0, 0, 0, tr)
        delattr(s, ["aaa_user_attr", "zzz_user_attr", "m_user_attr"][q])
        hold = load(path)
        m.check("pickling error: old kept", hold == (new if res == "returned" else old if with_old else None),
                "with an object that cannot be pickled save_state %s and the path holds %r" % (res, hold))


class Unpicklable:
    def __reduce__(self):
        raise ValueError("not picklable")


def case_run(sc, m):
    """Faults at random operations during a whole run that saves after every iteration, over the files of an earlier run."""
    scratch = sc["_scratch"]
    rng = np.random.default_rng(sc["seed"])
    PROBE[:] = [gen.make_sampler(sc, like=gen.Like(sc["like"], record=False), prior=gen.make_prior(sc, record=False))[0]]
    watch = os.path.join(scratch, "w")
    tr = os.path.join(scratch, "trace")

    def go(fault, at, err):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            L = lib()
            os.close(r)
            s = gen.make_sampler(sc, like=gen.Like(sc["like"], record=False), output_dir=watch)[0]
            fd = os.open(tr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            L.pmon_arm(watch.encode(), fd, fault, at, err)
            try:
                s.run(progress=False, save_every=1, **sc["run"])
                msg = b"returned"
            except BaseException as e:
                msg = b"raised " + type(e).__name__.encode()
            n = L.pmon_disarm()
            os.write(w, msg + b" %d" % n)
            os._exit(0)
        os.close(w)
        msg = os.read(r, 4096)
        os.close(r)
        os.waitpid(pid, 0)
        return msg.decode() or "killed"
    res = go(0, 0, 0)
    n = int(res.split()[-1])
    names = sorted(f for f in os.listdir(watch) if f.endswith(".state"))
    good = {f: load(os.path.join(watch, f)) for f in names}
    m.check("clean save", all(v and len(v) == 40 for v in good.values()) and "pmc_final.state" in names, "states of a run: %r" % good)
    # (the final state holds no random numbers of its own, so a second identical run writes the same states)
    for q in range(14):
        shutil.copytree(watch, watch + ".base") if q == 0 else None
        shutil.rmtree(watch)
        shutil.copytree(watch + ".base", watch)
        k = int(rng.integers(1, n + 1))
        fault, err = [(KB, 0), (KA, 0), (ER, errno.ENOSPC), (ER, errno.EIO), (SK, 0)][q % 5]
        res = go(fault, k, err)
        bad = {f: load(os.path.join(watch, f)) for f in names}
        bad = {f: v for f, v in bad.items() if v is None or v.startswith("broken")}
        m.check("error during a run", not bad, "after %s at operation %d of a run (%s) these states are damaged: %r" % (NAMES[fault], k, res, bad))
        m.key("run", NAMES[fault], res.split()[0])
