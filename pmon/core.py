"""Check runner: cases in forked children, monitors, verdicts, evidence."""
import collections
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CpuBudget(BaseException):
    """The case used more CPU time than its (very generous) budget."""


class Monitor:
    """What the oracles of one case report."""

    def __init__(self, case):
        self.case = case
        self.counts = collections.Counter()
        self.violations = []
        self.known = []
        self.keys = set()
        self.notes = {}
        self.data = {}

    def judged(self, name, n=1):
        """`n` events were judged by monitor `name`."""
        self.counts[name] += int(n)

    def key(self, *parts):
        """A distinct non-trivial situation was observed."""
        self.keys.add("|".join(str(p) for p in parts))

    def violation(self, msg, **details):
        if len(self.violations) < 20:
            self.violations.append((str(msg), {k: _short(v) for k, v in details.items()}))

    def finding(self, key, msg):
        self.known.append((key, msg))

    def check(self, name, ok, msg, **details):
        self.judged(name)
        if not ok:
            self.violation(f"{name}: {msg}", **details)
        return bool(ok)

    def note(self, **kw):
        self.notes.update({k: _short(v) for k, v in kw.items()})


def _short(v):
    s = repr(v)
    return s if len(s) <= 600 else s[:600] + "..."


def jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return repr(o)


def _child(mod, case, out, cpu):
    os.setsid()
    dbg = os.environ.get("PMON_DEBUG")
    if not dbg:
        nul = os.open(os.devnull, os.O_RDWR)
        os.dup2(nul, 0)
        os.dup2(nul, 1)
        os.dup2(nul, 2)

    def on_prof(sig, frm):
        raise CpuBudget()
    signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, cpu, 5.0)
    resource.setrlimit(resource.RLIMIT_CPU, (int(cpu) + 30, int(cpu) + 40))
    m = Monitor(case)
    status = "ok"
    scratch = os.path.join(os.path.dirname(out), "d%s" % os.path.basename(out))
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    case = dict(case)
    case["_scratch"] = scratch
    import warnings
    warnings.simplefilter("ignore")
    try:
        import numpy as np
        import torch
        np.random.seed(case.get("seed", 0) % 2**32)
        torch.manual_seed(case.get("seed", 0) % 2**32)
        torch.set_num_threads(1)
        mod.run(case, m)
    except CpuBudget:
        signal.setitimer(signal.ITIMER_PROF, 0)
        m.judged("bounded progress")
        m.violation("no progress: CPU budget of %.0f s exceeded" % cpu,
                    where=traceback.format_exc()[-1500:])
    except MemoryError:
        status = "memory"
    except BaseException as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        m.judged("no unexpected error")
        m.violation("unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                    where=traceback.format_exc()[-2500:])
    signal.setitimer(signal.ITIMER_PROF, 0)
    with open(out + ".tmp", "wb") as f:
        pickle.dump(dict(status=status, counts=dict(m.counts), violations=m.violations,
                         known=m.known, keys=m.keys, notes=m.notes, data=m.data), f)
    os.rename(out + ".tmp", out)
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


def run_cases(mod, cases, jobs, soft, hard, stop_after=3):
    """Run the cases in forked children. Yields (case, result or None, why)."""
    tmp = tempfile.mkdtemp(prefix="pmon-")
    todo = list(enumerate(cases))
    live = {}
    done = []
    bad = 0
    tries = collections.Counter()
    t0 = time.time()
    default_cpu = float(getattr(mod, "CPU", 120.0))
    try:
        while todo or live:
            now = time.time() - t0
            if todo and (now > soft or bad >= stop_after):
                for i, c in todo:
                    done.append((c, None, "skipped"))
                todo = []
                if bad >= stop_after:
                    for pid, (i, c, out, st) in list(live.items()):
                        _kill(pid)
                        os.waitpid(pid, 0)
                        done.append((c, None, "skipped"))
                    live.clear()
                    break
                continue
            if now > hard:
                for pid, (i, c, out, st) in list(live.items()):
                    _kill(pid)
                    os.waitpid(pid, 0)
                    done.append((c, None, "watchdog"))
                live.clear()
                break
            while todo and len(live) < jobs:
                i, c = todo.pop(0)
                out = os.path.join(tmp, "r%d_%d" % (i, tries[i]))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        _child(mod, c, out, float(c.get("cpu", default_cpu)))
                    finally:
                        os._exit(70)
                live[pid] = (i, c, out, time.time())
            pid, st, ru = os.wait4(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.01)
                continue
            if pid not in live:
                continue
            i, c, out, start = live.pop(pid)
            _kill(pid)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    r = pickle.load(f)
                os.unlink(out)
                if r["status"] != "ok":
                    done.append((c, None, r["status"]))
                else:
                    bad += bool(r["violations"])
                    done.append((c, r, ""))
            else:
                used = ru.ru_utime + ru.ru_stime
                limit = float(c.get("cpu", default_cpu))
                if os.WIFSIGNALED(st) and used > limit:
                    bad += 1
                    done.append((c, dict(counts={"bounded progress": 1}, keys=set(), notes={}, known=[], data={},
                                         violations=[("no progress: killed after %.0f CPU s" % used, {})]), ""))
                elif tries[i] < 1:
                    tries[i] += 1
                    todo.insert(0, (i, c))
                else:
                    done.append((c, None, "child ended with status %d" % st))
    finally:
        for pid in live:
            _kill(pid)
        shutil.rmtree(tmp, ignore_errors=True)
    return done


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def load_findings():
    """key -> line, of the committed known findings."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(t.split("=", 1) for t in line.split() if "=" in t)
                out[(d.get("property"), d.get("key"))] = line
    return out


def setup():
    """Check that everything a check needs is importable."""
    import numpy, scipy, torch, zuko, dill, tqdm  # noqa
    import pocomc
    print("pocomc from", pocomc.__file__)
    return 0


def _reexec_with_shim(argv):
    """Compile the file-operation shim and restart the interpreter under it."""
    import subprocess
    src = os.path.join(ROOT, "pmon", "native", "shim.c")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(ROOT, "build")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "shim-%s.so" % h)
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, so)
    env = dict(os.environ, LD_PRELOAD=so, PMON_SHIM=so)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, "-m", "pmon"] + list(argv), env)


def main(argv):
    pid = argv[0]
    if pid == "--setup":
        return setup()
    mod = __import__("pmon.checks.%s" % pid.lower(), fromlist=["x"])
    if getattr(mod, "PRELOAD", False) and not os.environ.get("PMON_SHIM"):
        _reexec_with_shim(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("PMON_JOBS", str(min(8, os.cpu_count() or 1))))
    if "--thorough" in argv:
        tier = "thorough"
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    t0 = time.time()

    # everything is imported from /repo's working tree before the forks
    import numpy, scipy.stats, torch, zuko, dill  # noqa
    torch.set_num_threads(1)
    try:
        import pocomc
        import pocomc.mcmc, pocomc.parallel, pocomc.student  # noqa
    except Exception as e:
        return _import_failed(pid, tier, seed, mod, e)
    src = os.path.dirname(os.path.abspath(pocomc.__file__))
    if os.path.realpath(src) != os.path.realpath("/repo/pocomc") and not os.environ.get("PMON_REPO"):
        print("pocomc was imported from", src)
        return 2

    if "--replay" in argv:
        rep = json.load(open(argv[argv.index("--replay") + 1]))
        cases = [rep["case"]]
    else:
        cases = list(mod.cases(tier, seed))
        if "--only" in argv:
            k = argv[argv.index("--only") + 1]
            cases = [c for c in cases if k in json.dumps(c, default=jsonable)]
    soft = float(os.environ.get("PMON_SOFT", getattr(mod, "SOFT", {}).get(tier, 420 if tier == "quick" else 2400)))
    hard = soft + (300 if tier == "quick" else 900)
    done = run_cases(mod, cases, jobs, soft, hard)

    counts = collections.Counter()
    keys = set()
    viol = []
    known = collections.OrderedDict()
    data = []
    skipped = collections.Counter()
    samples = []
    ran = 0
    findings = load_findings()
    for c, r, why in done:
        if r is None:
            skipped[why] += 1
            continue
        ran += 1
        counts.update(r["counts"])
        if sum(r["counts"].values()):
            keys |= r["keys"]
        for msg, det in r["violations"]:
            viol.append((c, msg, det))
        for k, msg in r["known"]:
            if (pid, k) in findings:
                known.setdefault(k, msg)
            else:
                viol.append((c, "%s (%s)" % (msg, k), {}))
        data.append((c, r["data"]))
        if len(samples) < 4 and r["counts"]:
            samples.append(dict(case={k: v for k, v in c.items()}, judged=r["counts"], notes=r["notes"]))
    agg_notes = {}
    if hasattr(mod, "finish") and "--replay" not in argv:
        m = Monitor(dict(aggregate=True))
        try:
            mod.finish(data, m, tier, seed)
        except Exception as e:
            print(traceback.format_exc())
            m.violation("aggregate oracle failed: %r" % (e,))
        counts.update(m.counts)
        keys |= m.keys
        agg_notes = m.notes
        for msg, det in m.violations:
            viol.append((dict(aggregate=True, tier=tier, seed=seed), msg, det))

    lines = []
    seen = set()
    for c, msg, det in viol:
        h = hashlib.sha1((json.dumps(c, sort_keys=True, default=jsonable) + msg.split(":")[0]).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, h))
        if path in seen:
            continue
        seen.add(path)
        if len(lines) < 8:
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=c, message=msg, details=det), f,
                          indent=1, default=jsonable)
            lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
            print("--", msg)
            for k, v in det.items():
                print("     %s: %s" % (k, v[:2500]))
    for k, msg in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, msg))
    missing = [n for n in getattr(mod, "REQUIRED", []) if counts[n] == 0]
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=ran, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples, events_judged={k: int(v) for k, v in sorted(counts.items())},
                            cases_skipped=dict(skipped), situations=sorted(keys)[:60],
                            monitors_never_reached=missing, **({"aggregate": agg_notes} if agg_notes else {})),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    if "--replay" not in argv:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=jsonable)
    print("%s %s seed=%d: %d cases, %d distinct situations, %d events judged, %.1f s%s" % (
        pid, tier, seed, ran, len(keys), sum(counts.values()), wall,
        ", not run: %s" % dict(skipped) if skipped else ""))
    for k, v in sorted(counts.items()):
        print("   %-45s %d" % (k, v))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    if viol:
        return 1
    if "--replay" in argv:
        return 0
    if missing:
        print("INCONCLUSIVE: monitors never reached:", missing)
        return 2
    if ran == 0 or ran < 0.5 * len(cases):
        print("INCONCLUSIVE: only %d of %d cases ran" % (ran, len(cases)))
        return 2
    return 0


def _import_failed(pid, tier, seed, mod, e):
    path = os.path.join(ROOT, "replays", "%s-import.json" % pid)
    with open(path, "w") as f:
        json.dump(dict(property=pid, case={}, message="import of pocomc failed: %r" % e), f)
    print("import of pocomc failed:", repr(e))
    print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
    return 1
