"""Run checks against planted bugs (in scratch copies). usage: matrix.py [--all] [--jobs N] [id ...]"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ALL = "--all" in sys.argv
V = "/tmp/w/vmx"
shutil.rmtree(V, ignore_errors=True)
shutil.copytree(HERE, V, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
for i in sorted(os.listdir(HERE + "/seeded")):
    if args and i not in args:
        continue
    d = f"/tmp/w/mx_{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    subprocess.run(["git", "apply", f"{HERE}/seeded/{i}/patch.diff"], cwd=d, check=True)
    prop = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
    props = ["C%02d" % k for k in range(1, 27)] if ALL else [prop]
    for p in props:
        t = time.time()
        r = subprocess.run([V + "/check", p], cwd=V, env=dict(os.environ, PMON_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        why = ""
        if v:
            k = r.stdout.splitlines().index(v[0])
            why = " // ".join(r.stdout.splitlines()[max(0, k - 1):k + 2])[:260]
        ok = r.returncode == 1 and v
        print(f"{'CAUGHT' if ok else 'missed'} {i} by {p}{'' if p == prop else ' (other)'} rc={r.returncode} {time.time()-t:.0f}s {why if ok else r.stdout[-300:]}", flush=True)
    shutil.rmtree(d)
shutil.rmtree(V)
