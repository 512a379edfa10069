#!/usr/bin/env python3
"""Run the quick check of each planted bug's property on a scratch copy with the bug applied; write tools/seeded_results.json. Not used by any check."""
import glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = V + "/tools/seeded_results.json"
res = json.load(open(F)) if os.path.exists(F) else {}
only = sys.argv[1:]
def run(d):
    n = os.path.basename(d); m = json.load(open(d + "/meta.json")); t = "/tmp/runseeded/" + n
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.run(["git", "clone", "-q", "/repo", t + "/repo"], check=True)
    a = subprocess.run(["git", "-C", t + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode: r = "does not apply"
    else:
        e = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_BUILD=t + "/b", VERIF_WORKERS="3", VERIF_SECONDS=os.environ.get("SEC", "20"))
        o = subprocess.run(["python3", V + "/check.py", m["property"], "--tier", "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
        c = [l.split(":", 1)[1].strip() for l in o.stdout.splitlines() if l.startswith("violation class")]
        r = ("%s (%s)" % (m["property"], c[0] if c else "?")) if o.returncode == 1 else "missed" if o.returncode == 0 else "error %d" % o.returncode
    shutil.rmtree(t, ignore_errors=True)
    return n, r
L = [d for d in sorted(glob.glob(V + "/seeded/*")) if not only or os.path.basename(d) in only]
with cf.ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(run, L): res[n] = r; print(n, r, flush=True)
json.dump(dict(sorted(res.items())), open(F, "w"), indent=1)
