#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]          run the check of one property
   check.py --replay FILE                          re-execute a replay file, print its trace
   check.py --setup                                build every harness once (sanity)

Deterministic simulation with fault injection: builds the harness from /repo's working tree,
searches seeds in parallel, re-runs a sample of seeds to prove determinism, minimises a failure and
writes a replay file. Exit 0: held on everything explored. Exit 1: VIOLATION. Anything else: the
machinery itself failed."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from props_cfg import PROPS  # noqa: E402

CPP = os.path.join(VERIF, "sim", "cpp")
PY = os.path.join(VERIF, "sim", "py")
CXXF = ("-std=c++14 -include cstdint -include sys/types.h -O1 -g1 -fopenmp -fsanitize=thread -D_GLIBCXX_ASSERTIONS "
        "-DARC_UTILITIES_SIMULATION -w").split()
NW = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


class LibraryDoesNotCompile(Exception):
    pass


def build_cpp(cfg, tag):
    out = os.path.join(BUILD, tag)
    os.makedirs(out, exist_ok=True)
    jobs = []
    inc = ["-I" + os.path.join(CPP), "-I" + os.path.join(CPP, "stubs"), "-I" + os.path.join(REPO, "include"), "-I" + out,
           "-isystem", "/usr/include/eigen3"]
    for f in ("core", "fs", "gomp"):
        jobs.append(["g++", "-std=c++17", "-O1", "-g1", "-w", "-c", f"{CPP}/sim_{f}.cpp", "-o", f"{out}/sim_{f}.o"])
    objs = []
    defs = cfg.get("defs", [])
    for h in cfg["harness"]:
        o = f"{out}/h_{h}.o"
        jobs.append(["g++"] + CXXF + defs + inc + ["-c", f"{CPP}/h_{h}.cpp", "-o", o])
        objs.append(o)
    for s in cfg.get("srcs", []):
        o = f"{out}/t_{s}.o"
        jobs.append(["g++"] + CXXF + defs + inc + ["-c", f"{REPO}/src/arc_utilities/{s}.cpp", "-o", o])
        objs.append(o)
    procs = [(j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for j in jobs]
    for j, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            print(o[-6000:])
            first = re.search(r"^(\S+?):\d+:\d+: (?:fatal )?error:", o, re.M)
            if cfg.get("compile_is_property") and first and os.path.realpath(first.group(1)).startswith(os.path.realpath(REPO) + "/"):
                raise LibraryDoesNotCompile(first.group(0), j)
            die("compilation failed: " + " ".join(j[-4:]))
    exe = f"{out}/sim_{tag}"
    link = ["g++", "-o", exe] + objs + [f"{out}/sim_{f}.o" for f in ("core", "fs", "gomp")] + \
        ["-lboost_filesystem", "-lpthread", "-lz", "-ldl", "-lgomp"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode:
        print((r.stdout + r.stderr)[-6000:])
        die("linking failed")
    return [exe]


def build(pid):
    cfg = PROPS[pid]
    if cfg["kind"] == "cpp":
        return build_cpp(cfg, pid)
    return [sys.executable, "-B", "-S", "-E", os.path.join(PY, "runner.py")] if cfg.get("bare") else \
        [sys.executable, "-B", os.path.join(PY, "runner.py")]


def env_for(i, pin=True, hashseed="0"):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_REPO"] = REPO
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    if pin:
        e["SIM_CPU"] = str(i % (os.cpu_count() or 1))
    return e


def load_known(pid):
    """known: property=<id> class=<cls> replay=<file or -> <what>   /   fixed: property=<id> <commit> <what>"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                cls, rest = rest.split(" ", 1)
                rep, what = rest.split(" ", 1)
                out.append((cls[len("class="):], rep[len("replay="):], what))
    return out


def scenario(pid):
    return PROPS[pid].get("scenario", pid)


def replay(cmd, pid, choices, trace=False, hashseed="0"):
    f = os.path.join(BUILD, f"rp.{os.getpid()}.{pid}")
    with open(f, "w") as h:
        h.write("\n".join(map(str, choices)) + "\n")
    r = subprocess.run(cmd + ["replay", scenario(pid), f] + (["trace"] if trace else []), capture_output=True, text=True,
                       errors="replace", env=env_for(0, False, hashseed), timeout=300)
    os.unlink(f)
    lines = r.stdout.rstrip("\n").split("\n")
    try:
        res = json.loads(lines[-1])
    except Exception:
        die("replay produced no result: " + (r.stdout + r.stderr)[-2000:])
    res["trace"] = lines[:-1]
    return res


class Servers:
    def __init__(self, cmd, pid, n):
        self.ps = [subprocess.Popen(cmd + ["serve", scenario(pid)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                    stderr=subprocess.DEVNULL, text=True, env=env_for(i)) for i in range(n)]

    def batch(self, cands):
        """run up to len(ps) candidates; results in order"""
        out = []
        for i in range(0, len(cands), len(self.ps)):
            part = cands[i:i + len(self.ps)]
            for p, c in zip(self.ps, part):
                p.stdin.write(str(len(c)) + " " + " ".join(map(str, c)) + "\n")
                p.stdin.flush()
            for p, c in zip(self.ps, part):
                line = p.stdout.readline()
                out.append(json.loads(line) if line else {"status": 9, "cls": "", "val": []})
        return out

    def close(self):
        for p in self.ps:
            p.kill()
            p.wait()


def cost(v):
    return (len(v), sum(1 for x in v if x), sum(v))


def strip(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def minimise(cmd, pid, choices, cls, budget):
    """shrink the choice list (operations, schedule, faults) while the same violation class persists"""
    t0 = time.time()
    srv = Servers(cmd, pid, NW)
    best = strip(choices)
    tries = 0

    def attempt(cands):
        nonlocal best, tries
        cands = [strip(c) for c in cands]
        cands = [c for c in cands if cost(c) < cost(best)]
        improved = False
        for i in range(0, len(cands), NW):
            if time.time() - t0 > budget:
                return improved
            part = cands[i:i + NW]
            tries += len(part)
            for c, r in zip(part, srv.batch(part)):
                if r["status"] == 2 and r["cls"] == cls:
                    c2 = strip(r["val"])
                    for x in (c, c2):
                        if cost(x) < cost(best):
                            best = x
                            improved = True
            if improved:
                return True
        return improved

    try:
        # truncation first, then chunk deletion, chunk zeroing, value lowering
        while time.time() - t0 < budget:
            before = cost(best)
            n = len(best)
            attempt([best[:n * k // 8] for k in range(0, 8)])
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(best) and time.time() - t0 < budget:
                    c = []
                    for j in range(i, min(len(best), i + size * NW), size):
                        c.append(best[:j] + best[j + size:])
                        if any(best[j:j + size]):
                            c.append(best[:j] + [0] * len(best[j:j + size]) + best[j + size:])
                    if not attempt(c):
                        i += size * NW
                size //= 2
            i = 0
            while i < len(best) and time.time() - t0 < budget:
                c = []
                for j in range(i, min(len(best), i + NW)):
                    if best[j] > 0:
                        for nv in sorted({1, best[j] // 2, best[j] - 1}):
                            if nv < best[j]:
                                c.append(best[:j] + [nv] + best[j + 1:])
                if not c or not attempt(c):
                    i += NW
            if cost(best) >= before:
                break
    finally:
        srv.close()
    return best, tries


def run_workers(cmd, pid, seed, seconds, work, tag, known, nw, count=10**12, starts=None, dump=True, hashseed="0", pin=True):
    stop = os.path.join(work, tag + ".stop")
    ps = []
    for w in range(nw):
        out = os.path.join(work, f"{tag}.{w}")
        a = cmd + ["run", scenario(pid), str(seed), str(w), str(nw), str(count), str(seconds), out, ";".join(known) or "-", stop]
        if dump:
            a.append("dump")
        ps.append((out, subprocess.Popen(a, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(env_for(w, pin, hashseed), **({"SIM_KEEP": "8"} if tag == "gate" else {})))))
    fails, sums, hashes, scheds, dumps = [], [], set(), set(), {}
    for out, p in ps:
        try:
            _, err = p.communicate(timeout=seconds + 240 if seconds > 0 else 600)
        except subprocess.TimeoutExpired:
            p.kill()
            die("a worker did not stop")
        if p.returncode:
            die(f"a worker ended with {p.returncode}: {err[-2000:]}")
        for line in open(out):
            d = json.loads(line)
            (sums if d.get("summary") else fails).append(d)
        for suf, acc in ((".hashes", hashes), (".scheds", scheds)):
            b = open(out + suf, "rb").read()
            acc.update(b[i:i + 8] for i in range(0, len(b), 8))
        if dump:
            for line in open(out + ".dump"):
                f = line.rstrip("\n").split(" ", 4)
                dumps[int(f[0])] = tuple(f[1:])
    return fails, sums, hashes, scheds, dumps


def merge(sums):
    tot = {k: sum(s[k] for s in sums) for k in ("runs", "nontrivial", "budget", "steps", "switches", "choices", "sim_s")}
    for k in ("faults", "probes"):
        m = {}
        for s in sums:
            for n, (c, r) in s[k].items():
                a = m.setdefault(n, [0, 0])
                a[0] += c
                a[1] += r
        tot[k] = {n: {"fired": a[0], "runs": a[1]} for n, a in sorted(m.items())}
    return tot


def main_check(pid, tier):
    cfg = PROPS[pid]
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    seconds = float(os.environ.get("VERIF_SECONDS") or cfg.get(tier, {"quick": 14, "thorough": 400}[tier]))
    print(f"seed={seed} property={pid} tier={tier} workers={NW} search={seconds:g}s")
    sys.stdout.flush()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, pid + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        cmd = build(pid)
    except LibraryDoesNotCompile as e:
        # the operation the property is about cannot be used at all: there is no schedule to replay, only the compiler call
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{pid}-compile.json")
        with open(rp, "w") as h:
            json.dump({"property": pid, "class": "does-not-compile", "message": e.args[0], "compile": e.args[1], "choices": []}, h, indent=1)
        print(f"what: the library code does not compile when used: {e.args[0]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    tb = time.time() - t0
    work = os.path.join(BUILD, "work." + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    known = load_known(pid)
    kc = [k[0] for k in known]
    fails, sums, hashes, scheds, dumps = run_workers(cmd, pid, seed, seconds, work, "main", kc, NW)
    tot = merge(sums)
    search_s = time.time() - t0 - tb
    bad = [f for f in fails if f["cls"] not in kc]
    # determinism gate: the first seeds again, in other processes, another worker split, another hash seed
    ng = cfg.get("gate", 48)
    per = max(1, ng // 3)
    gfails, gsums, _, _, gd = run_workers(cmd, pid, seed, 60, work, "gate", kc + [f["cls"] for f in bad], 3, count=per, hashseed="77", pin=False)
    both = [i for i in gd if i in dumps]
    diff = [i for i in both if gd[i] != dumps[i]]
    if diff and not bad:
        die(f"simulation is not deterministic: runs {diff[:5]} of {len(both)} differ: {[(gd[i], dumps[i]) for i in diff[:2]]}")
    kept = sorted(glob.glob(os.path.join(work, "gate.*.keep*")))
    if not bad:
        for kf in kept:
            i = int(kf.rsplit(".keep", 1)[1])
            r = replay(cmd, pid, [int(x) for x in open(kf).read().split()])
            if i in gd and gd[i][0] == "1" and (str(r["status"]), r["hash"]) != (gd[i][0], gd[i][1]):
                die(f"replaying run {i} is not exact: {(r['status'], r['hash'])} instead of {gd[i]}")
    for cls, rep, what in known:
        if rep != "-":
            ch = json.load(open(os.path.join(VERIF, rep)))["choices"]
            r = replay(cmd, pid, ch)
            if r["status"] == 2 and r["cls"] == cls:
                print(f"KNOWN-FINDING: property={pid} {what}")
        elif any(f["cls"] == cls for f in fails):
            print(f"KNOWN-FINDING: property={pid} {what}")
    violation = None
    if bad:
        bad.sort(key=lambda f: f["n"])
        gate_err = []
        for f in bad[:6]:
            ch = [int(x) for x in open(f["choices"]).read().split()]
            a = replay(cmd, pid, ch)
            b = replay(cmd, pid, ch, hashseed="5")
            # one run that never ends can hit either limit, the one on steps or the one on time
            endless = ("hang", "endless")
            if a["status"] == 2 and b["status"] == 2 and (a["cls"] == b["cls"] == f["cls"] or all(c in endless for c in (a["cls"], b["cls"], f["cls"]))):
                f = dict(f, cls=a["cls"])
                violation = (f, ch)
                break
            gate_err.append((f["cls"], f["msg"], a["cls"], a["msg"], b["cls"]))
        if not violation:
            die(f"a failure did not reproduce on replay: {gate_err[:3]}")
    rate = tot["runs"] / max(search_s, 1e-9)
    samples = []
    for i in range(2):
        r = subprocess.run(cmd + ["show", scenario(pid), str(seed), str(i)], capture_output=True, text=True, errors="replace", env=env_for(0, False))
        ls = r.stdout.rstrip("\n").split("\n")
        samples.append({"run": i, "trace_head": ls[:14], "events": len(ls) - 1, "result": ls[-1][:200]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"] + " One evaluation is one simulated run, fixed by one seed. A run is non-trivial when a fault fired, "
                    "control passed between simulated threads more than twice, or the harness reached an operation whose outcome the property "
                    "constrains; runs are distinct when the hash over all choices and logged events differs.",
            "samples": samples,
            "seeds_per_hour": int(rate * 3600), "simulated_seconds": round(tot["sim_s"], 3),
            "distinct_interleavings": len(scheds), "interleaving_measure": cfg.get("measure", "hash of the sequence of threads that received control"),
            "nontrivial_runs": tot["nontrivial"], "runs_over_choice_budget": tot["budget"],
            "context_switches": tot["switches"], "choices": tot["choices"], "instrumented_steps": tot["steps"],
            "faults_injected": tot["faults"], "rare_conditions_reached": tot["probes"],
            "determinism_gate": {"runs_repeated": len(both), "different": len(diff), "other_worker_count": 3, "other_hash_seed": True},
            "real_code": cfg["real"], "stubs": cfg["stub"], "exhaustive": False,
        },
        "assumptions": cfg.get("assume", []) + [
            "sampling of schedules and faults, not enumeration: a clean batch is evidence, not proof",
            "sequentially consistent interleavings at instrumented accesses and intercepted calls"],
        "wall_s": 0.0, "violations": 0,
    }
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)

    def write_ev():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(evp + ".tmp", "w") as h:
            json.dump(ev, h, indent=1)
        os.replace(evp + ".tmp", evp)

    if not violation:
        write_ev()
        print(f"ok: {tot['runs']} runs ({int(rate)}/s), {len(hashes)} distinct non-trivial, {len(scheds)} interleavings, "
              f"{sum(f['fired'] for f in tot['faults'].values())} faults, gate {len(both)}/{len(both)} equal, build {tb:.1f}s, total {time.time()-t0:.1f}s")
        return 0
    f, ch = violation
    if f["cls"] == "hang" and (cfg["kind"] == "py" or f["n"] < 5):
        best, tries = strip(ch), 0
    else:
        best, tries = minimise(cmd, pid, ch, f["cls"], float(os.environ.get("VERIF_MINIMISE") or {"quick": 25, "thorough": 120}[tier]))
    r = replay(cmd, pid, best, trace=True)
    r2 = replay(cmd, pid, best, trace=True, hashseed="9")
    if not (r["status"] == 2 and r["cls"] == f["cls"] and r2["cls"] == r["cls"]):
        best = ch
        r = replay(cmd, pid, best, trace=True)
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, f"{pid}-{seed}-{f['index']}.json")
    with open(rp, "w") as h:
        json.dump({"property": pid, "scenario": scenario(pid), "seed": seed, "run": f["index"], "class": r["cls"], "message": r["msg"],
                   "original_choices": len(strip(ch)), "minimised_choices": len(best), "minimiser_runs": tries, "hash": r["hash"],
                   "choices": best, "trace": r["trace"][-400:]}, h, indent=1)
    ev["violations"] = 1
    ev["coverage"]["violation"] = {"class": r["cls"], "message": r["msg"], "replay": rp}
    write_ev()
    print(f"violation class: {r['cls']}")
    print(f"what: {r['msg']}")
    print(f"found in run {f['index']} of seed {seed}; minimised from {len(strip(ch))} to {len(best)} choices in {tries} tries; last events:")
    for line in r["trace"][-25:]:
        print("  " + line[:300])
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        print("setup: nothing to prepare beyond the compilers; each check builds its harness from /repo")
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        if d["class"] == "does-not-compile":
            r = subprocess.run(d["compile"]).returncode
            print(f"compiler exit {r}")
            if r:
                print(f"VIOLATION property={d['property']} replay={a[1]}")
            return 1 if r else 0
        cmd = build(d["property"])
        r = replay(cmd, d["property"], d["choices"], trace=True)
        for line in r["trace"]:
            print(line)
        print(f"class={r['cls']} message={r['msg']} hash={r['hash']} (recorded: {d['class']} {d['hash']})")
        if r["status"] == 2 and r["cls"] == d["class"]:
            print(f"VIOLATION property={d['property']} replay={a[1]}")
            return 1
        return 0
    if not a or a[0] not in PROPS:
        die("usage: check.py PROP [--tier quick|thorough] | --replay FILE")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return main_check(a[0], tier)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("ERROR: the check itself failed:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
