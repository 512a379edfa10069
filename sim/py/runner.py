"""runner.py run|replay|serve|show: drives simulated runs of the Python part, one forked process per run (see check.py)."""
import gc, importlib, json, mmap, struct, os, select, signal, struct, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simcore  # noqa: E402

if "SIM_CPU" in os.environ:
    try:
        os.sched_setaffinity(0, {int(os.environ["SIM_CPU"])})
    except OSError:
        pass

now = time.monotonic
alarm, setsig = signal.alarm, signal.signal
MODS = {"C21": "s_listener", "C22": "s_listener", "C34": "s_listener", "C23": "s_tf", "C24": "s_tf", "C25": "s_tf", "C26": "s_tf", "C62": "s_tf", "C27": "s_catches",
        "C28": "s_catches", "C29": "s_init", "C30": "s_init", "C35": "s_init", "C31": "s_fs", "C32": "s_fs", "C33": "s_fs",
        "C58": "s_tts"}
HANG = 20.0


def load(scen):
    sys.path.insert(0, os.path.join(simcore.REPO, "src"))
    m = importlib.import_module(MODS[scen])
    return m.SCENARIOS[scen]


SH = mmap.mmap(-1, 1 << 16)


def one(fn, base=0, index=0, replay=None, trace=False):
    r, w = os.pipe()
    SH[0:8] = bytes(8)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not trace:
                os.dup2(dn, 2)
            gc.disable()
            if os.environ.get("SIM_TB"):
                import faulthandler
                faulthandler.dump_traceback_later(int(os.environ["SIM_TB"]))
            s = simcore.Sim(base, index, replay, trace, w)
            simcore.S = s
            s.adopt_main()
            s.shared = SH
            try:
                fn(s)
                s.finish(1)
            except simcore.SimExit:
                pass
            except simcore.MachineryError as e:
                s.finish(9, "machinery", repr(e))
            except BaseException as e:
                if os.environ.get("SIM_TB"):
                    import traceback
                    traceback.print_exception(e)
                s.finish(2, "exception", "the run died: " + simcore.short_tb(e))
            if s.ended:
                signal.pause()
        finally:
            os._exit(13)
    os.close(w)
    buf = []
    end = now() + HANG
    hang = False
    while True:
        ok = select.select([r], [], [], max(0.0, end - now()))[0]
        if not ok:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hang:
        vals = list(struct.unpack(f"={struct.unpack('=q', SH[:8])[0]}q", SH[8:8 + 8 * struct.unpack("=q", SH[:8])[0]]))
        return {"status": 2, "cls": "hang", "msg": "the run did not end", "hash": "0" * 16, "sched": "0" * 16, "n": len(vals), "switches": 0,
                "steps": 0, "val": vals, "sim_s": 0, "faults": {}, "probes": {}, "trace": []}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return {"status": 9, "cls": "crash", "msg": f"run process ended with status {st}", "hash": "0" * 16, "sched": "0" * 16, "n": 0, "switches": 0,
                "steps": 0, "val": [], "sim_s": 0, "faults": {}, "probes": {}, "trace": []}


def main():
    a = sys.argv[1:]
    fn = load(a[1])
    if a[0] == "run":
        base, start, stride, count, seconds, out = int(a[2]), int(a[3]), int(a[4]), int(a[5]), float(a[6]), a[7]
        known = set() if a[8] == "-" else set(a[8].split(";"))
        stop = a[9]
        dump = open(out + ".dump", "w") if len(a) > 10 else None
        f, hs, sc = open(out, "w"), open(out + ".hashes", "wb"), open(out + ".scheds", "wb")
        tot = dict(runs=0, nontrivial=0, budget=0, steps=0, switches=0, choices=0, sim_s=0.0, violations=0)
        faults, probes = {}, {}
        end = now() + seconds
        seen = {}
        nfail = 0
        i = start
        n = 0
        KEEP = int(os.environ.get("SIM_KEEP") or 0)
        while n < count and (seconds <= 0 or now() < end):
            if n % 16 == 0 and os.path.exists(stop):
                break
            r = one(fn, base, i)
            if r["cls"] == "hang":  # the same run once more: on a loaded machine a run can be starved of the processor
                r = one(fn, base, i)
            if r["status"] == 9:
                sys.stderr.write(f"run {i}: {r['msg']}\n")
                sys.exit(3)
            n += 1
            tot["runs"] += 1
            for k in ("steps", "switches", "sim_s"):
                tot[k] += r[k]
            tot["choices"] += r["n"]
            if r["status"] == 3:
                tot["budget"] += 1
            nt = bool(r["faults"] or r["probes"] or r["switches"] > 2)
            tot["nontrivial"] += nt
            if nt:
                hs.write(bytes.fromhex(r["hash"]))
            sc.write(bytes.fromhex(r["sched"]))
            for d, acc in ((r["faults"], faults), (r["probes"], probes)):
                for k, v in d.items():
                    e = acc.setdefault(k, [0, 0])
                    e[0] += v
                    e[1] += 1
            if dump:
                dump.write(f"{i} {r['status']} {r['hash']} {r['sched']} {r['cls']}\n")
            if KEEP and n % KEEP == 1:  # the choices of some healthy runs as well, so that the check can show replaying them is exact
                with open(f"{out}.keep{i}", "w") as h:
                    h.write("\n".join(map(str, r["val"])) + "\n")
            if r["status"] == 2:
                tot["violations"] += 1
                if seen.get(r["cls"], 0) < 2:
                    seen[r["cls"]] = seen.get(r["cls"], 0) + 1
                    cf = f"{out}.fail{nfail}"
                    nfail += 1
                    with open(cf, "w") as h:
                        h.write("\n".join(map(str, r["val"])) + "\n")
                    f.write(json.dumps({"fail": 1, "index": i, "cls": r["cls"], "msg": r["msg"], "choices": cf, "n": len(r["val"]), "hash": r["hash"]}) + "\n")
                    f.flush()
                if r["cls"] not in known:
                    with open(stop, "w"):
                        pass
                    break
            i += stride
        tot.update(summary=1, faults=faults, probes=probes)
        f.write(json.dumps(tot) + "\n")
        for h in (f, hs, sc, dump):
            if h:
                h.close()
    elif a[0] == "replay":
        ch = [int(x) for x in open(a[2]).read().split()]
        r = one(fn, replay=ch, trace=len(a) > 3)
        for line in r.pop("trace", []):
            print(line.replace("\n", "\\n"))
        print(json.dumps({k: r[k] for k in ("status", "cls", "msg", "hash", "n", "switches", "steps")}))
    elif a[0] == "serve":
        for line in sys.stdin:
            v = [int(x) for x in line.split()]
            r = one(fn, replay=v[1:1 + v[0]])
            print(json.dumps({"status": r["status"], "cls": r["cls"], "val": r["val"]}), flush=True)
    elif a[0] == "show":
        r = one(fn, int(a[2]), int(a[3]), trace=True)
        for line in r.pop("trace", []):
            print(line.replace("\n", "\\n"))
        print(json.dumps({k: r[k] for k in ("status", "cls", "msg", "hash", "n", "switches", "steps")}))


main()
