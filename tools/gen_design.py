#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design_head.md, tools/design_tail.md and the tables derived from the committed files."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_cfg import PROPS
from not_applicable import NA
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
by = {d["id"]: d for d in P}
ORACLE = json.load(open(V + "/tools/oracles.json"))
out = [open(V + "/tools/design_head.md").read().rstrip(), ""]
out += ["## Property by property", "",
        "For each: what is generated and injected (the exact statement is in `properties.jsonl`), against which oracle it is judged, what runs real code and what is a stub, "
        "and why tests cannot settle it. Cost is the same everywhere: the quick tier searches for the number of seconds given (default %d s with 8 workers, after a build of 5 to 25 s for C++), the thorough tier 400 s; "
        "both first repeat 48 runs in other processes to prove determinism." % 12, ""]
for d in P:
    i = d["id"]
    if i not in PROPS: continue
    c = PROPS[i]
    out += ["### %s %s" % (i, d["title"]), "",
            "* **Generated and injected:** " + c["rule"],
            "* **Oracle:** " + ORACLE[i],
            "* **Real code:** " + ", ".join(c["real"]) + ". **Stubs:** " + ", ".join(c["stub"]) + ". **Harness:** " +
            (", ".join("`sim/cpp/h_%s.cpp`" % h for h in c["harness"]) if c["kind"] == "cpp" else "`sim/py/s_*.py` (scenario %s)" % i) + ".",
            "* **Quantifies over:** " + d["quantifier"]["text"] + ".",
            "* **Why tests cannot:** " + d["why_tests_cant"], ""]
out += ["## Not applicable", "", "| Property | Reason |", "|---|---|"]
for i in sorted(NA): out.append("| %s %s | %s |" % (i, by[i]["title"], NA[i]))
out += ["", "## Planted bugs", "", "Every one is in `seeded/<id>`; `caught by` is the result of running the property's quick check on a copy of the repository with the patch applied (`tools/run_seeded.py`).", "",
        "| Bug | Property | Needs | Breaks | Caught by |", "|---|---|---|---|---|"]
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), res.get(n, "not run")))
out += ["", "## Genuine defects found", "",
        "Each was shown by a check on the tree as it was, and repaired by one small `fix:` commit in /repo (`KNOWN_FINDINGS.txt`; a fixed entry suppresses nothing). There is no unrepaired finding.", "",
        "| Property | Commit | What failed |", "|---|---|---|"]
for l in open(V + "/KNOWN_FINDINGS.txt"):
    if l.startswith("fixed:"):
        a = l.split(None, 3); out.append("| %s | %s | %s |" % (a[1].split("=")[1], a[2], a[3].strip()))
out += ["", open(V + "/tools/design_tail.md").read().rstrip()]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
missing = [i for i in PROPS if i not in ORACLE]
print("DESIGN.md: %d lines%s" % (len("\n".join(out).splitlines()), ", no oracle for " + " ".join(missing) if missing else ""))
