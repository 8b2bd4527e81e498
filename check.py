#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--thorough] [--entry h_x] [--keep]

Rebuilds /repo's crate and the property's harness to LLVM IR, executes every harness entry symbolically (engine/),
replays counterexamples against the native build of the same code, cross-checks sampled paths the same way, and
writes evidence/<id>.json.  Exit 0: held on everything explored; 1: violation; 2: no answer."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("VP_BUILD", V + "/build")
TOOL = os.environ.get("VP_TOOLCHAIN", "stable")

def env(**k):
    e = dict(os.environ)
    e.update(dict(dict(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOL, RUSTFLAGS="", RUST_BACKTRACE="0"), **k))
    for x in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        if x not in k: e.pop(x, None)
    return e

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build_engine():
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", B + "/eng"], cwd=V + "/engine", env=env())
    if r.returncode: die("engine build failed:\n" + r.stdout[-3000:])
    return B + "/eng/release/llsym"

def drop_fingerprints(td):
    # never trust file times for the code under test
    for f in glob.glob(td + "/release/.fingerprint/pmcp-*") + glob.glob(td + "/release/.fingerprint/vph-*"): shutil.rmtree(f, ignore_errors=True)

def build_harness(binname):
    td = B + "/h"
    drop_fingerprints(td)
    for f in glob.glob(f"{td}/release/deps/{binname}-*"): os.remove(f)
    r = sh(["cargo", "rustc", "--release", "--offline", "--bin", binname, "--", "--emit=llvm-ir,link", "--cfg", "vp", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
           cwd=V + "/harness", env=env(CARGO_TARGET_DIR=td, RUSTFLAGS="--cfg pmcp_vp --check-cfg cfg(pmcp_vp)"))
    ll = glob.glob(f"{td}/release/deps/{binname}-*.ll")
    if r.returncode or not ll: die("harness build failed:\n" + r.stdout[-6000:])
    return ll[0], td + "/release/" + binname

def die(m):
    print(m); sys.stdout.flush(); sys.exit(2)

def demangle(names):
    names = list(names)
    mangled = [n for n in names if n.startswith(("_ZN", "_R"))]
    return [n for n in names if n not in set(mangled)] + mangled

def native(exe, entry, inputs, tier, tag, valgrind=False):
    p = f"{B}/replay/{tag}.txt"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    cmd = [exe, entry, p]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=99", "--run-libc-freeres=no"] + cmd
    with open(p, "w") as f:
        for n, h in inputs: f.write(f"{n} {h}\n")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120 if valgrind else 30, env=dict(os.environ, VP_TIER=str(tier), RUST_BACKTRACE="0"))
        rc, out, er = r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, out, er = "timeout", (x.stdout or b"").decode("utf8", "replace"), ""
    fail = re.findall(r"^VPFAIL (.*)$", out, re.M)
    return dict(rc=rc, fail=fail[0] if fail else None, obs=[int(x) for x in re.findall(r"^VPOBS (\d+)$", out, re.M)], done="VPDONE" in out, assume="VPASSUME" in out, err=er[-600:], path=p)

def reproduces(label, r):
    """Does the native run show the violation the solver found?"""
    if r["assume"]: return False
    if label.startswith("panic@"): return r["rc"] in (-6, 134) or r["fail"] is not None
    if label == "memory-safety": return r["rc"] not in (0, 42, 41)
    if label == "hang": return r["rc"] == "timeout"
    if label in ("deadlock", "stuck"): return r["rc"] == "timeout" or r["fail"] in ("deadlock", "stuck")
    if label in ("unreachable", "alloc-error"): return r["rc"] not in (0, 41)
    return r["fail"] is not None or r["rc"] in (-6, 134, "timeout")

CPU = []  # features of the modelled CPU
def run_entry(eng, ll, exe, prop, entry, tier, budget, jobs, qms):
    out = f"{B}/run/{prop}/{entry}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    t0 = time.time()
    r = subprocess.run([eng, "--ll", ll, "--entry", entry, "--out", out + "/o", "--jobs", str(jobs), "--query-ms", str(qms), "--budget", str(budget), "--samples", "6", "--max-viol", "12", "--tier", str(tier)] + [x for c in CPU for x in ("--cpu", c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    T = dict.fromkeys("paths killed forks instrs queries sat unsat unknown cache_hits model_hits solver_ns left checks_sym".split(), 0)
    d = dict(entry=entry, T=T, covers={}, checks={}, viol=[], counts={}, errors=[], samples=[], functions=set(), timed_out=False, wall=0, maxq=0, maxpc=0, fork=[], bad=r.returncode, log=r.stdout[-2000:])
    for f in sorted(glob.glob(out + "/o.*")):
        j = json.load(open(f))
        for k in T: T[k] += j.get(k, 0)
        for k in ("covers", "checks"):
            for a, b in j.get(k, {}).items(): d[k][a] = d[k].get(a, 0) + b
        for a, b in j.get("viol_counts", {}).items(): d["counts"][a] = d["counts"].get(a, 0) + b
        d["viol"] += j.get("violations", []); d["errors"] += j.get("errors", []); d["samples"] += j.get("samples", [])[:6]; d["functions"] |= set(j.get("functions", []))
        d["timed_out"] |= j["timed_out"]; d["maxq"] = max(d["maxq"], j.get("max_query_ns", 0)); d["maxpc"] = max(d["maxpc"], j.get("max_pc", 0))
    if r.returncode == -14: d["bad"] = 0; d["timed_out"] = True
    d["wall"] = time.time() - t0
    return d

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    prop = a[0]
    only = a[1:]
    binname = prop.lower()
    tier = 1 if thorough else 0
    t0 = time.time()
    src = open(f"{V}/harness/src/bin/{binname}.rs").read()
    meta = {}
    for m in re.finditer(r"^//! (bound|assume|stub|outside): (.*)$", src, re.M): meta.setdefault(m.group(1), []).append(m.group(2))
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    title = [p["title"] for p in props if p["id"] == prop][0]
    known = json.load(open(V + "/known-findings.json"))["findings"]
    known = {k["label"]: k for k in known if k["property"] == prop}
    eng = build_engine()
    ll, exe = build_harness(binname)
    tb = time.time() - t0
    entries = [x for x in sh([exe]).stdout.split() if not only or x in only]
    total = 640 if thorough else 330
    # heavier entries first when the source says so
    CPU.extend(re.findall(r"^//! cpu: (.*)$", src, re.M))
    heavy = re.findall(r"^//! heavy: (.*)$", src, re.M)
    heavy = heavy[0].split() if heavy else []
    qms = 60000 if thorough else 20000
    res = []
    light = [e for e in entries if e not in heavy]
    found = []
    def left(): return max(20, int((total if not found else min(total, tb + 120)) - (time.time() - t0)))
    def one(e, jobs):
        d = run_entry(eng, ll, exe, prop, e, tier, left(), jobs, qms)
        if any(not l.startswith("K:") for l in d["counts"]): found.append(e)
        return d
    for e in [x for x in heavy if x in entries]: res.append(one(e, 8))
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(one, e, 4) for e in light]
        res += [f.result() for f in fs]
    viol, knownhit, unrepro, incomplete, validated, mism = [], {}, [], [], 0, []
    replays = 0
    for d in res:
        if d["bad"]: incomplete.append(f"{d['entry']}: engine ended with {d['bad']}: {d['log'][-300:]}")
        if d["timed_out"] or d["T"]["left"]: incomplete.append(f"{d['entry']}: budget reached, {d['T']['left']} paths left")
        if d["errors"]: incomplete.append(f"{d['entry']}: {len(d['errors'])} paths not decided: {d['errors'][0][:400]}")
        seen = {}
        for v in d["viol"]:
            if seen.get(v["label"], 0) >= 3: continue
            tag = f"{prop}/{d['entry']}.{re.sub(r'[^A-Za-z0-9]+', '_', v['label'])[-60:]}.{seen.get(v['label'], 0)}"
            r = native(exe, d["entry"], v["inputs"], tier, tag, valgrind=v["label"] == "memory-safety")
            replays += 1
            if reproduces(v["label"], r):
                seen[v["label"]] = 9
                # a known finding is one named in the committed file and nothing else
                name = v["label"]
                if name in known and (r["fail"] or "") == name: knownhit.setdefault(name, (d["entry"], v, r))
                elif r["fail"] in known: knownhit.setdefault(r["fail"], (d["entry"], v, r))
                else: viol.append((d["entry"], v, r))
            else:
                seen[v["label"]] = seen.get(v["label"], 0) + 1
                unrepro.append((d["entry"], v, r))
        for i, s in enumerate(d["samples"]):
            r = native(exe, d["entry"], s["inputs"], tier, f"{prop}/{d['entry']}.sample{i}")
            if r["done"] and r["obs"] == s["obs"]: validated += 1
            elif r["fail"] and r["fail"] in known: pass
            elif r["fail"] and d["counts"]: pass
            else: mism.append((d["entry"], s, r))
    # a violation that does not reproduce natively is only acceptable beside one of the same entry that does
    okent = {e for e, _, _ in viol}
    unrepro = [u for u in unrepro if u[0] not in okent and u[1]["label"] not in knownhit]
    want = set(re.findall(r'\bcover\("([^"]+)"\)', src))
    got = set().union(*[set(d["covers"]) for d in res]) if res else set()
    missing = sorted(want - got) if not only else []
    T = {k: sum(d["T"][k] for d in res) for k in res[0]["T"]} if res else {}
    fns = set().union(*[d["functions"] for d in res]) if res else set()
    # the crate's own functions that were executed symbolically
    own = sorted({re.sub(r"::h[0-9a-f]{16}$", "", f) for f in fns if re.search(r"(^|[<& ])pmcp::", f)})
    wall = time.time() - t0
    exhaustive = not incomplete and not viol and not unrepro
    samples = []
    for d in res:
        for s in d["samples"][:2]: samples.append(dict(entry=d["entry"], inputs=s["inputs"][:40], observed=s["obs"][:40], replayed_natively=True))
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=T.get("paths", 0), transitions=T.get("forks", 0), traces_validated_against_impl=validated, samples=samples[:12], exhaustive=exhaustive,
            explanation=f"{title}. Every path of {len(res)} harness entries over the real code (LLVM IR of this run's build) executed symbolically; states = complete symbolic paths, transitions = solver-decided branch splits.",
            paths_pruned_by_assumptions=T.get("killed", 0), instructions_executed=T.get("instrs", 0), symbolic_assertions=T.get("checks_sym", 0),
            assertions_evaluated={k: sum(d["checks"].get(k, 0) for d in res) for k in sorted(set().union(*[set(d["checks"]) for d in res]))},
            witnesses={k: sum(d["covers"].get(k, 0) for d in res) for k in sorted(got)},
            solver_queries=T.get("queries", 0), sat=T.get("sat", 0), unsat=T.get("unsat", 0), unknown=T.get("unknown", 0), answered_from_cache=T.get("cache_hits", 0), answered_from_last_model=T.get("model_hits", 0),
            solver_s=round(T.get("solver_ns", 0) / 1e9, 2), max_query_s=round(max([d["maxq"] for d in res] + [0]) / 1e9, 3), build_s=round(tb, 1),
            functions_encoded=own, functions_encoded_total=len(fns), counterexamples_replayed=replays,
            entries={d["entry"]: dict(paths=d["T"]["paths"], queries=d["T"]["queries"], wall_s=round(d["wall"], 1), violations=d["counts"]) for d in res},
            bounds=meta.get("bound", []), outside=meta.get("outside", []), incomplete=incomplete,
            known_findings=sorted(knownhit)),
        assumptions=["LLVM IR from rustc (opt-level 1, fat LTO, overflow checks on) stands for the code users run", "undef and poison read as 0; the modelled CPU has no optional features unless a harness calls a vector routine directly",
            "allocation never fails; hash maps hash with a constant (iteration order is one fixed order); clocks and randomness are inputs of the harness or a fixed stream"] + meta.get("assume", []) + meta.get("stub", []),
        wall_s=round(wall, 1), violations=len(viol))
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only:
        with open(f"{V}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    for d in res:
        print(f"{d['entry']}: {d['T']['paths']} paths, {d['T']['queries']} queries ({d['T']['solver_ns'] / 1e9:.1f} s solver), {d['wall']:.1f} s" + (f" VIOL {d['counts']}" if d["counts"] else ""))
    print(f"build {tb:.1f} s, total {wall:.1f} s, {validated} paths replayed natively, covers {sorted(got)}")
    for k, (e, v, r) in sorted(knownhit.items()): print(f"KNOWN-FINDING: property={prop} {known[k]['what']} (entry {e}, input {r['path']})")
    for x in incomplete: print("INCOMPLETE " + x)
    if viol:
        for e, v, r in viol:
            rp = f"{V}/build/replay/{prop}/{e}.replay.sh"
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, "w").write(f"#!/bin/sh\n# {v['label']}: {v['detail'][:600]!r}\nVP_TIER={tier} exec {exe} {e} {r['path']}\n"); os.chmod(rp, 0o755)
            print(f"  {e}: {v['label']} :: {v['detail'][:500]}")
            print(f"    inputs {v['inputs']}")
            print(f"    native: rc={r['rc']} fail={r['fail']} {r['err'][-200:]!r}")
            print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    bad = False
    for e, v, r in unrepro:
        print(f"NOT REPRODUCED natively: {e} {v['label']} {v['detail'][:600]} {v['inputs']} -> {r['rc']} {r['fail']} {r['err'][-200:]!r}"); bad = True
    for e, s, r in mism[:4]:
        print(f"SAMPLE MISMATCH: {e} {s} -> {r}"); bad = True
    if missing and not any("budget reached" in x for x in incomplete): print(f"VACUOUS: witnesses never reached: {missing}"); bad = True
    if res and not T["paths"]: bad = True
    # paths that could not be decided are an answer only about the rest; too many of them are none
    if any("not decided" in x or "engine ended" in x for x in incomplete): bad = True
    sys.exit(2 if bad else 0)
main()
