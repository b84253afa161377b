#!/usr/bin/env python3
"""check.py ID: decide property ID on /repo's current working tree."""
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KV_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def driver():
    exe = os.path.join(HERE, "driver/target/debug/kvdump")
    src = os.path.join(HERE, "driver/src/main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = sh(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(HERE, "driver"))
        if r.returncode:
            die("driver does not build:\n" + r.stdout[-3000:])
    return exe


def extract(work):
    """MIR of the crate as JSON, from the current tree"""
    exe = driver()
    os.makedirs(work, exist_ok=True)
    lib = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip() + "/lib"
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    out = os.path.join(work, "dump.%d.json" % os.getpid())
    target = os.environ.get("KV_TARGET", os.path.join(work, "target"))
    for d in glob.glob(target + "/debug/.fingerprint/klavier-core-*") + glob.glob(target + "/debug/build/klavier-core*"):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, LD_LIBRARY_PATH=lib, KVDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=REPO, env=env)
    if r.returncode or not os.path.exists(out):
        die("extraction failed:\n" + r.stdout[-4000:])
    return out


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(HERE, "work")
    dump = os.environ.get("KV_DUMP") or extract(work)
    t1 = time.time()
    from kv import world, prop, interp
    W = world.World(dump)
    if not os.environ.get("KV_DUMP"):
        os.unlink(dump)
    mod = importlib.import_module("kv.props." + pid.lower())
    env = prop.Env(pid, W, tier)
    try:
        mod.build(env)
    except interp.MissingAnchor as e:
        env.structural("anchor", str(e), [("missing", str(e))], 1)
    res = prop.run_all(env, int(os.environ.get("KV_JOBS", "8")))
    kf = {k["key"]: k for k in known() if k["property"] == pid and k.get("status", "open") == "open"}
    viols, shown, und = [], set(), []
    strict = "--strict" in sys.argv or os.environ.get("KV_STRICT")
    for r in res:
        for v in r["viol"]:
            if v["key"].endswith("|undecided") and not strict:
                und.append(v)
            elif v["key"] in kf:
                if v["key"] not in shown:
                    shown.add(v["key"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, kf[v["key"]]["what"]))
            else:
                viols.append(v)
    fns, opaque, loops = set(), {}, {}
    for r in res:
        fns.update(r["fns"])
        for k, n in r["opaque"].items():
            opaque[k] = opaque.get(k, 0) + n
        for k, n in r["loops"].items():
            loops[k] = loops.get(k, 0) + n
    local = sorted(f for f in fns if "crate::" in f)
    cov = {
        "explanation": mod.__doc__.strip() if mod.__doc__ else pid,
        "rule": getattr(mod, "RULE", "path-sensitive interprocedural dataflow over the crate's MIR; every abstract path of every listed obligation"),
        "obligations": len(res),
        "obligations_without_violation": sum(1 for r in res if not r["viol"]),
        "claims_decided": sum(r["stated"] for r in res),
        "abstract_paths": sum(r["paths"] for r in res),
        "calls_resolved": sum(r["calls"] for r in res),
        "crate_functions_analysed": len(local),
        "library_functions_analysed": len(fns) - len(local),
        "functions": local[:400],
        "loops_summarised": loops,
        "calls_left_opaque": dict(sorted(opaque.items())[:60]),
        "obligation_list": [{"obligation": r["key"], "paths": r["paths"], "claims": r["stated"], "violations": len(r["viol"])} for r in res][:600],
        "known_findings_reported": len(shown),
        "undecided_obligations": [{"obligation": v["key"], "why": v["detail"][:300]} for v in und],
        "extract_s": round(t1 - t0, 1),
    }
    cov.update(env.notes)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []) + BASE_ASSUME,
          "wall_s": round(time.time() - t0, 1), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d claims, %d abstract paths, %d crate functions, %.1f s" % (pid, len(res), cov["claims_decided"], cov["abstract_paths"], len(local), time.time() - t0))
    if "-v" in sys.argv:
        for r in sorted(res, key=lambda r: -r["wall"])[:12]:
            print("   %6.2fs %5d paths %s" % (r["wall"], r["paths"], r["key"]))
    for v in und:
        print("UNDECIDED: %s: %s" % (v["key"], v["detail"][:200]))
    if not viols:
        return 0
    rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
    with open(rp, "w") as f:
        for v in viols:
            f.write("%s\n  anchor: %s\n  %s\n  path:\n%s\n" % (v["key"], v["anchor"], v["detail"], "".join("    if %s\n" % c for c in v["path"])))
    for v in viols[:20]:
        print("  %s\n     %s" % (v["key"], v["detail"][:400]))
        if "-v" in sys.argv:
            for c in v["path"]:
                print("       if", c)
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


BASE_ASSUME = [
    "rustc's MIR for the current tree is what is compiled (overflow checks on, so arithmetic overflow is a panic)",
    "the transfer functions in kv/models.py describe std, klavier_helper stores, serdo undo store, once_cell, enumset and interval sets correctly",
    "inputs of restricted types satisfy the ranges established by C11",
]

if __name__ == "__main__":
    sys.exit(main())
