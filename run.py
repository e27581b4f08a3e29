#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property of /repo by symbolic execution and SMT.

exit 0: held on everything explored (findings listed in known_findings.json are printed, not raised)
exit 1: a counterexample was found by the solver and reproduced natively (VIOLATION line)
exit 2: the check could not be built
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "--setup":
        # checks build what they need themselves; this only proves that the engine builds offline
        vlib.lock()
        try: print(vlib.engine())
        finally: vlib.unlock()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    cfg = json.load(open(os.path.join(vlib.VERIF, "checks.json")))[prop]
    known = [k for k in json.load(open(os.path.join(vlib.VERIF, "known_findings.json")))["findings"] if k["property"] == prop and k["status"] == "open"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    files = cfg["harness"]
    extra = cfg.get("extra_src", [])
    defines = ["TIER=%d" % (2 if tier == "thorough" else 1)] + cfg.get("defines", [])
    names = []
    for f in files:
        src = open(os.path.join(vlib.VERIF, "harness", f)).read()
        names += ["harness_" + m for m in re.findall(r"^HARNESS\((\w+)\)", src, re.M)]
    if cfg.get("select"):
        names = [n for n in names if re.match("harness_(kf_)?(t_)?(%s)" % cfg["select"], n)]
    if tier != "thorough":
        names = [n for n in names if not n.startswith("harness_t_")]
    if only:
        names = [n for n in names if re.search(only, n)]
    if not names:
        print("no harness for", prop); return 2
    budget = cfg.get("budget_thorough", 600) if tier == "thorough" else cfg.get("budget", 120)
    qms = cfg.get("query_ms_thorough", 60000) if tier == "thorough" else cfg.get("query_ms", 15000)

    vlib.lock()
    try:
        if cfg.get("cuda"): vlib.use_cuda()
        box = {}
        def eng():
            try: box["eng"] = vlib.engine()
            except Exception as e: box["engerr"] = e
        th = threading.Thread(target=eng); th.start()
        try:
            bc = vlib.bitcode(files, defines, extra)
        except vlib.BuildError as e:
            th.join()
            print("BUILD ERROR (the check gives no answer):\n%s" % e); return 2
        th.join()
        if "engerr" in box:
            print("ENGINE BUILD ERROR: %s" % box["engerr"]); return 2
    finally:
        vlib.unlock()
    build_s = time.time() - t0
    out = tempfile.mkdtemp(prefix="symx-%s-" % prop)
    natbox = {}
    def nat():
        try:
            vlib.lock()
            natbox["exe"] = vlib.native(files, defines, extra)
        except Exception as e:
            natbox["err"] = str(e)
        finally:
            vlib.unlock()
    nth = threading.Thread(target=nat); nth.start()
    try:
        return explore(prop, tier, seed, cfg, known, names, budget, qms, box["eng"], bc, out, nth, natbox, t0, build_s)
    finally:
        nth.join()
        shutil.rmtree(out, ignore_errors=True)

def explore(prop, tier, seed, cfg, known, names, budget, qms, eng, bc, out, nth, natbox, t0, build_s):
    cmd = [eng, bc, "--out", out, "--budget", str(budget), "--jobs", str(vlib.NCPU), "--query-ms", str(qms), "--harness", ",".join(names)]
    hard = 780 - (time.time() - t0) if tier != "thorough" else 3 * 3600
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=hard, start_new_session=True)
        log = r.stdout
    except subprocess.TimeoutExpired as e:
        log = "engine stopped after %ds\n" % hard
        os.system("pkill -9 -f %s" % out)
    nth.join()
    res, cands, samples = {}, [], []
    for n in names:
        p = os.path.join(out, n + ".json")
        if os.path.exists(p):
            res[n] = json.load(open(p))
    for p in sorted(glob.glob(os.path.join(out, "viol_*.json"))):
        try: cands.append(json.load(open(p)))
        except ValueError: pass
    for n in names:
        for p in sorted(glob.glob(os.path.join(out, "sample_%s_[0-9].json" % n))):
            try: samples.append((n, json.load(open(p))))
            except ValueError: pass
    inconcl, confirmed, knownhits = [], [], []
    exe = natbox.get("exe")
    if natbox.get("err"):
        inconcl.append("native build failed: " + natbox["err"][-300:])
    per = {}
    for c in cands:
        key = (c["harness"], c["kind"], c["msg"])
        if per.get(key, 0) >= 3: continue
        if not exe:
            inconcl.append("candidate not replayed: %s %s" % (c["harness"], c["msg"])); continue
        v, txt = vlib.replay(exe, c["harness"], c["inputs"], os.path.join(out, "scratch"))
        c["replay"] = v; c["replay_text"] = txt[-2500:]
        if v != "violation":
            inconcl.append("candidate did not reproduce natively (%s): %s: %s [%s] %s" % (v, c["harness"], c["msg"], c["kind"], txt[-200:].strip()) + " with " + ", ".join("%s=%s" % (i["name"], i["hex"]) for i in c["inputs"][:12]))
            continue
        per[key] = per.get(key, 0) + 1
        k = match_known(known, c)
        (knownhits if k else confirmed).append((k, c))
    validated, disagreed = 0, 0
    for n, inp in samples:
        if not exe: break
        if res.get(n, {}).get("violations"): continue
        v, txt = vlib.replay(exe, n, inp, os.path.join(out, "scratch"))
        if v == "ok": validated += 1
        elif v == "violation":
            disagreed += 1
            c = {"harness": n, "kind": "native", "msg": "native run of an explored path violates the property", "inputs": inp, "replay_text": txt[-2500:], "stack": "", "mode": ""}
            # a path the solver accepted fails natively: an arithmetic-model difference, reported only as inconclusive
            inconcl.append("explored path fails natively: %s: %s" % (n, txt[-300:].strip()))
        else: inconcl.append("sample path not replayed (%s): %s" % (v, n))
    tot = lambda k: sum(r.get(k, 0) for r in res.values())
    vac = [n for n in names if res.get(n, {}).get("reach", {}).get("end", 0) == 0 and not n.startswith("harness_kf_")]
    for n in vac:
        if not res.get(n, {}).get("violations"): inconcl.append("harness never reached its end: " + n)
    for n, r_ in res.items():
        for e in r_.get("errors", {}): inconcl.append("%s: %s" % (n, e))
        if r_.get("incomplete"): inconcl.append("%s: exploration stopped by its time budget on %d paths" % (n, r_["incomplete"]))
        if r_.get("uninit_reads") and not cfg.get("allow_uninit"): pass
    missing = [n for n in names if n not in res]
    for n in missing: inconcl.append("no result for " + n)
    funcs = sorted(set(f for r_ in res.values() for f in r_.get("functions", [])))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
            "samples": [{"harness": n, "inputs": [(i["name"], i["dec"]) for i in inp][:40]} for n, inp in samples[:6]],
            "states_meaning": "feasible paths of the symbolic execution, each standing for every input that satisfies its path condition",
            "transitions_meaning": "LLVM IR instructions executed symbolically",
            "functions_encoded": len(funcs), "functions": funcs[:400],
            "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"), "queries_cached": tot("cached"),
            "solver_s": round(tot("solver_s"), 3), "assertions_checked": tot("asserts"), "assertions_true_syntactically": tot("asserts_concrete"),
            "assertions_closed_by_normal_form": tot("nf_closed"), "assertions_nf_confirmed_by_z3": tot("nf_z3"), "assertions_inconclusive": tot("inconclusive"),
            "paths_ending_in_an_allowed_trap": tot("paths_trapped"), "paths_infeasible": tot("paths_infeasible"), "paths_lost_to_engine_errors": tot("paths_error"),
            "paths_cut_by_budget": tot("incomplete"), "symbolic_values_enumerated": tot("concretised"), "nonzero_divisor_assumptions": tot("div_assumptions"),
            "candidates": len(cands), "candidates_confirmed_natively": len(confirmed) + len(knownhits),
            "exhaustive": not (tot("incomplete") or tot("paths_error") or tot("inconclusive") or missing or vac),
            "bounds": cfg.get("bounds", ""), "outside": cfg.get("outside", ""),
            "harnesses": {n: {k: r_.get(k) for k in ("paths", "queries", "asserts", "solver_s", "wall_s", "paths_error", "incomplete", "inconclusive", "violations")} for n, r_ in res.items()},
            "inconclusive": inconcl[:40],
        },
        "assumptions": cfg.get("assumptions", []) + ["logging, time, mutexes and the C allocator are modelled; exceptions and threads are not executed", "counterexamples count only when the native build (ASan, same sources) reproduces them"],
        "build_s": round(build_s, 1), "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    for k, c in {(k["id"]): (k, c) for k, c in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    if confirmed:
        rd = os.path.join(vlib.VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, (_, c) in enumerate(confirmed):
            key = (c["harness"], c["kind"], c["msg"])
            if key in seen: continue
            seen.add(key)
            rp = os.path.join(rd, "%s-%s-%d.json" % (prop, c["harness"], i))
            json.dump(c, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  %s: %s: %s  [%s]" % (c["harness"], c["kind"], c["msg"], c.get("stack", "")[:200]))
            print("  inputs: " + ", ".join("%s=%s" % (x["name"], x["dec"]) for x in c["inputs"][:40]))
        rc = 1
    ev["coverage"]["confirmed"] = [{"harness": c["harness"], "msg": c["msg"]} for _, c in confirmed][:20]
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for i in inconcl[:20]: print("INCONCLUSIVE:", i)
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1fs solver), %d functions, %d replayed, %.1fs total (build %.1fs)%s" % (
        prop, tier, len(names), tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), len(funcs), validated, time.time() - t0, build_s, "" if rc == 0 else "  VIOLATED"))
    if os.environ.get("VERBOSE"):
        for n, r_ in res.items(): print("  ", n, {k: r_.get(k) for k in ("paths", "paths_trapped", "queries", "asserts", "wall_s", "paths_error", "incomplete", "inconclusive", "violations", "reach")})
        print(log[-3000:])
    return rc

def match_known(known, c):
    for k in known:
        m = k["match"]
        if m.get("harness") and m["harness"] != c["harness"]: continue
        if m.get("kind") and m["kind"] != c["kind"]: continue
        if m.get("msg") and m["msg"] != c["msg"]: continue
        ok = True
        for n, v in m.get("inputs", {}).items():
            if not any(i["name"] == n and str(i["dec"]) in ([str(x) for x in v] if isinstance(v, list) else [str(v)]) for i in c["inputs"]): ok = False
        if ok: return k
    return None

sys.exit(main())
