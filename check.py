#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  check.py C01            run the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py C01 --replay F run the failing case recorded in F again
  check.py --setup        build everything once
  check.py --baseline     record which calls/closures/loops each function under contract uses
"""
import json, os, re, subprocess, sys, time, threading, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build") if REPO == "/repo" else os.path.join("/tmp", "vb-" + re.sub(r"\W", "_", REPO))
PROPS = json.load(open(os.path.join(V, "props.json")))
BASELINE = os.path.join(V, "contracts", "baseline.json")
VERIFICATION_ERRORS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
                       "possible arithmetic", "possible division", "decreases not satisfied", "possible bit shift", "unreachable", "failed precondition",
                       "cannot show", "loop invariant", "requires not satisfied", "possible index", "unable to prove post-condition of closure")

def sh(cmd, env=None, timeout=None, cwd=None):
    cwd = cwd or B
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"): e.pop(k, None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, timeout=timeout, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timed out"

CARGO_ENV = {"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable"}

def build_vx():
    rc, o, e = sh(["cargo", "build", "--offline", "--locked", "-q"], {**CARGO_ENV, "CARGO_TARGET_DIR": B + "/vx"}, 600, V + "/vx")
    if rc != 0: raise RuntimeError("the extractor does not build:\n" + e[-3000:])
    return B + "/vx/debug/vx"

def harness_src(pid):
    """one include file per property, so that a change elsewhere cannot stop this one from compiling"""
    c = PROPS[pid]
    os.makedirs(B + "/inc", exist_ok=True)
    t = open(V + "/harness/inside/head.rs").read()
    mods = "".join('    pub mod %s { include!(concat!(env!("DIDCOMM_VERIF_DIR"), "/%s.rs")); }\n' % (m, m) for m in c["mods"])
    t = t.replace("/*MODS*/", mods).replace("/*ENTRY*/", '"%s" => %s(&mut ctx),' % (pid, c["entry"]))
    p = B + "/inc/%s.rs" % pid
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
    return p

def build_harness(pid):
    """returns (binary or None, how, log)"""
    d = V + "/harness"
    if REPO != "/repo":
        d = B + "/harness"
        os.makedirs(B, exist_ok=True)
        shutil.copytree(V + "/harness", d, dirs_exist_ok=True)
        t = open(d + "/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % REPO); open(d + "/Cargo.toml", "w").write(t)
        c = open(d + "/.cargo/config.toml").read().replace("../vendor", V + "/vendor"); open(d + "/.cargo/config.toml", "w").write(c)
    env = {**CARGO_ENV, "CARGO_TARGET_DIR": B + "/h", "RUSTFLAGS": "--cfg didcomm_verif -Awarnings",
           "DIDCOMM_VERIF_DIR": V + "/harness/inside", "DIDCOMM_VERIF_HARNESS": harness_src(pid)}
    rc, o, e = sh(["cargo", "build", "--offline", "--locked", "-q"], env, 800, d)
    if rc == 0: return B + "/h/debug/harness", "whole crate", ""
    return None, "does not compile", e[-4000:]

def words_file():
    """the short texts that the code itself mentions: names and values it may treat specially"""
    ws = set()
    for d, _, fs in os.walk(REPO + "/src"):
        if "test_vectors" in d: continue
        for f in fs:
            if not f.endswith(".rs"): continue
            t = open(os.path.join(d, f), errors="replace").read().split("#[cfg(test)]")[0]
            t = re.sub(r"//[^\n]*", "", t)
            ws |= {w for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t) if 0 < len(w) <= 64 and re.fullmatch(r"[ -~]+", w) and "\\" not in w}
    p = B + "/words.txt"; t = "\n".join(sorted(ws)) + "\n"
    if not os.path.exists(p) or open(p).read() != t:
        open(p + ".%d" % os.getpid(), "w").write(t); os.replace(p + ".%d" % os.getpid(), p)
    return p

def run_verus(pid, vx, vacuity, res):
    """one run; functions whose text Verus cannot read (they call something that has no contract, or leave its
    dialect) are then left out as stubs, so that the proofs of the others still speak"""
    out = []
    for _ in range(4):
        res.clear(); verus_once(pid, vx, vacuity, res, out)
        new = sorted({t["fn"] for t in classify(res)[1] if t.get("kind") == "verus" and t.get("fn")} - set(x["fn"] for x in out))
        if not new: break
        out += [{"kind": "left out", "fn": t["fn"], "msg": t["msg"]} for t in classify(res)[1] if t.get("kind") == "verus" and t.get("fn") in new]
    res["problems"] = res.get("problems", []) + out

def verus_once(pid, vx, vacuity, res, out_of_reach):
    c = PROPS[pid]
    d = B + "/gen/" + pid; os.makedirs(d, exist_ok=True)
    out = d + ("/vacuity.rs" if vacuity else "/proof.rs")
    vcs = ",".join(V + "/contracts/%s.vc" % x for x in c["vc"])
    cmd = [vx, "--repo", REPO, "--out", out, "--vc", vcs]
    only = list(c.get("targets") or []) + ["!" + k for k in sorted({x["fn"] for x in out_of_reach})]
    if only: cmd += ["--only", ",".join(only if c.get("targets") else ["*"] + only)]
    if vacuity: cmd += ["--vacuity"]
    if os.path.exists(BASELINE): cmd += ["--params", BASELINE]
    rc, o, e = sh(cmd, {}, 120)
    if rc != 0:
        res["problems"] = [{"kind": "extraction", "msg": (o + e)[-2000:]}]; res["fns"] = []; return
    m = json.load(open(out + ".map.json"))
    res["fns"] = m["fns"]; res["lemmas"] = m["lemmas"]; res["problems"] = m["errors"]
    t0 = time.time()
    rl = "60" if os.environ.get("VERIF_TIER") == "thorough" else "20"
    cmd = ["verus", out, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent", "--rlimit", "4" if vacuity else rl, "--multiple-errors", "1" if vacuity else "4"]
    res["cmd"] = " ".join(cmd)
    rc, o, e = sh(cmd, {}, 500)
    res["wall"] = time.time() - t0
    try: j = json.loads(o)
    except Exception: j = {}
    res["json"] = {k: j.get(k) for k in ("verification-results", "times-ms")}
    diags = []
    for l in e.splitlines():
        try: x = json.loads(l)
        except Exception: continue
        if x.get("level") not in ("error", "error: internal compiler error") or x["message"].startswith("aborting due"): continue
        diags.append(x)
    res["diags"] = diags; res["raw"] = e[-4000:] if not diags and rc != 0 else ""
    res["rc"] = rc

def fn_at(fns, line):
    for f in fns:
        if f.get("start", 0) <= line <= f.get("end", -1): return f
    return None

def lemma_at(lemmas, lines):
    """the lemma that encloses the failing place"""
    for l in lines:
        for x in lemmas:
            if x["start"] <= l <= x["end"]: return "lemma " + x["name"]
    return "lemma ?"

def classify(res):
    """-> (failed obligations, tool problems)"""
    failed, tool = [], []
    for p in res.get("problems", []): tool.append(p)
    for d in res.get("diags", []):
        lines = [s["line_start"] for s in d["spans"]]
        f = None
        for s in sorted(d["spans"], key=lambda s: (s["is_primary"] and "failed this" in (s.get("label") or ""))):
            f = f or fn_at(res["fns"], s["line_start"])
        # the span of a callee's requires may lie in another function: prefer "at this"/non-declaration spans
        if any(d["message"].startswith(v) or v in d["message"] for v in VERIFICATION_ERRORS) and "rlimit" not in d["message"]:
            failed.append({"fn": f["key"] if f else lemma_at(res.get("lemmas", []), lines), "fnobj": f, "msg": d["message"], "lines": lines, "text": "; ".join("%s: %s" % (s.get("label") or "", " ".join(t["text"].strip() for t in s["text"])[:300]) for s in d["spans"])})
        else:
            tool.append({"kind": "verus", "fn": f["key"] if f else None, "msg": d["message"][:500], "lines": lines})
    if res.get("rc", 1) != 0 and not res.get("diags") and not failed: tool.append({"kind": "verus", "msg": "verus failed: " + res.get("raw", "")[-800:]})
    return failed, tool

def scan_trusted(path):
    t = open(path).read()
    return {"external_body": len(re.findall(r"external_body", t)), "axiom": len(re.findall(r"\baxiom fn", t)), "assume_specification": len(re.findall(r"assume_specification", t)),
            "assume": len(re.findall(r"\bassume\(", t)), "admit": len(re.findall(r"\badmit\(", t))}

def proved_by(key):
    """the properties whose check verifies this function's body"""
    m = lambda p: key.startswith(p[:-1]) if p.endswith("*") else key == p
    return [i for i, c in PROPS.items() if c.get("vc") and (not c.get("targets") or (any(m(t) for t in c["targets"] if t[0] != "!") and not any(m(t[1:]) for t in c["targets"] if t[0] == "!")))]

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        vx = build_vx(); pid = sorted(PROPS)[0]
        b, how, log = build_harness(pid)
        print("extractor:", vx, "harness:", b, how); return 0
    if a and a[0] == "--baseline":
        vx = build_vx(); base = {}
        for pid in PROPS:
            if not PROPS[pid].get("vc"): continue
            r = {}; c = PROPS[pid]; out = B + "/gen/base.rs"; os.makedirs(B + "/gen", exist_ok=True)
            cmd = [vx, "--repo", REPO, "--out", out, "--vc", ",".join(V + "/contracts/%s.vc" % x for x in c["vc"])]
            rc, o, e = sh(cmd)
            m = json.load(open(out + ".map.json"))
            for f in m["fns"]:
                if f["mode"] == "verified": base[f["key"]] = {**f["vocab"], "params": f["params"]}
            if m["errors"]: print(pid, m["errors"])
        json.dump(base, open(BASELINE, "w"), indent=0, sort_keys=True); print(len(base), "functions"); return 0
    pid = a[0]; c = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        if "case" not in r: print(json.dumps(r, indent=1)); return 0
        hb, how, log = build_harness(pid)
        cmd = [hb, "--prop", pid, "--seed", str(r["seed"]), "--case", str(r["case"]), "--out", B + "/replay.json"] + (["--thorough"] if r.get("thorough") else [])
        rc, o, e = sh(cmd, {"DIDCOMM_VERIF_WORDS": words_file()}, 600); x = json.load(open(B + "/replay.json"))
        print(json.dumps(x["failures"], indent=1)); return rc

    H = {}
    def harness():
        try:
            hb, how, log = build_harness(pid)
            H.update(bin=hb, how=how, log=log)
            if hb:
                out = B + "/gen/%s-bounded.json" % pid; os.makedirs(B + "/gen", exist_ok=True)
                if os.path.exists(out): os.remove(out)
                rc, o, e = sh([hb, "--prop", pid, "--seed", str(seed), "--out", out] + (["--thorough"] if tier == "thorough" else []), {"DIDCOMM_VERIF_WORDS": words_file()}, 700)
                H["rc"] = rc
                if os.path.exists(out): H["res"] = json.load(open(out))
                else: H["log"] = "harness ended with %d: %s" % (rc, e[-1500:])
        except Exception as x: H["log"] = repr(x)
    P, W = {}, {}
    th = [threading.Thread(target=harness)] if c.get("entry") else []
    for t in th: t.start()
    err = None
    if c.get("vc"):
        try:
            vx = build_vx()
            tv = [threading.Thread(target=run_verus, args=(pid, vx, False, P)), threading.Thread(target=run_verus, args=(pid, vx, True, W))]
            for t in tv: t.start()
            for t in tv: t.join()
        except Exception as x: err = repr(x)
    for t in th: t.join()

    baseline = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    failed, tool = classify(P) if c.get("vc") and not err else ([], [{"kind": "tool", "msg": err}] if err else [])
    # an obligation counts as broken only when the function still uses nothing the contracts do not know about
    broken, undecided, other = [], [], []
    lost_serde = any(p.get("kind") == "serde" for p in tool)
    lost = {p.get("fn") for p in tool}
    for f in failed:
        o = f["fnobj"]; k = f["fn"]
        bv = baseline.get(k)
        if o is None:
            # a lemma over the generated JSON mappings and contracts; other properties' lemmas are theirs to report
            if k == "lemma ?": undecided.append(f); continue
            if k[6:] not in c.get("lemmas", []): other.append(f); continue
            (undecided if lost_serde else broken).append(f); continue
        if bv is None or k in lost or o.get("lost_hints"): undecided.append(f); continue
        v = o["vocab"]
        same = set(v["calls"]) <= set(bv["calls"]) and set(v["macros"]) <= set(bv["macros"]) and v["closures"] == bv["closures"] and v["loops"] == bv["loops"]
        (broken if same else undecided).append(f)
    # every lemma the property rests on must be in the file
    if c.get("vc") and not err and P.get("lemmas") is not None:
        for n in set(c.get("lemmas", [])) - {l["name"] for l in P["lemmas"]}: tool.append({"kind": "verus", "msg": "lemma %s is not in the contracts" % n})
    # nothing after a tool problem of the whole file is meaningful
    whole = [t for t in tool if t.get("kind") in ("verus", "tool", "extraction")]
    # vacuity: under `assert(false)` at its start every verified body must be rejected
    vac = []
    if c.get("vc") and not err:
        hit = {}
        for d in W.get("diags", []):
            for s in d["spans"]:
                f = fn_at(W["fns"], s["line_start"])
                # (out of resources is not accepted either)
                no = "assertion failed" in d["message"] or "rlimit" in d["message"]
                if f and no: hit[f["key"]] = hit.get(f["key"], 0) + 1
                l = lemma_at(W.get("lemmas", []), [s["line_start"]])
                if no: hit[l] = hit.get(l, 0) + 1
        for l in W.get("lemmas", []):
            if "lemma " + l["name"] not in hit: vac.append("lemma " + l["name"])
        for f in W.get("fns", []):
            if f["mode"] == "verified" and f["key"] not in hit: vac.append(f["key"])
        if any("assertion" not in d["message"] and not any(v in d["message"] for v in VERIFICATION_ERRORS) for d in W.get("diags", [])) and whole: vac = []
    vr = (P.get("json") or {}).get("verification-results") or {}
    nver, nerr = vr.get("verified", 0) or 0, vr.get("errors", 0) or 0
    verified_fns = [f for f in P.get("fns", []) if f["mode"] == "verified"]
    proved = bool(c.get("vc")) and len(failed) == len(other) and not tool and nver > 0 and not vac and (vr.get("success", False) or bool(other))

    res = H.get("res")
    fails = (res or {}).get("failures", [])
    kf = []
    if os.path.exists(V + "/known-findings.txt"):
        for l in open(V + "/known-findings.txt"):
            m = re.match(r"known: property=(\w+) label=(.+?) :: (.*)", l)
            if m and m.group(1) == pid: kf.append({"label": m.group(2), "what": m.group(3).strip()})
    new, seen = [], []
    for f in fails:
        k = next((k for k in kf if k["label"] == f["label"]), None)
        (seen if k else new).append((f, k))
    for k in kf:
        if any(s[1] is k for s in seen): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    code = 0; viol = 0
    for old in os.listdir(V + "/replays"):
        if old.startswith(pid + "-"): os.remove(V + "/replays/" + old)
    if new:
        f = new[0][0]; viol = len(new)
        path = V + "/replays/%s-input.json" % pid
        json.dump({"property": pid, "seed": seed, "thorough": tier == "thorough", "case": f["case"], "label": f["label"], "what": f["what"], "input": f["input"],
                   "failed_obligations": [{k: x[k] for k in ("fn", "msg", "text")} for x in broken + undecided], "rerun": "python3 /verif/check.py %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
        print("failing input (%s): %s" % (f["label"], f["what"][:600]))
        for x in broken: print("failed obligation: %s: %s" % (x["fn"], x["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path)); code = 1
    elif broken and not whole:
        viol = len(broken)
        path = V + "/replays/%s-obligation.json" % pid
        json.dump({"property": pid, "failed_obligations": [{k: x[k] for k in ("fn", "msg", "text", "lines")} for x in broken], "verifier": P.get("cmd"),
                   "verifier_output": [d.get("rendered", "") for d in P.get("diags", [])][:10]}, open(path, "w"), indent=1)
        for x in broken: print("failed obligation: %s: %s: %s" % (x["fn"], x["msg"], x["text"][:400]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)); code = 1
    else:
        for x in undecided[:5]: print("UNDECIDED obligation: %s: %s (the function uses operations its contract does not cover)" % (x["fn"], x["msg"]))
        for x in tool[:5]: print("UNDECIDED: %s" % json.dumps(x)[:400])
        if vac: print("UNDECIDED: vacuous: " + ", ".join(vac[:5]))
        if c.get("entry") and res is None: print("UNDECIDED: bounded part did not run: " + (H.get("log") or "")[-600:])
    trusted = []
    if c.get("vc") and os.path.exists(B + "/gen/%s/proof.rs" % pid):
        trusted = ["Verus 0.2026.09.13 with its bundled Z3, rustc", "vx extraction (see DESIGN.md: async, attributes, visibility and trait bounds without behaviour are dropped; == and listed std methods go through prelude wrappers)",
                   "contracts of the prelude and of external crates: " + json.dumps(scan_trusted(B + "/gen/%s/proof.rs" % pid))] + c.get("trusted", [])
    level = "proof" if proved else ("exploration" if res else "other")
    cov = {"obligations": nver + nerr, "discharged": nver, "checker_cmd": P.get("cmd", ""), "trusted_base": trusted,
           "functions_under_contract": [{"fn": f["key"], "source": "%s:%d" % (f["file"], f["line"]), "clauses": f["clauses"]} for f in verified_fns],
           "contract_clauses": sum(f["clauses"] for f in verified_fns),
           "contracts_used_here_and_proved_by_the_check_of": {k: v for k, v in ((f["key"], proved_by(f["key"])) for f in P.get("fns", []) if f["mode"] == "stub" and not f["key"].split("::")[-2].startswith("trait ")) if v},
           "assumed_contracts_of_repo_functions": sorted(f["key"] for f in P.get("fns", []) if f["mode"] == "trusted" or (f["mode"] == "stub" and not f["key"].split("::")[-2].startswith("trait ") and not proved_by(f["key"]))),
           "vacuity": {"bodies_with_must_fail_assertion": len([f for f in W.get("fns", []) if f["mode"] == "verified"]), "lemmas_with_must_fail_assertion": len(W.get("lemmas", [])), "not_reached": vac[:20]},
           "solver": {"wall_s": round(P.get("wall", 0), 2), "smt_ms": (((P.get("json") or {}).get("times-ms") or {}).get("smt") or {}).get("total")},
           "undecided": [{"fn": x["fn"], "msg": x["msg"]} for x in undecided] + tool[:10],
           "bounded_part": {"bound": (res or {}).get("bound"), "compiled": H.get("how"), "log": (H.get("log") or "")[-500:]}}
    if res: cov.update(evaluations=res["evaluations"], distinct_nontrivial=res["distinct_nontrivial"], rule=res["rule"], samples=res["samples"] or [{}])
    if level == "other": cov["explanation"] = "neither the proof nor the bounded part could be completed on this tree"
    if level == "exploration": cov["explanation"] = "the proof is not complete on this tree; only the bounded part speaks"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": c.get("assumptions", []) + trusted, "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %s; %d/%d obligations over %d functions; %s cases; %.1f s" % (pid, tier, {0: "held", 1: "VIOLATED"}[code] if proved or res or code else "NOT DECIDED", nver, nver + nerr, len(verified_fns), (res or {}).get("evaluations", "no"), time.time() - t0))
    if code == 0 and not proved and res is None: return 2
    return code

if __name__ == "__main__": sys.exit(main())
