#!/usr/bin/env python3
"""check.py PROP - decides one property on /repo's current tree.
1. Verus on the mechanically extracted real code (the deciding step; vrun.py)
2. the compiled code explored by the harness (concrete replays; validates the shims' contracts)
exit 0 / exit 1 with a VIOLATION line, as DESIGN.md describes."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import vrun

REPO = vrun.REPO
HARNESS = os.path.join(VERIF, "harness")
P = json.load(open(os.path.join(VERIF, "vlib/props.json")))


def build_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    return e


def build_harness(work):
    """The harness links the current sources of /repo; the dependencies already compiled in /repo/target
    (git-ignored) are reused when it can be written to, otherwise everything is compiled in the work directory."""
    t0 = time.time()
    e = build_env()
    if REPO != "/repo":
        return None, "harness paths name /repo, VX_REPO is set", 0.0
    lock = os.path.join(HARNESS, "Cargo.lock")
    tgt = os.path.join(REPO, "target")
    cands = [tgt] if os.path.isdir(os.path.join(tgt, "debug/deps")) and os.access(tgt, os.W_OK) else []
    cands.append(os.path.join(work, "target"))
    why = ""
    # never trust file times for the code under check: its compiled form is dropped whenever its text changed
    import hashlib
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules", "ts"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update((os.path.join(root, f) + "\0").encode() + open(os.path.join(root, f), "rb").read())
    for t in cands:
        stamp = os.path.join(t, ".vh-sources")
        try:
            same = open(stamp).read() == h.hexdigest()
        except OSError:
            same = False
        if not same:
            fp = os.path.join(t, "debug/.fingerprint")
            for d in os.listdir(fp) if os.path.isdir(fp) else []:
                if d.startswith(("ibcx-", "vh-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            try:
                os.makedirs(t, exist_ok=True)
                open(stamp, "w").write(h.hexdigest())
            except OSError:
                pass
        e["CARGO_TARGET_DIR"] = t
        try:
            r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", "vh"], cwd=HARNESS, env=e, capture_output=True, text=True, timeout=600)
        except (subprocess.TimeoutExpired, OSError) as x:
            why = str(x)
            continue
        if r.returncode == 0:
            b = os.path.join(t, "debug/vh")
            mine = os.path.join(work, "vh")
            shutil.copy2(b, mine)
            return mine, "", time.time() - t0
        why = "\n".join(l for l in r.stderr.splitlines() if l.startswith("error"))[:1500] or r.stderr[-1500:]
        if "error[" in why or "could not compile" in why and "vh" in why:
            break
    return None, why, time.time() - t0


def explore(vh, prop, seed, secs, maxt, out):
    try:
        r = subprocess.run([vh, "run", prop, str(seed), str(secs), str(maxt), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return {"crashed": r.stderr[-500:], "returncode": r.returncode, "found": None, "evaluations": 0, "kinds": {}, "samples": [], "traces": 0, "aborted": 0}


def relevant(info, prop):
    return prop in info.get("props", []) or any(prop in c["props"] for c in info.get("clauses", []))


def trusted_scan(path):
    """assumptions in the verified text, as found in it"""
    out, ax = [], []
    mod = []
    names = {}
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return []
    pend = False
    for l in lines:
        s = l.strip()
        m = re.match(r"(?:pub )?mod (\w+)\s*\{", s)
        if m and not l.startswith(" "):
            mod = [m.group(1)]
        if re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
            out.append("assume/admit in the text: " + s[:120])
        m = re.search(r"\baxiom fn (\w+)", s)
        if m:
            ax.append(m.group(1))
        if "external_body" in s or "external_type_specification" in s:
            pend = True
        m = re.search(r"\bfn (\w+)", s)
        if m and pend:
            names.setdefault(mod[0] if mod else "?", []).append(m.group(1))
            pend = False
    if ax:
        out.append("axioms about the shim vocabulary: " + ", ".join(sorted(set(ax))))
    for k, v in sorted(names.items()):
        v = sorted(set(v))
        out.append(f"assumed contracts in module {k} ({len(v)} functions without verified body): " + ", ".join(v[:60]) + (" ..." if len(v) > 60 else ""))
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = P[prop]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vx_" + prop + "_")
    try:
        return decide(prop, tier, seed, cfg, t0, evdir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, cfg, t0, evdir, work):
    units = cfg.get("units", [])
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(build_harness, work)
        ferr = None
        try:
            vrun.build_extractor()
        except Exception as x:  # no extractor, no proof: degraded to the concrete layer
            ferr = str(x)
        fu = {} if ferr else {u: ex.submit(vrun.run_unit, u, os.path.join(work, u), False, (60 if tier == "thorough" else None)) for u in units}
        vh, hwhy, htime = fh.result()
        fe = None
        if vh:
            secs = 300 if tier == "thorough" else cfg.get("secs", 12)
            fe = ex.submit(explore, vh, prop, seed, secs, 10**9, os.path.join(work, "explore.json"))
        rs = {}
        for u, f in fu.items():
            try:
                rs[u] = f.result()
            except Exception as x:
                rs[u] = {"unit": u, "fatal": repr(x), "fails": [], "limits": [], "degraded": {}, "verified": 0, "errors": 0, "time": 0}
        e1 = fe.result() if fe else None
    # ---- what the verifier said about this property
    degraded = []       # reasons why (part of) the proof could not be redone on this tree
    hits = []           # rejected obligations that stand for this property, anchors intact
    soft = []           # rejected obligations that do not count as a broken property
    if ferr:
        degraded.append("extractor: " + ferr[:300])
    fns, clauses, trusted, names = 0, 0, [], []
    obligations = discharged = 0
    smt = 0.0
    for u, r in rs.items():
        m = r.get("map") or {"fns": {}, "missing": [], "unknown": [], "notes": []}
        if r["fatal"]:
            degraded.append(f"unit {u}: {r['fatal'][:400]}")
        known = set(vrun.load_unit(u)["known"])
        newfns = [x for x in m["unknown"] if x not in known]
        for f, why in r["degraded"].items():
            if relevant(m["fns"].get(f, {}), prop):
                degraded.append(f"{f} could not be translated: {why[:200]}")
        lost_fns = {f for f, i in m["fns"].items() if i.get("lost")}
        for f in lost_fns:
            if relevant(m["fns"][f], prop):
                degraded.append(f"{f}: proof hints lost: {m['fns'][f]['lost']}")
        miss = [f for f in m["missing"]]
        if miss:
            degraded.append(f"functions under contract no longer there: {miss[:5]}")
        for f in r["limits"]:
            if not f["fn"] or prop in f["props"] or relevant(m["fns"].get(f["fn"], {}), prop):
                degraded.append(f"solver limit in {f['fn']}: {f['message'][:120]}")
        for f in r["fails"]:
            mine = prop in f["props"] or "*" in f["props"]
            info = m["fns"].get(f["fn"] or "", {})
            if not mine and f["clause"] is None and relevant(info, prop):
                mine = True
            if not mine:
                continue
            if f["fn"] is None or f["fn"] in lost_fns or newfns or r["degraded"] or miss:
                soft.append(f)
            else:
                hits.append(f)
        if newfns:
            degraded.append(f"functions without a contract that were not there before: {newfns[:8]}") if soft else None
        names += sorted(f for f, i in m["fns"].items() if relevant(i, prop) and i.get("contract") and not i.get("degraded"))
        clauses += sum(1 for i in m["fns"].values() for c in i.get("clauses", []) if prop in c["props"])
        obligations += r["verified"] + r["errors"]
        discharged += r["verified"]
        smt += r.get("smt_ms", 0) / 1000.0
        trusted += [f"[{u}] {x}" for x in trusted_scan(os.path.join(work, u, u + ".rs"))]
        trusted += [f"[{u}] /repo function outside the contracts: {f}" for f in sorted(set(m["unknown"]) | (known & set(m.get("all", []))))]
        trusted += [f"[{u}] /repo function trusted: {f} ({i.get('trust')})" for f, i in m["fns"].items() if i.get("trust")]
        if r.get("canary") is False:
            degraded.append(f"unit {u}: the must-fail canary was accepted, its assumptions are contradictory")
        if not r["fatal"] and r["verified"] == 0:
            degraded.append(f"unit {u}: no obligation was generated")
    # ---- concrete layer
    # a rejected obligation, or code the proofs no longer cover, is worth a longer search
    if (hits or soft or degraded) and vh and not (e1 and e1.get("found")):
        left = max(20, min(240 if tier == "quick" else 1200, 780 - (time.time() - t0)))
        e2 = explore(vh, prop, seed + 7919, min(left, (100 if hits else 60) if tier == "quick" else 1200), 10**9, os.path.join(work, "explore2.json"))
        if e2:
            for k in ("evaluations", "traces", "aborted"):
                e2[k] = e2.get(k, 0) + (e1 or {}).get(k, 0)
            e1 = e2
    found = (e1 or {}).get("found")
    if vh and (e1 is None or e1.get("crashed") or e1.get("aborted", 0) * 2 > max(1, e1.get("traces", 0))):
        print(f"{prop}: concrete layer gave no usable answer: {(e1 or {}).get('aborted_why') or (e1 or {}).get('crashed')}")
    if not vh:
        degraded.append("harness does not build on this tree: " + hwhy[:300])
    replay = os.path.join(evdir, f"replay-{prop}.json")
    verdict = 0
    line = None
    if found:
        verdict = 1
        json.dump({"property": prop, "found": found, "how_to_run": f"{HARNESS}: cargo build, then vh replay {replay}",
                   "rejected_obligations": hits + soft}, open(replay, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={replay}"
        print(f"{prop}: {found['what'][:600]}")
        for h in found["history"][-3:]:
            print("   ", h[:300])
    elif hits:
        verdict = 1
        json.dump({"property": prop, "found": None, "rejected_obligations": hits, "concrete_search": {k: (e1 or {}).get(k) for k in ("traces", "evaluations", "wall_s")}},
                  open(replay, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
        for h in hits[:5]:
            print(f"{prop}: obligation rejected in {h['fn']}: {h['message']}: {(h['clause'] or '')[:300]}")
    proof = bool(units) and not degraded and not soft and discharged > 0
    level = cfg["level"] if (cfg["level"] != "proof" or proof or hits) else "exploration"
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "verus (Z3) on the text extracted from /repo by verus/extractor: " + ", ".join(f"python3 vlib/vrun.py {u}" for u in units),
        "trusted_base": trusted,
        "functions_under_contract": names, "clauses_for_property": clauses,
        "theorems": cfg.get("theorems", []), "solver_time_s": round(smt, 2),
        "units": {u: {"verified": r["verified"], "errors": r["errors"], "wall_s": round(r["time"], 1), "fatal": r["fatal"], "not_translated": r["degraded"]} for u, r in rs.items()},
        "degraded": degraded,
        "rejected_not_counted": [{"fn": s["fn"], "message": s["message"], "clause": s["clause"]} for s in soft],
        "evaluations": (e1 or {}).get("evaluations", 0),
        "distinct_nontrivial": sum(v for k, v in ((e1 or {}).get("kinds") or {}).items() if k.startswith("accepted")) or (e1 or {}).get("evaluations", 0),
        "rule": "concrete layer: random operation histories and edge-value inputs on the compiled code, compared with exact twins; an evaluation is one operation or query, non-trivial ones are those the code accepted",
        "samples": (e1 or {}).get("samples", [])[:2],
        "concrete_kinds": (e1 or {}).get("kinds", {}), "concrete_traces": (e1 or {}).get("traces", 0), "concrete_aborted": (e1 or {}).get("aborted", 0),
        "harness_build_s": round(htime, 1),
        "explanation": cfg.get("note", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + P.get("_assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": verdict}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for d in degraded:
        print(f"{prop}: degraded: {d[:300]}")
    print(f"{prop}: verus {discharged}/{obligations} in {', '.join(units) or '-'}; concrete {cov['evaluations']} evaluations; {time.time() - t0:.0f} s; level {level}")
    for k in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) (.*)", k)
        if m and m.group(1) == prop:
            print(f"KNOWN-FINDING: property={prop} {m.group(2)}")
    if line:
        print(line)
    return verdict


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.exit(rc)
