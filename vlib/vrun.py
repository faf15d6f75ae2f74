"""Runs one verification unit: mechanical extraction of /repo's current sources, then Verus; maps
every diagnostic back to the contract clause (and so to the properties) it belongs to."""
import difflib
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
EXTRACT = os.path.join(VERIF, "verus/extractor/target/release/vxtract")
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"


def build_extractor():
    d = os.path.join(VERIF, "verus/extractor")
    srcs = [os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src"))]
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= max(os.path.getmtime(s) for s in srcs):
        return
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("extractor build failed: " + r.stderr[-2000:])


def pkg_info(path):
    name = ver = ""
    try:
        sec = ""
        for l in open(path):
            l = l.strip()
            if l.startswith("["): sec = l
            m = re.match(r'(name|version)\s*=\s*"([^"]*)"', l)
            if sec == "[package]" and m:
                if m.group(1) == "name": name = m.group(2)
                else: ver = m.group(2)
    except OSError:
        pass
    if not ver:
        try:
            t = open(os.path.join(REPO, "Cargo.toml")).read()
            m = re.search(r'\[workspace\.package\][^\[]*?version\s*=\s*"([^"]*)"', t)
            if m: ver = m.group(1)
        except OSError: pass
    return name, ver


def load_unit(unit):
    c = json.load(open(os.path.join(VERIF, "verus/units", unit + ".json")))
    c["specdir"] = os.path.join(VERIF, "verus/specs")
    c["specs"] = [s for s in c["specs"] if os.path.exists(os.path.join(c["specdir"], s))]
    c["shims"] = [os.path.join(VERIF, "verus/shim", s) for s in c["shims"]]
    c["tail"] = [os.path.join(VERIF, "verus/specs", s) for s in c.get("tail", []) if os.path.exists(os.path.join(VERIF, "verus/specs", s))]
    for k in c["crates"]:
        k["pkg"], k["version"] = pkg_info(os.path.join(REPO, k.get("cargo", "")))
        k["src"] = os.path.join(REPO, k["src"])
    kf = os.path.join(VERIF, "verus/units", unit + ".known")
    bf = os.path.join(VERIF, "verus/units", unit + ".base.json")
    c["base"] = json.load(open(bf)) if os.path.exists(bf) else {}
    c["known"] = open(kf).read().split() if os.path.exists(kf) else []
    return c


def diags(stderr):
    out = []
    for l in stderr.splitlines():
        l = l.strip()
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("$message_type", "diagnostic") != "diagnostic": continue
        out.append(d)
    return out


VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "loop invariant", "possible arithmetic", "decreases not satisfied", "could not prove termination", "recommendation not met",
              "unable to prove", "might not", "possible division", "ensures not satisfied", "bit shift", "requires not satisfied",
              "postcondition", "precondition", "termination", "possible")
LIMIT_MSGS = ("resource limit", "rlimit", "timed out", "timeout")


def kind(d):
    m = d["message"].lower()
    if any(x in m for x in LIMIT_MSGS): return "limit"
    if d.get("code") is None and any(x in m for x in VERIF_MSGS): return "proof"
    return "translate"


def seqs(fns):
    """the closures and loops of the functions whose contracts number them, in order of appearance"""
    return {f: dict(clo=i["clo_seq"], loop=i["loop_seq"]) for f, i in fns.items() if i.get("clo_seq") is not None}


def align(old, new):
    """old index -> new index, for lists of texts of different length"""
    out = {}
    for t, a, b, c, d in difflib.SequenceMatcher(None, old, new, False).get_opcodes():
        if t == "equal" or t == "replace":
            for x, y in zip(range(a, b), range(c, d)): out[x] = y
    return out


def renumber(base, fns):
    out = {}
    for f, s in seqs(fns).items():
        b = base.get(f)
        if not b: continue
        clo = {}
        for m in {k.rsplit(".", 1)[0] for k, _ in b["clo"]}:
            if m.startswith("let:"): continue
            o = [t for k, t in b["clo"] if k.rsplit(".", 1)[0] == m]
            n = [t for k, t in s["clo"] if k.rsplit(".", 1)[0] == m]
            if len(o) != len(n):
                al = align(o, n)
                for i in range(len(o)): clo[f"{m}.{i}"] = f"{m}.{al[i]}" if i in al else f"{m}.gone{i}"
        lp = {}
        if len(b["loop"]) != len(s["loop"]):
            al = align(b["loop"], s["loop"])
            for i in range(len(b["loop"])): lp[str(i)] = al.get(i, 1000 + i)
        clo = {k: v for k, v in clo.items() if k != v}
        lp = {k: v for k, v in lp.items() if int(k) != v}
        if clo or lp: out[f] = dict(clo=clo, loop=lp)
    return out


def run_unit(unit, workdir, verbose=False, rlimit=None, timeout=700, only_props=None):
    build_extractor()
    cfg = load_unit(unit)
    os.makedirs(workdir, exist_ok=True)
    res = {"unit": unit, "degraded": {}, "fails": [], "limits": [], "verified": 0, "errors": 0, "time": 0.0, "fatal": None, "iterations": 0}
    t0 = time.time()
    degrade = {}
    remap = {}
    # must fail: with all broadcast axioms in scope, false has to stay unprovable
    can = os.path.join(workdir, "canary.rs")
    open(can, "w").write("verus! {\npub mod vx_canary {\nuse vstd::prelude::*;\n" + "\n".join(l for l in cfg.get("uses", "").splitlines() if l.startswith("broadcast")) +
                         "\npub proof fn vx_canary_false(a: crate::vx::VxCanary) { assert(false); /* vx_canary_false */ }\n}\n}\n".replace("a: crate::vx::VxCanary", ""))
    cfg["tail"] = cfg["tail"] + [can]
    while True:
        res["iterations"] += 1
        cfg["degrade"] = sorted(degrade)
        cfg["remap"] = remap
        uj, rs, mp = (os.path.join(workdir, unit + s) for s in (".unit.json", ".rs", ".map.json"))
        json.dump(cfg, open(uj, "w"))
        r = subprocess.run([EXTRACT, uj, rs, mp], capture_output=True, text=True)
        if r.returncode != 0:
            res["fatal"] = "extraction: " + r.stderr[-1500:]
            break
        m = json.load(open(mp))
        if res["iterations"] == 1:
            remap = renumber(cfg["base"], m["fns"])
            if remap:
                cfg["remap"] = remap
                json.dump(cfg, open(uj, "w"))
                r = subprocess.run([EXTRACT, uj, rs, mp], capture_output=True, text=True)
                if r.returncode != 0:
                    res["fatal"] = "extraction: " + r.stderr[-1500:]
                    break
                m = json.load(open(mp))
        res["remap"] = remap
        res["map"] = m
        if m["errors"]:
            res["fatal"] = "extraction: " + "; ".join(m["errors"])
            break
        cmd = [VERUS, rs, "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "30", "--triggers-mode", "silent", "--num-threads", "8", "--no-report-long-running"]
        if rlimit: cmd += ["--rlimit", str(rlimit)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=workdir, timeout=timeout)
        except subprocess.TimeoutExpired:
            res["fatal"] = "verus timed out"
            break
        ds = [d for d in diags(r.stderr) if d["level"] == "error" and not d["message"].startswith("aborting due to")]
        open(os.path.join(workdir, unit + ".stderr"), "w").write(r.stderr)
        nds = [d for d in ds if not any("vx_canary_false" in (t.get("text") or "") for s in d["spans"] for t in s.get("text", []))]
        res["canary"] = len(nds) < len(ds)
        ds = nds
        spans = sorted(m["lines"], key=lambda x: x["start"])
        def fn_at(line):
            best = None
            for s in spans:
                if s["start"] <= line <= s["end"] and (best is None or s["start"] > best["start"]): best = s
            return best["fn"] if best else None
        clause_at = {}
        for c in m["clauses"]: clause_at.setdefault(c["line"], []).append(c)
        tr = [d for d in ds if kind(d) == "translate"]
        if tr:
            new = {}
            outside = []
            for d in tr:
                prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
                f = None
                for s in prim:
                    f = f or fn_at(s["line_start"])
                if not f:
                    for s in d["spans"]: f = f or fn_at(s["line_start"])
                if f and f not in degrade: new[f] = d["message"][:300]
                elif not f: outside.append((d["message"][:300], [s["line_start"] for s in prim][:3]))
            if verbose:
                for d in tr:
                    print("TRANSLATE", d["message"][:400], [(fn_at(s["line_start"]), s["line_start"], s.get("label")) for s in d["spans"]][:3], file=sys.stderr)
            if new and res["iterations"] <= 5 and not verbose:
                degrade.update(new)
                continue
            res["fatal"] = "translation: " + "; ".join(f"{a} {b}" for a, b in outside) if outside else "translation: " + json.dumps(new)
            break
        try:
            j = json.loads(r.stdout[r.stdout.index("{"):])
            vr = j["verification-results"]
            res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0) - (1 if res["canary"] else 0)
            res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
            res["times"] = j.get("times-ms", {})
        except (ValueError, KeyError):
            if not ds:
                res["fatal"] = "verus gave no result: " + r.stderr[-800:]
                break
        for d in ds:
            hit = None
            lines = []
            for s in d["spans"]:
                lines.append({"line": s["line_start"], "label": s.get("label"), "text": (s["text"][0]["text"].strip()[:300] if s.get("text") else "")})
            prim = [s for s in d["spans"] if s.get("is_primary")]
            fn = None
            for s in prim or d["spans"]: fn = fn or fn_at(s["line_start"])
            for s in d["spans"]:
                if "failed this postcondition" in (s.get("label") or ""):
                    for c in clause_at.get(s["line_start"], []): hit = c
            if hit is None and "postcondition" in d["message"]:
                for s in d["spans"]:
                    for c in clause_at.get(s["line_start"], []): hit = c
            if hit: fn = hit["fn"] if hit["fn"] in m["fns"] else fn
            info = m["fns"].get(fn or "", {})
            props = []
            clause = None
            if hit and hit["fn"] == fn:
                cl = info.get("clauses", [])[hit["clause"]]
                clause = cl["text"]; props = cl["props"]
            if not props: props = info.get("props", [])
            item = {"fn": fn, "message": d["message"], "clause": clause, "props": props, "spans": lines}
            (res["limits"] if kind(d) == "limit" else res["fails"]).append(item)
            # a closure or loop that was not there before has no contract: what its function no longer proves says nothing
            nb, ob = seqs(m["fns"]).get(fn or ""), cfg["base"].get(fn or "")
            if nb and ob and (len(nb["clo"]) > len(ob["clo"]) or len(nb["loop"]) > len(ob["loop"])) and not info.get("lost"):
                info["lost"] = ["a new closure or loop without a contract"]
            if verbose: print(("LIMIT " if kind(d) == "limit" else "FAIL ") + d["message"], "\n   fn", fn, "\n   clause", clause, "\n   ", "\n    ".join(f"{l['line']}: {l['label']}: {l['text']}" for l in lines), file=sys.stderr)
        break
    res["degraded"] = degrade
    res["time"] = time.time() - t0
    return res


if __name__ == "__main__":
    unit = sys.argv[1]
    r = run_unit(unit, "/tmp/vx_" + unit, verbose="-q" not in sys.argv, rlimit=None)
    m = r.pop("map", None)
    if m:
        print("missing", m["missing"])
        print("unknown", len(m["unknown"]))
        if "-b" in sys.argv: json.dump(seqs(m["fns"]), open(os.path.join(VERIF, "verus/units", unit + ".base.json"), "w"), indent=0, sort_keys=True)
        if "-u" in sys.argv: print("\n".join(m["unknown"]))
        for k, f in m["fns"].items():
            if f.get("lost") or f.get("anchor"): print("LOST", k, f.get("lost"), f.get("anchor"))
        if "-p" in sys.argv:
            for k, f in m["fns"].items():
                if f.get("plain_closures"): print("PLAIN", k, f["plain_closures"])
        print("notes", m["notes"])
    print({k: v for k, v in r.items() if k not in ("fails", "limits", "times")})
