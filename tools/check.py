#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current tree.

1. Contracts: every unit of the property is expanded from the current source (tools/extract.py) and
   handed to Verus, which must discharge every obligation; a second copy with `assert(false)` at each
   body start must fail everywhere (no contradictory precondition).
2. Falsifier: the replay crate is built against /repo and searches for a concrete failing input. It
   replays failed obligations against the real code and is the labelled, bounded stand-in for functions
   outside the verifier's reach.

exit 0: held; exit 1 with VIOLATION line: broken; exit 2: the check itself could not run.
"""
import sys, os, json, time, signal, subprocess, re, threading, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("DD_REPO", "/repo")
sys.path.insert(0, HERE)
from extract import Unit, LostAnchor
from props import PROPS

VERUS_TIMEOUT = 300

def cargo_env():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(ROOT, ".build")
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_TERM_COLOR"] = "never"
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env.pop("RUSTFLAGS", None)
    return env

LIVE = set()    # Process groups of running commands, ended with this check.

def end_group(pid):
    try: os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass

def stop(signum, frame):
    for pid in list(LIVE): end_group(pid)
    os._exit(2)

def run(cmd, timeout, **kw):
    """Runs a command in a process group of its own, and ends the whole group (solvers included) after `timeout`."""
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    LIVE.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t0
    except subprocess.TimeoutExpired:
        end_group(p.pid)
        out, err = p.communicate()
        return None, out or "", err or "", time.time() - t0
    finally:
        LIVE.discard(p.pid)

# ---------------------------------------------------------------- Verus

def verus(text, tag, rlimit):
    d = tempfile.mkdtemp(prefix="vu-")
    path = os.path.join(d, re.sub(r"\W", "_", tag) + ".rs")
    open(path, "w").write(text)
    rc, out, err, dt = run(["verus", path, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent",
                            "--rlimit", str(rlimit), "--multiple-errors", "3", "--num-threads", "4"], VERUS_TIMEOUT, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    diags = []
    for ln in err.split("\n"):
        if ln.startswith("{"):
            try: diags.append(json.loads(ln))
            except ValueError: pass
    js = None
    k = out.find("{")
    if k >= 0:
        try: js = json.loads(out[k:])
        except ValueError: pass
    return {"rc": rc, "json": js, "diags": [x for x in diags if x.get("level") == "error" and x.get("spans")],
            "rest": [x.get("message", "") for x in diags if x.get("level") == "error" and not x.get("spans")], "err": err[-4000:], "s": dt, "path": path}

VERIF_MSG = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                       r"arithmetic underflow|decreases not satisfied|recommendation not met|unreachable|cannot show|"
                       r"Resource limit|rlimit|could not prove|termination|possible division|possible bit shift|index out of bounds|unable to prove|loop invariant")

def fn_lines(text):
    """line ranges of the extracted functions of an expansion"""
    r, line = {}, 1
    start = {}
    for ln in text.split("\n"):
        m = re.search(r"/\*@F (\d+)\*/", ln)
        if m: start[int(m.group(1))] = line
        m = re.search(r"/\*@E (\d+)\*/", ln)
        if m: r[int(m.group(1))] = (start[int(m.group(1))], line)
        line += 1
    return r

def owner(text, diag, rng=None):
    rng = rng or fn_lines(text)
    spans = diag["spans"]
    prim = [s for s in spans if not s.get("is_primary")] + [s for s in spans if s.get("is_primary")]
    hits = []
    for s in prim:
        for i, (a, b) in rng.items():
            if a <= s["line_start"] <= b: hits.append(i)
    return hits[0] if hits else None

def enclosing(text, line):
    """name of the function (extracted or ghost) around a line of an expansion"""
    ls = text.split("\n")
    for k in range(min(line, len(ls)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", ls[k])
        if m: return m.group(1)
    return "?"

def check_unit(name, res, rlimit):
    """verify one unit; stubs functions the verifier cannot take in and says so"""
    u = Unit(REPO, os.path.join(ROOT, "contracts", name + ".vrs"))
    out = {"unit": name, "functions": [], "obligations": 0, "discharged": 0, "failed": [], "undischarged": [], "smt_ms": 0, "s": 0,
           "desugared": [], "trusted": [], "vacuity": None, "status": "undecided", "note": ""}
    res[name] = out
    t0 = time.time()
    stub, reason = set(), {}
    text = r = None
    try:
        for rnd in range(8):
            text = u.expand(stub=stub)
            reason.update({i: "anchor lost: " + w for i, w in u.lost.items()})
            stub |= set(u.lost)
            r = verus(text, name, rlimit)
            j = r["json"]
            vr = (j or {}).get("verification-results", {})
            compiled = j is not None and not vr.get("encountered-vir-error") and "verified" in vr and \
                       all(VERIF_MSG.search(d["message"]) for d in r["diags"])
            if compiled or r["rc"] is None: break
            # a construct Verus does not take: leave those bodies out, keep their contracts, and say so
            rng = fn_lines(text)
            new = set()
            for d in r["diags"]:
                if VERIF_MSG.search(d["message"]): continue
                i = owner(text, d, rng)
                if i is not None and i not in stub:
                    new.add(i); reason[i] = "outside the verifier's reach: " + d["message"][:200]
            if not new:
                out["note"] = "unit not accepted by Verus: " + "; ".join(d["message"][:200] for d in r["diags"][:3]) + " ".join(r["rest"][:2])
                break
            stub |= new
        else:
            compiled = False
    except LostAnchor as e:
        out["note"] = "anchor lost: %s" % e
        out["functions"] = u.functions
        out["s"] = time.time() - t0
        return
    out["functions"] = u.functions
    out["desugared"] = u.desugarings
    out["trusted"] = trusted(text)
    if r["rc"] is None:
        out["note"] = "Verus exceeded %d s" % VERUS_TIMEOUT
    elif compiled:
        vr = r["json"]["verification-results"]
        out["obligations"] = vr["verified"] + vr["errors"]
        out["discharged"] = vr["verified"]
        tm = r["json"].get("times-ms", {})
        out["smt_ms"] = tm.get("smt", {}).get("smt-run", 0)
        rng = fn_lines(text)
        rl, fl = {}, {}
        for d in r["diags"]:
            i = owner(text, d, rng)
            ln = d["spans"][0]["line_start"]
            key = u.functions[i]["fn"] if i is not None else enclosing(text, ln)
            tgt = rl if re.search(r"Resource limit|rlimit", d["message"]) else fl
            tgt.setdefault((key, i), []).append(d.get("rendered", d["message"]))
        for (k, i), v in fl.items():
            out["failed"].append({"fn": k, "source": u.functions[i] if i is not None else None, "output": v})
        for (k, i), v in rl.items():
            if (k, i) not in fl: out["undischarged"].append({"fn": k, "why": "solver resource limit"})
        out["status"] = "failed" if fl else ("partial" if (rl or stub) else "verified")
    for i in sorted(stub):
        out["undischarged"].append({"fn": u.functions[i]["fn"], "file": u.functions[i]["file"], "why": reason.get(i, "")})
    out["s"] = time.time() - t0
    out["stub"] = sorted(stub)
    out["rlimit"] = rlimit

def vacuity(name, res, rlimit):
    u = Unit(REPO, os.path.join(ROOT, "contracts", name + ".vrs"))
    try:
        text = u.expand(vacuity=True)
    except LostAnchor:
        res[name + ":v"] = None; return
    r = verus(text, name + "_vac", rlimit)
    rng = fn_lines(text)
    bad = set()
    for d in r["diags"]:
        i = owner(text, d, rng)
        if i is not None: bad.add(i)
    vr = (r["json"] or {}).get("verification-results", {})
    # a copy that did not get as far as verification says nothing about vacuity
    ok = r["json"] is not None and not vr.get("encountered-vir-error") and "verified" in vr and \
         all(VERIF_MSG.search(d["message"]) for d in r["diags"]) and len(r["diags"]) > 0
    res[name + ":v"] = {"ran": ok, "vacuous": [u.functions[i]["fn"] for i in range(len(u.functions)) if i not in bad and i not in u.lost] if ok else []}

def trusted(text):
    """what the unit takes on trust: external bodies, assumed specifications, assume/admit"""
    t = re.sub(r"//[^\n]*", "", text)
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:(?:broadcast\s+)?proof\s+)?(fn|struct)\s+(\w+)", t):
        out.append("external_body %s %s" % (m.group(1), m.group(2)))
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", t):
        out.append("assume_specification " + m.group(1).strip())
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.append(m.group(1))
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", t):
        out.append("axiom " + m.group(1))
    return sorted(set(out))

# ---------------------------------------------------------------- falsifier

def build_falsifier(prop, cfg, res):
    cmd = ["cargo", "build", "--offline", "--bin", prop.lower()]
    if cfg.get("features"): cmd += ["--features", cfg["features"]]
    src = os.path.join(ROOT, "replay")
    work = src
    if REPO != "/repo":      # development aid: the same crate against another tree
        work = os.path.join(ROOT, ".build", "replay-" + re.sub(r"\W", "_", REPO))
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(src, work)
        t = open(work + "/Cargo.toml").read().replace('"/repo/', '"%s/' % REPO)
        open(work + "/Cargo.toml", "w").write(t)
    rc, out, err, dt = run(cmd, 700, cwd=work, env=cargo_env())
    res["build"] = {"rc": rc, "s": dt, "err": err[-6000:]}

def run_falsifier(prop, seed, thorough, budget, replay_path, scale=1):
    exe = os.path.join(ROOT, ".build", "debug", prop.lower())
    cmd = [exe, "--seed", str(seed), "--budget", str(budget), "--out", replay_path, "--scale", str(scale)] + (["--thorough"] if thorough else [])
    env = dict(os.environ); env["RUST_BACKTRACE"] = "0"
    d = tempfile.mkdtemp(prefix="fz-")
    env["TMPDIR"] = d
    try:
        rc, out, err, dt = run(cmd, budget + 180, cwd=d, env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc, out, err, dt

# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP): signal.signal(sig, stop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    thorough = tier == "thorough"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ROOT, ".build", "violations")
    os.makedirs(rep_dir, exist_ok=True)
    replay = os.path.join(rep_dir, prop + ".json")
    if os.path.exists(replay): os.remove(replay)

    res, bres = {}, {}
    threads = [threading.Thread(target=build_falsifier, args=(prop, cfg, bres))]
    rl = 40 if not thorough else 200
    for n in cfg.get("units", []):
        threads.append(threading.Thread(target=check_unit, args=(n, res, rl)))
        threads.append(threading.Thread(target=vacuity, args=(n, res, rl)))
    for t in threads: t.start()
    for t in threads: t.join()
    units = [res[n] for n in cfg.get("units", []) if n in res]
    if len(units) != len(cfg.get("units", [])):
        print("check error: a unit crashed"); sys.exit(2)

    fz = {"ran": False}
    violation = None
    b = bres.get("build", {"rc": 1, "err": "crashed"})
    if b["rc"] == 0:
        budget = 600 if thorough else 120
        rc, out, err, dt = run_falsifier(prop, seed, thorough, budget, replay)
        fz = {"ran": True, "s": round(dt, 1), "rc": rc}
        m = re.search(r"^EXPLORED (\{.*\})$", out, re.M)
        fz["explored"] = json.loads(m.group(1)) if m else {}
        if rc == 0 and m: pass
        elif rc is None or rc != 101:
            if not os.path.exists(replay):
                json.dump({"property": prop, "observed": "the falsifier ended abnormally (%s)" % rc, "output": (out + err)[-4000:]}, open(replay, "w"))
            violation = ("input", out.strip().split("\n")[:6])
        else:
            fz["error"] = (out + err)[-1000:]
    else:
        fz["error"] = "falsifier did not build: " + b["err"][-2000:]

    failed = [(u["unit"], f) for u in units for f in u["failed"]]
    # the code moved under the contracts: search longer for a concrete failing input before saying anything
    moved = failed or any(u["undischarged"] or u["status"] != "verified" for u in units)
    if violation is None and moved and fz["ran"] and not fz.get("error") and not thorough:
        left = max(60, min(300, 640 - (time.time() - t0)))
        rc, out, err, dt = run_falsifier(prop, seed + 1000, False, int(left), replay, scale=int(max(2, min(40, 0.8 * left / max(fz["s"], 1)))))
        m = re.search(r"^EXPLORED (\{.*\})$", out, re.M)
        fz["longer"] = {"s": round(dt, 1), "rc": rc, "explored": json.loads(m.group(1)) if m else {}}
        if not (rc == 0 and m) and rc != 101:
            if not os.path.exists(replay):
                json.dump({"property": prop, "observed": "the falsifier ended abnormally (%s)" % rc, "output": (out + err)[-4000:]}, open(replay, "w"))
            violation = ("input", out.strip().split("\n")[:6])
    # failed obligations of ghost-only functions are no statement about the code unless it moved under them
    if violation is None and failed:
        json.dump({"property": prop, "observed": "obligations not discharged", "failing_input": None,
                   "failed_obligations": [{"unit": un, "function": f["fn"], "source": f["source"], "verifier_output": f["output"]} for un, f in failed],
                   "explored_without_failure": fz.get("explored", {})}, open(replay, "w"), indent=1)
        violation = ("proof", ["%s :: %s" % (un, f["fn"]) for un, f in failed])
    elif violation is not None and failed and os.path.exists(replay):
        try:
            d = json.load(open(replay))
            d["failed_obligations"] = [{"unit": un, "function": f["fn"], "source": f["source"], "verifier_output": f["output"]} for un, f in failed]
            json.dump(d, open(replay, "w"), indent=1)
        except ValueError: pass

    vac = {n: (res.get(n + ":v") or {}).get("vacuous") for n in cfg.get("units", [])}
    vacuous = {n: v for n, v in vac.items() if v}
    fns = []
    for u in units:
        und = {(x["fn"]) for x in u["undischarged"]} | {f["fn"] for f in u["failed"]} | set(vacuous.get(u["unit"], []))
        for f in u["functions"]:
            fns.append({"unit": u["unit"], "fn": f["fn"], "file": f["file"], "line": f["line"], "context": f["context"], "instance": f.get("macro", ""),
                        "status": "not discharged" if (f["fn"] in und or u["status"] == "undecided") else "discharged"})
    obligations = sum(u["obligations"] for u in units)
    discharged = sum(u["discharged"] for u in units)
    trust = sorted({t for u in units for t in u["trusted"]})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus <expanded unit> --rlimit %d (units: %s; expansion: python3 tools/gen.py contracts/<unit>.vrs)" % (rl, ", ".join(cfg.get("units", []))),
            "back_end": "Verus 0.2026.09.13 with its bundled Z3",
            "trusted_base": trust + cfg.get("trust", []),
            "functions_under_contract": fns,
            "functions_under_contract_count": len(fns),
            "undischarged": [dict(x, unit=u["unit"]) for u in units for x in u["undischarged"]],
            "unit_notes": {u["unit"]: u["note"] for u in units if u["note"]},
            "desugarings": sorted({d for u in units for d in u["desugared"]}),
            "solver_ms": sum(u["smt_ms"] for u in units),
            "verus_s": round(sum(u["s"] for u in units), 1),
            "vacuous": vacuous,
            "bounded_stand_in": {"label": "bounded, not proved", "functions": cfg.get("bounded", []), "bound": cfg.get("bound", ""), **fz},
        },
        "assumptions": cfg.get("assume", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 0 if violation is None else 1,
    }
    json.dump(evidence, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)

    kf = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(kf):
        for ln in open(kf):
            if ln.startswith("KNOWN-FINDING: property=%s " % prop): print(ln.strip())
    print("%s: %d/%d obligations discharged over %d extracted functions; falsifier %s; %.0f s" %
          (prop, discharged, obligations, len(fns), json.dumps(fz.get("explored", fz.get("error", ""))), time.time() - t0))
    for u in units:
        if u["undischarged"] or u["note"]:
            print("  undischarged in %s: %s %s" % (u["unit"], ", ".join("%s (%s)" % (x["fn"], x["why"]) for x in u["undischarged"]), u["note"]))
    if vacuous:
        print("  NOT COUNTED as discharged: the contract of %s admits no input" % vacuous)
    if violation is None:
        if not fz["ran"] or fz.get("error"):
            print("  falsifier unavailable: %s" % fz.get("error", "")[-1500:])
            if not units or any(u["status"] != "verified" for u in units):
                sys.exit(2)
        sys.exit(0)
    for ln in violation[1]: print("  " + ln)
    tail = " no-failing-input-found" if violation[0] == "proof" else ""
    print("VIOLATION property=%s replay=%s%s" % (prop, replay, tail))
    sys.exit(1)

main()
