#!/usr/bin/env python3
"""Runner of one check:  run.py C01   (VERIF_SEED, VERIF_TIER from the environment)

Order of decision
  1. every obligation generated from /repo's current text is discharged by the verifier(s), and the native replay of the
     same text against the executable specification finds nothing            -> exit 0
  2. the native replay finds a failing input on the real code                -> VIOLATION with that input
  3. a generated obligation is refuted / not provable with all contracts and invariants attached, no input found
                                                                             -> VIOLATION .. no-failing-input-found
  4. the proof could not be redone (a function moved, changed shape or uses a construct the verifier does not take, or the
     solver ran out of resources): undecided, never an alarm.  The bounded native search on the current text decides,
     and the evidence of that run says so (level exploration).
  5. nothing could be run at all                                             -> exit 2
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustsrc import DROPS, LostAnchor  # noqa: E402
from template import PROBE_DECL, REPO, VERIF, Expander  # noqa: E402

DEPS = "/opt/vp/target/debug/deps"
TOOLCHAIN = "1.94-x86_64-unknown-linux-gnu"
UNDECIDED = ("rlimit", "resource limit", "timed out", "timeout", "Resource", "could not determine")


def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, r = p.communicate()
        return 124, o, r + "\n[timeout]"


class Unit:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.status = "?"  # ok / failed / undecided / error
        self.reason = ""
        self.obligations = self.discharged = 0
        self.failed = []  # [(function, message, rendered)]
        self.functions = []
        self.trusted = []
        self.solver_s = 0.0
        self.cmd = ""
        self.log = ""
        self.subs = []
        self.inlined = []
        self.probes = 0
        self.bounded = None


# ------------------------------------------------------------------ Verus

def run_verus(cid, cfg, tmp, tier):
    u = Unit("verus", cfg["file"])
    path = os.path.join(VERIF, "checks", cid, cfg["file"])
    with open(path) as f:
        tpl = f.read()
    rl = cfg.get("rlimit", 40) * (3 if tier == "thorough" else 1)
    u.cmd = f"verus --rlimit {rl} <contracts of checks/{cid}/{cfg['file']} spliced into /repo's text>"
    try:
        x = Expander("verus")
        gen = x.expand(tpl)
        xv = Expander("vac")
        genv = xv.expand(tpl)
    except LostAnchor as e:
        u.status, u.reason = "undecided", f"lost anchor: {e}"
        return u
    u.functions = [f"{r.file} :: {r.name}" for r in x.regions if r.contracted]
    u.trusted = trusted_scan(gen)
    u.subs, u.inlined = x.subs, x.inlined
    base = os.path.splitext(cfg["file"])[0]
    g, gv = os.path.join(tmp, base + "_v.rs"), os.path.join(tmp, base + "_vac.rs")
    with open(g, "w") as f:
        f.write(gen)
    with open(gv, "w") as f:
        f.write(genv + PROBE_DECL)
    extra = cfg.get("args", [])
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, ["verus", g, "--output-json", "--time-expanded", "--multiple-errors", "6", "--rlimit", str(rl),
                           "--num-threads", "4"] + extra + ["--", "--error-format=json"], tmp, cfg.get("timeout", 400))
        b = ex.submit(sh, ["verus", gv, "--output-json", "--multiple-errors", "40", "--rlimit", str(rl), "--num-threads", "4"]
                      + extra + ["--", "--error-format=json"], tmp, cfg.get("timeout", 400))
        rc, out, err = a.result()
        rcv, outv, errv = b.result()
    if rc == 124:
        u.status, u.reason = "undecided", "verifier timeout"
        return u
    try:
        d = json.loads(out)
    except Exception:
        u.status, u.reason, u.log = "undecided", "no verifier output", err[-3000:]
        return u
    vr = d["verification-results"]
    diags = parse_diags(err)
    errs = [m for m in diags if m["level"] == "error" and m["spans"]]
    u.log = "\n".join(m["rendered"] or m["message"] for m in errs)[:20000]
    if vr.get("encountered-vir-error") or "verified" not in vr or (vr["verified"] == 0 and vr["errors"] == 0):
        u.status, u.reason = "undecided", "verifier does not accept the current text: " + (errs[0]["message"] if errs else err[-300:])
        return u
    u.obligations = vr["verified"] + vr["errors"]
    u.discharged = vr["verified"]
    try:
        u.solver_s = d["times-ms"]["smt"]["total"] / 1000.0
    except Exception:
        pass
    if vr["errors"] == 0 and vr["success"]:
        # reachability probes: behind every precondition and every loop invariant `assert(false)` has to fail
        hit = set()
        for m in parse_diags(errv):
            if m["level"] != "error":
                continue
            for s in m["spans"]:
                for t in s.get("text", []):
                    hit.update(int(k) for k in re.findall(r"/\*probe (\d+)\*/", t["text"]))
        want = {p for r in xv.regions for p in r.probes}
        u.probes = len(want)
        miss = want - hit
        if miss:
            bad = [r.name for r in xv.regions if set(r.probes) & miss]
            u.status, u.reason = "error", f"vacuous contract or unreachable code: probe not refuted in {bad}"
            if rcv == 124 or any(w in errv for w in ("rlimit", "Resource limit")):
                u.status, u.reason = "ok", "vacuity probes ran out of resources"
            elif cfg.get("novac"):
                u.status = "ok"
            return u
        if not u.functions:
            u.status, u.reason = "error", "no contracted function"
            return u
        u.status = "ok"
        return u
    undec = False
    for m in errs:
        lines = [s["line_start"] for s in m["spans"] if s["is_primary"]] or [m["spans"][0]["line_start"]]
        fn = region_of(x, lines[0], [s["line_start"] for s in m["spans"]])
        if any(w in m["message"] for w in UNDECIDED):
            undec = True
            u.reason = f"solver resources: {fn}"
        else:
            u.failed.append((fn, m["message"], (m["rendered"] or "")[:3000]))
    if u.failed:
        u.status = "failed"
    else:
        u.status = "undecided"
        u.reason = u.reason or "verifier reported errors without a failed obligation"
    return u


def region_of(x, line, all_lines):
    for ln in [line] + all_lines:
        for r in x.regions:
            if r.lo <= ln <= r.hi + 1:
                return f"{r.file} :: {r.name}"
    return "lemma/shim in the template"


def parse_diags(err):
    out = []
    for ln in err.splitlines():
        if ln.startswith("{"):
            try:
                out.append(json.loads(ln))
            except Exception:
                pass
    return out


def trusted_scan(text):
    out = []
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        s = ln.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\b(assume|admit)\s*\(", s):
            out.append(f"assume/admit: {s[:120]}")
        if "external_body" in s or "assume_specification" in s or "external_type_specification" in s or "uninterp spec fn" in s \
                or re.search(r"\baxiom\b", s):
            j = i
            desc = s
            if s.endswith("]"):
                for j in range(i + 1, min(i + 6, len(lines))):
                    if re.search(r"\b(fn|struct|enum|type)\b", lines[j]):
                        desc = s + " " + lines[j].strip()
                        break
            out.append(desc[:160])
    return out


# ------------------------------------------------------------------ Kani

def run_kani(cid, cfg, tmp, tier):
    base = os.path.splitext(cfg["file"])[0]
    with open(os.path.join(VERIF, "checks", cid, cfg["file"])) as f:
        tpl = f.read()
    units = []
    try:
        x = Expander("plain")
        gen = x.expand(tpl)
    except LostAnchor as e:
        u = Unit("kani", cfg["file"])
        u.status, u.reason = "undecided", f"lost anchor: {e}"
        return [u]
    d = os.path.join(tmp, base + "_k")
    os.makedirs(d, exist_ok=True)
    g = os.path.join(d, base + ".rs")
    with open(g, "w") as f:
        f.write(gen)
    names = [h for h in cfg["harnesses"] if tier == "thorough" or not h.get("thorough")]

    def one(h):
        u = Unit("kani", f"{cfg['file']}::{h['name']}")
        u.bounded = h.get("bounded")
        hd = os.path.join(d, h["name"])
        os.makedirs(hd, exist_ok=True)
        shutil.copy(g, hd)
        cmd = ["kani", base + ".rs", "--harness", h["name"], "--exact", "-Z", "concrete-playback", "--concrete-playback", "print"] + cfg.get("args", []) + h.get("args", [])
        u.cmd = " ".join(cmd)
        t0 = time.time()
        rc, out, err = sh(cmd, hd, h.get("timeout", cfg.get("timeout", 300)))
        u.solver_s = time.time() - t0
        m = re.search(r"Verification Time: ([0-9.]+)s", out)
        if m:
            u.solver_s = float(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) failed", out)
        u.log = (out + err)[-6000:]
        u.functions = h.get("functions", cfg.get("functions", []))
        u.subs, u.inlined = x.subs, x.inlined
        if not m:
            u.status, u.reason = "undecided", "kani gave no verdict: " + (err.strip().splitlines() or ["?"])[-1][:200]
            if rc == 124:
                u.reason = "kani timeout"
            return u
        u.obligations = int(m.group(2))
        u.discharged = u.obligations - int(m.group(1))
        cov = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", out)
        if "VERIFICATION:- SUCCESSFUL" in out:
            u.status = "ok"
            if cov and cov.group(1) != cov.group(2):
                u.status, u.reason = "error", f"unreachable cover: {cov.group(0)}"
            if u.obligations == 0:
                u.status, u.reason = "error", "zero obligations"
            if cov:
                u.probes = int(cov.group(2))
            return u
        fails = re.findall(r"Failed Checks: (.*)", out)
        if any("unwinding assertion" in f or "unsupported" in f.lower() or "not currently supported" in f for f in fails):
            u.status, u.reason = "undecided", "; ".join(fails)[:300]
            return u
        u.status = "failed"
        vals = re.findall(r"^\s*// (.+)$", "\n".join(re.findall(r"let concrete_vals.*?\];", out, re.S)), re.M)
        u.counterexample = vals[:40]
        for f in fails[:6]:
            u.failed.append((h["name"], f, "counterexample: " + ", ".join(vals[:40])))
        if not fails:
            u.status, u.reason = "undecided", "kani failed without a failed check"
        return u

    with cf.ThreadPoolExecutor(cfg.get("jobs", 4)) as ex:
        units = list(ex.map(one, names))
    return units


# ------------------------------------------------------------------ native replay / bounded search

def build_native(src, exe, cfg, tmp):
    base = ["rustc", f"+{TOOLCHAIN}", "--edition", "2021", "-O", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "--cap-lints",
            "allow", "-o", exe, src]
    ext = cfg.get("externs", [])
    if not ext:
        return sh(base, tmp, 300)
    with open(os.path.join(VERIF, "lib", "externs.json")) as f:
        pref = json.load(f)
    cands = []
    for n in ext:
        n, _, k = n.partition("@")
        pick = [f"{DEPS}/lib{n}-{h}{e}" for h in pref.get(n, []) for e in (".rlib", ".so")]
        pick = [p for p in pick if os.path.exists(p)]
        if k:
            pick = pick[int(k):int(k) + 1]
        libs = pick or sorted(glob.glob(f"{DEPS}/lib{n}-*.rlib") + glob.glob(f"{DEPS}/lib{n}-*.so"), key=os.path.getmtime)
        if not libs:
            return 1, "", f"prebuilt dependency {n} missing"
        cands.append([(n, l) for l in libs])
    import itertools
    last = None
    for combo in itertools.product(*cands):
        args = base + ["-L", f"dependency={DEPS}"]
        for n, l in combo:
            args += ["--extern", f"{n}={l}"]
        last = sh(args, tmp, 300)
        if last[0] == 0:
            return last
        if not re.search(r"E0460|E0463|E0464|multiple|different version|can't find crate|E0308|E0277|E0432|E0433|E0599", last[2]):
            return last
    return last


def run_native(cid, cfg, tmp, tier, seed):
    u = Unit("native", cfg["file"])
    u.evals = u.distinct = 0
    u.samples, u.fails, u.rule = [], [], cfg.get("rule", "")
    with open(os.path.join(VERIF, "checks", cid, cfg["file"])) as f:
        tpl = f.read()
    try:
        x = Expander("plain")
        gen = x.expand(tpl)
    except LostAnchor as e:
        u.status, u.reason = "undecided", f"lost anchor: {e}"
        return u
    u.inlined = x.pulled
    u.subs = x.subs
    base = os.path.splitext(cfg["file"])[0]
    src, exe = os.path.join(tmp, base + "_n.rs"), os.path.join(tmp, base + "_n")
    with open(src, "w") as f:
        f.write(gen)
    rc, out, err = build_native(src, exe, cfg, tmp)
    if rc != 0:
        u.status, u.reason, u.log = "undecided", "native build failed: " + first_err(err), err[-6000:]
        return u
    scratch = os.path.join(tmp, base + "_scratch")
    os.makedirs(scratch, exist_ok=True)
    budget = str(cfg.get("budget", 20) if tier == "quick" else cfg.get("budget_thorough", 240))
    to = float(budget) * 4 + 60
    rc, out, err = sh([exe, str(seed), tier], scratch, to,
                      {"VX_BUDGET": budget, "VX_SCRATCH": scratch, "RUST_BACKTRACE": "0"})
    u.log = err[-4000:]
    for ln in out.splitlines():
        if ln.startswith("EVALS "):
            u.evals = int(ln.split()[1])
        elif ln.startswith("NONTRIVIAL "):
            u.distinct = int(ln.split()[1])
        elif ln.startswith("SAMPLE "):
            u.samples.append(ln[7:])
        elif ln.startswith("FAIL "):
            key, _, what = ln[5:].partition(" | ")
            u.fails.append((key.strip(), what))
        elif ln.startswith("LAST "):
            u.last = ln[5:]
    if u.fails:
        u.status = "failed"
    elif rc == 0 and u.evals > 0:
        u.status = "ok"
    elif rc == 124:
        # the code under test did not come back: name the case it was given
        u.status = "failed" if getattr(u, "last", None) else "undecided"
        u.reason = "native run timed out"
        if u.status == "failed":
            u.fails.append(("timeout", "no answer within the time limit for: " + u.last))
    else:
        u.status, u.reason = "undecided", f"native run ended with {rc}: {err.strip()[-300:]}"
        if rc in (-11, -6, 134, 139, 101) and getattr(u, "last", None):
            u.status = "failed"
            u.fails.append(("crash", f"process ended with {rc} on: {u.last}: {err.strip()[-300:]}"))
    return u


def first_err(err):
    m = re.search(r"^error[^\n]*", err, re.M)
    return m.group(0) if m else err[-200:]


# ------------------------------------------------------------------ main

def known_findings(cid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get("property") == cid and d.get("status") == "open":
                    out.append(d)
    return out


def main():
    cid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    keep = "--keep" in sys.argv
    t0 = time.time()
    with open(os.path.join(VERIF, "checks", cid, "check.json")) as f:
        cfg = json.load(f)
    tmp = tempfile.mkdtemp(prefix=f"vx_{cid}_")
    if keep:
        print("scratch", tmp)
    try:
        rc = decide(cid, cfg, tmp, tier, seed, t0)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(cid, cfg, tmp, tier, seed, t0):
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for c in cfg.get("native", []):
            jobs.append(ex.submit(run_native, cid, c, tmp, tier, seed))
        for c in cfg.get("verus", []):
            jobs.append(ex.submit(run_verus, cid, c, tmp, tier))
        for c in cfg.get("kani", []):
            jobs.append(ex.submit(run_kani, cid, c, tmp, tier))
        units = []
        for j in jobs:
            r = j.result()
            units.extend(r if isinstance(r, list) else [r])
    native = [u for u in units if u.kind == "native"]
    proofs = [u for u in units if u.kind != "native"]
    known = known_findings(cid)
    fails, knownhits = [], []
    for u in native:
        for key, what in u.fails:
            k = next((d for d in known if d["key"] == key), None)
            (knownhits if k else fails).append((key, what, k))
    failed = [(u, f) for u in proofs if u.status == "failed" for f in u.failed]
    # an obligation refuted by a known finding is listed there under the same function
    unknown_failed = [(u, f) for u, f in failed if not any(d.get("obligation") and d["obligation"] in f[0] for d in known)]
    undecided = [u for u in proofs if u.status == "undecided"]
    broken = [u for u in units if u.status == "error"]

    oblig = sum(u.obligations for u in proofs if not u.bounded)
    disch = sum(u.discharged for u in proofs if not u.bounded)
    verus_ok = all(u.status == "ok" for u in proofs)
    rc = 0
    lines = []
    rpath = os.path.join(VERIF, "evidence", f"{cid}.replay.txt")
    os.makedirs(os.path.dirname(rpath), exist_ok=True)
    for key, what, k in knownhits:
        lines.append(f"KNOWN-FINDING: property={cid} {k['what']}")
    lines = sorted(set(lines))
    if fails:
        rc = 1
        with open(rpath, "w") as f:
            f.write(f"property {cid}: failing input(s) on the code extracted from {REPO}\n")
            f.write(f"reproduce: cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 lib/run.py {cid}\n\n")
            for key, what, _ in fails:
                f.write(f"[{key}] {what}\n")
            for u, fl in failed:
                f.write(f"\nfailed obligation ({u.kind} {u.name}): {fl[0]}: {fl[1]}\n{fl[2]}\n")
        lines.append(f"VIOLATION property={cid} replay={rpath}")
    elif unknown_failed:
        rc = 1
        with open(rpath, "w") as f:
            f.write(f"property {cid}: obligation(s) that no longer discharge on the code extracted from {REPO}\n\n")
            for u, fl in unknown_failed:
                f.write(f"failed obligation ({u.kind} {u.name}): {fl[0]}: {fl[1]}\n{fl[2]}\n\n")
            for u in native:
                f.write(f"bounded search {u.name}: {u.status}, {u.evals} cases, no failing input {u.reason}\n")
        lines.append(f"VIOLATION property={cid} replay={rpath} no-failing-input-found")
    elif broken:
        rc = 2
    elif undecided and not any(u.status == "ok" for u in native):
        rc = 2
    elif not proofs and not any(u.status == "ok" for u in native):
        rc = 2

    level = cfg.get("level", "proof")
    if not verus_ok and rc == 0:
        level = "exploration"
    trusted = sorted({t for u in proofs for t in u.trusted})
    cov = {
        "obligations": oblig,
        "discharged": disch,
        "checker_cmd": "; ".join(sorted({u.cmd for u in proofs if u.cmd})) or "none",
        "trusted_base": trusted + ["verus 0.2026.09.13 + z3" if any(u.kind == "verus" for u in proofs) else "",
                                   "kani 0.68 / CBMC" if any(u.kind == "kani" for u in proofs) else "",
                                   "lib/rustsrc.py extraction"],
        "functions_under_contract": sorted({f for u in proofs for f in u.functions}),
        "backends": {f"{u.kind}:{u.name}": {"status": u.status, "obligations": u.obligations, "discharged": u.discharged,
                                           "solver_s": round(u.solver_s, 2), "vacuity_probes": u.probes,
                                           **({"bounded": u.bounded} if u.bounded else {}),
                                           **({"reason": u.reason} if u.reason else {})} for u in proofs},
        "solver_s": round(sum(u.solver_s for u in proofs), 2),
        "extraction_drops": DROPS,
        "substitutions": sorted({s for u in proofs for s in u.subs}),
        "helpers_inlined": sorted({s for u in proofs for s in u.inlined}),
        "evaluations": sum(getattr(u, "evals", 0) for u in native),
        "distinct_nontrivial": sum(getattr(u, "distinct", 0) for u in native),
        "rule": " / ".join(u.rule for u in native if u.rule) or "none",
        "samples": [s for u in native for s in u.samples][:8] or ["proof obligations only"],
        "native": {u.name: {"status": u.status, "evaluations": u.evals, **({"reason": u.reason} if u.reason else {})} for u in native},
    }
    cov["trusted_base"] = [t for t in cov["trusted_base"] if t]
    if level == "exploration":
        cov["explanation"] = "proof not redone on this text (see backends); bounded native search only"
    ev = {"property": cid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    with open(os.path.join(VERIF, "evidence", f"{cid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in units:
        print(f"[{cid}] {u.kind} {u.name}: {u.status}"
              + (f" {u.discharged}/{u.obligations} obligations, {u.probes} probes, {u.solver_s:.1f}s" if u.kind != "native" else
                 f" {u.evals} cases")
              + (f" -- {u.reason}" if u.reason else ""))
        if u.status in ("failed", "error", "undecided") and ("-v" in sys.argv or rc == 2):
            print(u.log[-4000:])
        for fl in u.failed[:8]:
            print(f"    obligation: {fl[0]}: {fl[1]}")
    for k, w, _ in fails[:6]:
        print(f"    failing input [{k}]: {w[:400]}")
    for ln in lines:
        print(ln)
    return rc


if __name__ == "__main__":
    main()
