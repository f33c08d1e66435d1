#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property for /repo's current working tree:
  1. the contracts of the property's functions, extracted from the tree, go to Verus;
  2. (some properties) loop-free bit-level harnesses go to Kani;
  3. the bounded stand-in for what is out of the verifiers' reach, which also turns a
     failed obligation into a failing input, runs the real crates.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import props
import vx

HARNESS = os.path.join(ROOT, "harness")
NOALLOC = os.path.join(ROOT, "noalloc")
REPLAYS = os.path.join(ROOT, "evidence", "replay")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_harness(where=HARNESS, name="replay"):
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", name], cwd=where, env=ENV,
                       capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        return None, p.stderr[-4000:]
    return os.path.join(where, "target", "debug", name), None


def explore(binary, prop, seed, mult, budget):
    cmd = [binary, "explore", "--prop", prop, "--seed", str(seed), "--mult", str(mult), "--budget", str(budget)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget * 3 + 120)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        err, rc = "the exploration did not end", None
    rows = []
    for line in out.split("\n"):
        line = line.strip()
        if line.startswith("{"):
            try:
                rows.append(json.loads(line))
            except ValueError:
                pass
    return rows, rc, err, " ".join(cmd)


def run_kani(names, timeout):
    """Each name: proved / failed / undecided."""
    res = {}
    if not names:
        return res, ""
    cmd = ["cargo", "kani", "--lib", "-j", "8", "--output-format", "terse", "-Z", "unstable-options",
           "--harness-timeout", f"{timeout}s"]
    for n in names:
        cmd += ["--harness", n]
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=ENV, capture_output=True, text=True, timeout=timeout * 2 + 240)
        out = p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        out = ""
    for n in names:
        res[n] = "undecided"
    # terse output names each harness as it starts and prints its verdict afterwards
    cur = {}
    for line in out.split("\n"):
        m = re.search(r"(?:Thread (\d+): )?Checking harness \S*?(\w+)\.\.\.", line)
        if m:
            cur[m.group(1)] = m.group(2)
            continue
        m = re.search(r"(?:Thread (\d+):)?.*VERIFICATION:- (SUCCESSFUL|FAILED)", line)
        if m:
            pass
    for m in re.finditer(r"Checking harness \S*?(\w+)\.\.\.", out):
        pass
    blocks = re.split(r"(?=Thread \d+: |^Checking harness)", out, flags=re.M)
    who = None
    for b in blocks:
        t = re.match(r"Thread (\d+): ", b)
        tid = t.group(1) if t else None
        m = re.search(r"Checking harness \S*?(\w+)\.\.\.", b)
        if m:
            cur[tid] = m.group(1)
        who = cur.get(tid)
        if who in res:
            if "VERIFICATION:- SUCCESSFUL" in b:
                res[who] = "proved"
            elif "VERIFICATION:- FAILED" in b:
                res[who] = "undecided" if re.search(r"timed out|unwinding assertion|CBMC timed|out of memory|CBMC failed", b) else "failed"
    return res, out


def scan_trusted(text):
    """Every assumption left in the generated Verus source."""
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(fn|struct)\s+(\w+)", text):
        out.append(f"external_body {m.group(1)} {m.group(2)}")
    for m in re.finditer(r"\buninterp\s+spec\s+fn\s+(\w+)", text):
        out.append(f"uninterpreted {m.group(1)}")
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]", text):
        out.append(f"assumed specification of {m.group(1).strip()}")
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)|\badmit\(\)|\bassume\(", text):
        out.append(f"axiom {m.group(1) or m.group(0)}")
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def known_findings(prop):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) harness=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)

    # -- 1. the contracts ---------------------------------------------------
    verus = []
    for t in cfg.get("verus", []):
        try:
            left = 480 - (time.time() - t0)
            r = vx.verify(t, rlimit=30 if tier == "quick" else 120, timeout=max(60, left) if tier == "quick" else 1500)
        except vx.Undecided as e:
            r = None
            log(f"{prop}: {t}: undecided: {e}")
        except Exception as e:  # the verifier itself fell over: no verdict
            r = None
            log(f"{prop}: {t}: no verdict: {type(e).__name__}: {e}")
        verus.append((t, r))
    vacuous = []
    if tier != "quick":
        for t, r in verus:
            if r and r.units:
                try:
                    vacuous += vx.vacuous(t) or []
                except Exception as e:
                    log(f"{prop}: {t}: vacuity not checked: {e}")
        for v in vacuous:
            log(f"{prop}: the contract of {v} is vacuous")
    failed = [(t, *f) for t, r in verus if r for f in r.failed]
    undecided = [(t, *u) for t, r in verus if r for u in r.undecided] + [(t, "(file)", "not run") for t, r in verus if not r]
    for t, path, msg, _ in failed:
        log(f"{prop}: {t}: FAILED OBLIGATION {path}: {msg}")
    for t, path, msg in undecided:
        log(f"{prop}: {t}: undecided {path}: {msg.splitlines()[0][:200]}")

    # -- 2. the real code, run ----------------------------------------------
    binary, err = build_harness()
    rows, native_fail, cmds = [], None, []
    if binary is None:
        log(f"{prop}: the harness does not build against this tree:\n{err}")
    else:
        mult, budget = (10, 90) if tier == "quick" else (200, 600)
        rows, rc, err, cmd = explore(binary, prop, seed, mult, budget)
        cmds.append(cmd)
        if rc is None or (rc not in (0, 1)):
            log(f"{prop}: exploration ended abnormally ({rc}): {err[-600:]}")
            native_fail = {"name": "(process)", "fail": {"draws": [], "message": f"the real code ended the process abnormally ({rc}): {err[-600:]}"}}
        bad = [r for r in rows if r.get("fail")]
        known = known_findings(prop)
        for r in bad:
            hit = next((k for k in known if k[0] == r["name"] and re.search(k[1], r["fail"]["message"])), None)
            if hit:
                print(f"KNOWN-FINDING: property={prop} {hit[2]}")
            elif native_fail is None or native_fail["name"] == "(process)":
                native_fail = r
        if cfg.get("noalloc") and native_fail is None:
            # the same crates built without an allocator
            small, err = build_harness(NOALLOC, "noalloc")
            if small is None:
                log(f"{prop}: the harness for the crates without an allocator does not build:\n{err}")
            else:
                more, rc, err, cmd = explore(small, prop, seed, mult, budget)
                cmds.append(cmd)
                rows += more
                native_fail = next((r for r in more if r.get("fail")), None)
                if native_fail is None and rc not in (0, 1):
                    log(f"{prop}: exploration without an allocator ended abnormally ({rc}): {err[-600:]}")
                    native_fail = {"name": "noalloc_process", "fail": {"draws": [], "message": f"the real code ended the process abnormally ({rc}): {err[-600:]}"}}
        if (failed or undecided) and native_fail is None:
            # look harder for an input before saying that none was found, or where the stand-in decides alone
            for k, s in enumerate((seed + 1000, seed + 2000)):
                more, rc, err, cmd = explore(binary, prop, s, 40 if tier == "quick" else 400, 90 if tier == "quick" else 600)
                cmds.append(cmd)
                bad = [r for r in more if r.get("fail")]
                if bad:
                    native_fail = bad[0]
                    break

    # -- 3. Kani --------------------------------------------------------------
    kani, kani_out = {}, ""
    names = cfg.get("kani_quick", []) if tier == "quick" else cfg.get("kani_thorough", cfg.get("kani_quick", []))
    if names and native_fail is None:
        kani, kani_out = run_kani(names, 150 if tier == "quick" else 900)
    kani_failed = [n for n, v in kani.items() if v == "failed"]
    for n, v in kani.items():
        if v != "proved":
            log(f"{prop}: kani {n}: {v}")

    # -- verdict --------------------------------------------------------------
    violations = 0
    if native_fail is not None:
        violations = 1
        path = os.path.join(REPLAYS, f"{prop}.json")
        where = "noalloc" if native_fail["name"].startswith("noalloc_") else "replay"
        json.dump({
            "property": prop,
            "kind": "failing input on the real code",
            "harness": native_fail["name"],
            "draws": native_fail["fail"]["draws"],
            "message": native_fail["fail"]["message"],
            "replay": f"cd {NOALLOC if where == 'noalloc' else HARNESS} && cargo run --offline --bin {where} -- run --harness {native_fail['name']} --draws "
                      + ",".join(str(d) for d in native_fail["fail"]["draws"]),
            "failed_obligations": [{"template": t, "function": p, "obligation": m, "verifier": o} for t, p, m, o in failed],
        }, open(path, "w"), indent=1)
        print(f"{prop}: {native_fail['name']}: {native_fail['fail']['message'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    elif failed or kani_failed:
        violations = 1
        path = os.path.join(REPLAYS, f"{prop}.json")
        json.dump({
            "property": prop,
            "kind": "failed proof obligation",
            "failed_obligations": [{"template": t, "function": p, "obligation": m, "verifier": o} for t, p, m, o in failed],
            "kani_failed": kani_failed,
            "kani_output": kani_out[-6000:] if kani_failed else "",
            "searched": cmds,
        }, open(path, "w"), indent=1)
        for t, p, m, _ in failed:
            print(f"{prop}: obligation failed: {p}: {m}")
        for n in kani_failed:
            print(f"{prop}: kani harness failed: {n}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")

    # -- evidence -------------------------------------------------------------
    good = [r for _, r in verus if r]
    discharged = sum(r.verified for r in good) + sum(1 for v in kani.values() if v == "proved")
    n_failed = len({(t, p) for t, p, _, _ in failed}) + len(kani_failed)
    n_und = len({(t, p) for t, p, _ in undecided}) + sum(1 for v in kani.values() if v == "undecided")
    units = [u for r in good for u in r.proved]
    trusted = []
    for r in good:
        for x in scan_trusted(r.text):
            if x not in trusted:
                trusted.append(x)
    coverage = {
        "evaluations": sum(r.get("evals", 0) for r in rows),
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in rows),
        "rule": "bounded stand-in on the real crates: choice sequences are enumerated where the space is small and drawn from the seed otherwise; "
                "a case counts as distinct when its choice sequence is new and the harness ran its assertions",
        "samples": [{"harness": r["name"], "sample": r.get("sample"), "evaluations": r.get("evals"), "exhausted": r.get("exhausted")} for r in rows][:12],
    }
    if cfg.get("verus") or kani:
        coverage.update({
            "obligations": discharged + n_failed + n_und,
            "discharged": discharged,
            "checker_cmd": "; ".join(r.cmd for r in good) + ("; cargo kani --lib --harness " + ",".join(kani) if kani else ""),
            "trusted_base": trusted,
            "functions_under_contract": sorted({f"{u.crate}::{u.path}" for u in units}),
            "functions_proved": len(units),
            "functions_undecided": sorted({f"{p}: {m.splitlines()[0][:160]}" for _, p, m in undecided}),
            "kani": kani,
            "vacuous_contracts": vacuous if tier != "quick" else "checked by the thorough tier",
            "back_end": "Verus 0.2026.09.13 (Z3)" + (", Kani 0.68 (CBMC)" if kani else ""),
            "solver_ms": sum(r.smt_ms for r in good),
            "textual_rewrites": sum(u.rewrites for u in units),
        })
    if cfg["level"] == "translation_validation":
        progs = {m.group(1) for u in units for m in [re.search(r"Value for (\w+)", u.path)] if u.crate == "derived" and m}
        coverage["programs"] = len(progs)
        coverage["disagreements_checked"] = sum(1 for u in units if u.crate == "derived")
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": cfg["level"], "coverage": coverage, "wall_s": round(time.time() - t0, 2),
        "assumptions": cfg.get("assumptions", []) + props.COMMON, "violations": violations,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    if violations:
        return 1
    if cfg["level"] == "proof" and not discharged and binary is None:
        log(f"{prop}: nothing could be decided")
        return 2
    if binary is None and not good:
        return 2
    if binary is not None and not rows:
        log(f"{prop}: no harness ran")
        return 2
    print(f"{prop}: held: {discharged} obligations discharged, {n_und} undecided, "
          f"{coverage['evaluations']} evaluations in the stand-in, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
