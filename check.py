#!/usr/bin/env python3
"""Decide a property of value-bag from the code in /repo as it is now.

  check.py P01 [--tier quick|thorough]   run the property's proof obligations
  check.py --replay FILE                 rerun a recorded failing input natively

Exit 0: every obligation was discharged.  Exit 1: a violation.  Exit 2: no answer.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVIDENCE = os.path.join(HERE, "evidence")
# Vacuity is guarded by a cover at the end of every case, so the reachability of every single assertion isn't computed
KANI_FLAGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "restrict-vtable", "-Z", "unstable-options",
              "--no-assertion-reach-checks"]
GROUPS_AT_ONCE = 4
GUARD = "--cfg value_bag_verif"
BUDGET = 840  # a check is stopped at 900 s
RETRY_UNWIND = (8, 34, 100)
# Failures of these kinds say that the tool gave up, not that the property failed
UNDECIDED = ("unwind", "unsupported_construct", "unsupported_struct", "recursion")

# Failures of these kinds are about memory; a run of the compiled harness need not show them
MEMORY = ("pointer_dereference", "pointer_primitives", "pointer_arithmetic", "precondition_instance", "safety_check")

START = time.time()
PROCS = set()


def left():
    return BUDGET - (time.time() - START)


def log(*a):
    print("[%5.0fs]" % (time.time() - START), *a, flush=True)


def run(cmd, timeout, env=None, cwd=HARNESS, out=None):
    """Run in its own process group, so that nothing outlives a timeout."""
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    with tempfile.TemporaryFile("w+") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=f,
                             stderr=subprocess.STDOUT, start_new_session=True)
        PROCS.add(p)
        try:
            code = p.wait(max(1, timeout))
        except subprocess.TimeoutExpired:
            code = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            PROCS.discard(p)
        f.seek(0)
        return code, f.read()


def stop(*_):
    for p in list(PROCS):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    sys.exit(2)


class Config:
    """One feature set of the crate, with its build directory."""

    def __init__(self, scratch, features, guard):
        self.features = features
        self.guard = guard
        os.makedirs(scratch, exist_ok=True)
        self.dir = os.path.join(scratch, re.sub(r"\W+", "_", features or "none") + ("_guard" if guard else ""))
        self.env = {"RUSTFLAGS": GUARD} if guard else {}
        self.replay_bin = None

    def name(self):
        return (self.features or "no features") + (", guard on" if self.guard else "")

    def kani(self, args, timeout):
        cmd = ["cargo", "kani", "--target-dir", self.dir, "--no-default-features", "--features", self.features]
        cmd += KANI_FLAGS + ["--output-format", "terse"] + args
        return run(cmd, timeout, self.env)

    def native(self):
        """The same harness bodies, compiled to run on concrete inputs."""
        if self.replay_bin is None:
            d = self.dir + "_native"
            code, out = run(["cargo", "build", "--quiet", "--bin", "replay", "--target-dir", d,
                             "--no-default-features", "--features", self.features], min(300, left()), self.env)
            self.replay_bin = os.path.join(d, "debug", "replay") if code == 0 else ""
            if code != 0:
                log("native build failed:\n" + out[-2000:])
        return self.replay_bin


    def miri(self, harness, seed, ms, timeout):
        """The same harness bodies, run by an interpreter that notices invalid memory accesses."""
        env = {"RUSTFLAGS": GUARD} if self.guard else {}
        return run(["cargo", "+nightly", "miri", "run", "--quiet", "--bin", "replay", "--target-dir", self.dir + "_miri",
                    "--no-default-features", "--features", self.features, "--", "search", harness, str(seed), str(ms)], timeout, env)


def about_memory(r):
    return any(c["category"] in MEMORY or "dealloc" in c["description"] or "memcpy" in c["description"] for c in r["failed"])


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def verify(cfg, patterns, exact, extra, harness_timeout, timeout):
    """Run harnesses; return {harness: result} and the raw output."""
    report = os.path.join(cfg.dir + "_%d.json" % time.monotonic_ns())
    args = ["-j", "4", "--harness-timeout", "%ds" % harness_timeout, "--export-json", report]
    if exact:
        args.append("--exact")
    for p in patterns:
        args += ["--harness", p]
    code, out = cfg.kani(args + extra, timeout)
    d = load(report)
    if d is None:
        return code, None, out
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
    kinds = {h["pretty_name"]: h["attributes"]["kind"] for h in d.get("harness_metadata", [])}
    results = {}
    for r in d["verification_results"]["results"]:
        h = r["harness_id"]
        checks = r.get("checks") or []
        failed = [c for c in checks if c["status"].lower() == "failure"]
        covers = [c for c in checks if c["category"] == "cover"]
        real = [c for c in failed if c["category"] not in UNDECIDED and "unwinding assertion" not in c["description"]]
        proved = [c for c in checks if c["status"].lower() in ("success", "unreachable") and c["category"] != "cover"]
        if real:
            state = "failed"
        elif r["status"] == "Success" and not failed and covers and proved and \
                all(c["status"].lower() == "satisfied" for c in covers):
            state = "proved"
        elif covers and not failed and r["status"] == "Success":
            state = "vacuous"
        else:
            state = "undecided"
        results[h] = {
            "state": state,
            "contract": str(kinds.get(h, "")).startswith("ProofForContract"),
            "obligations": len([c for c in checks if c["category"] != "cover"]),
            "discharged": len(proved),
            "failed": real,
            "why": sorted({c["description"] for c in failed})[:4],
            "solver_s": float(stats.get(h, {}).get("runtime_decision_procedure_s") or 0),
            "symex_s": float(stats.get(h, {}).get("runtime_symex_s") or 0),
            # A harness may stand for several cases, each with a cover of its own
            "cases": [re.sub(r"any$", c["description"].split(":")[0], h) if ":" in c["description"] else h for c in covers],
            "functions": {c["function"] for c in checks if "/repo/src/" in str((c.get("location") or {}).get("file"))},
        }
    for h in kinds:
        results.setdefault(h, {"state": "undecided", "contract": False, "obligations": 0, "discharged": 0, "failed": [],
                               "why": ["no result (time or memory limit)"], "solver_s": 0, "symex_s": 0, "cases": [], "functions": set()})
    return code, results, out


def parse_tape(out, harness, descriptions):
    """The concrete values Kani printed for the failing checks of a harness."""
    tapes = []
    for m in re.finditer(r"/// Check for `(\w+)`: (.*?)\n.*?vec!\[\n(.*?)\n    \];", out, re.S):
        if m.group(1) == "cover":
            continue
        vals = re.findall(r"vec!\[([\d, ]*)\]", m.group(3))
        tapes.append([" ".join(v.replace(",", " ").split()) for v in vals])
    return tapes


def find_input(cfg, harness, seed, scratch, memory=False):
    """Look for an input on which the same harness body fails when run natively."""
    b = cfg.native()
    if not b:
        return None
    code, out = run([b, "search", harness, str(seed), "8000"], min(30, left()))
    if code == 1:
        return take_report(out)
    if code not in (0, 1):
        # A crash is a failure too, but the input isn't known: narrow it down by seed
        log("native run of %s ended with status %s" % (harness, code))
    if memory and left() > 120:
        code, out = cfg.miri(harness, seed, 20000, min(150, left() - 60))
        m = re.search(r"error: (Undefined Behavior: .*)", out)
        if m:
            return {"message": m.group(1), "tape": None, "miri_seed": seed}
    if left() < 60:
        return None
    pcode, pout = cfg.kani(["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", harness],
                           min(240, left() - 20))
    for tape in parse_tape(pout, harness, None):
        t = os.path.join(scratch, "tape.txt")
        with open(t, "w") as f:
            f.write("\n".join(tape))
        code, out = run([b, "tape", harness, t], 30)
        if code == 1:
            return take_report(out)
        if code is not None and code not in (0, 3):
            return {"message": "the process ended with status %s" % code, "tape": tape}
    return None


def take_report(out):
    m = re.search(r"^FAILED (\S+): (.*)$", out, re.M)
    return {"message": m.group(2) if m else "", "tape": re.findall(r"^TAPE (.*)$", out, re.M)}


def replay(path):
    r = load(path)
    scratch = tempfile.mkdtemp(prefix="vbh-")
    try:
        cfg = Config(scratch, r["features"], r["guard"])
        if r.get("miri_seed") is not None:
            code, out = cfg.miri(r["harness"], r["miri_seed"], 60000, 400)
            print(out[-3000:])
            return 1 if "Undefined Behavior" in out else 0
        b = cfg.native()
        if not b:
            return 2
        if not r.get("tape") and r.get("tape") != []:
            print("no recorded input; run the check itself")
            return 2
        t = os.path.join(scratch, "tape.txt")
        with open(t, "w") as f:
            f.write("\n".join(r["tape"]))
        code, out = run([b, "tape", r["harness"], t], 60)
        print(out, end="")
        return 0 if code == 0 else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def scan_assumptions():
    """Every assumption and stub in the harness source, found mechanically."""
    found = []
    for root, _, files in os.walk(os.path.join(HARNESS, "src")):
        for n in sorted(files):
            with open(os.path.join(root, n)) as f:
                for i, line in enumerate(f, 1):
                    if re.search(r"nd::assume\(|(?<!fn )\bassume\(v|kani::stub\(|requires ", line) and "macro_rules" not in line:
                        found.append("%s:%d: %s" % (n, i, line.strip()[:120]))
    return found


def run_group(scratch, i, g):
    cfg = Config(os.path.join(scratch, str(i)), g["features"], g.get("guard", False))
    code, res, out = verify(cfg, g["harnesses"], False, [], g.get("timeout", 240), left())
    if res is None:
        return g, cfg, None, out
    # Loops the code didn't have before need a larger bound
    for n in RETRY_UNWIND:
        again = [h for h, r in res.items() if r["state"] == "undecided" and any("unwind" in w for w in r["why"])]
        if not again or left() < 60:
            break
        log("unwinding %d again: %s" % (n, " ".join(again)))
        _, r2, _ = verify(cfg, again, True, ["--unwind", str(n)], int(min(300, left() - 20)), left() - 10)
        if r2:
            res.update(r2)
    slow = sorted(((r["symex_s"] + r["solver_s"], h) for h, r in res.items()), reverse=True)[:3]
    log("%s [%s]: %d harnesses; slowest %s" % (" ".join(g["harnesses"]), cfg.name(), len(res), ", ".join("%s %.0fs" % (h, t) for t, h in slow)))
    return g, cfg, res, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    signal.signal(signal.SIGTERM, stop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    with open(os.path.join(HERE, "plan.json")) as f:
        plan = json.load(f)
    prop = plan["properties"][a.property]
    known = [k for k in load(os.path.join(HERE, "known-findings.json"))["findings"] if k["property"] == a.property]

    scratch = tempfile.mkdtemp(prefix="vbh-")
    groups, violations, undecided, notes, known_seen, builds_failed = [], [], [], [], [], []
    try:
        todo = [g for g in prop["groups"] if tier in g.get("tiers", ["quick", "thorough"])]
        with ThreadPoolExecutor(GROUPS_AT_ONCE) as ex:
            done = list(ex.map(lambda x: run_group(scratch, *x), enumerate(todo)))
        for g, cfg, res, out in done:
            if res is None and cfg.guard and g.get("optional_guard"):
                notes.append("the guarded module doesn't build; its obligations were not checked")
                log(notes[-1])
                continue
            if res is None:
                builds_failed.append(cfg.name())
                log("no result:\n" + out[-3000:])
                continue
            groups.append((g, cfg, res))
            for h, r in sorted(res.items()):
                if r["state"] == "proved":
                    continue
                log("%s: %s %s" % (r["state"], h, "; ".join(r["why"])))
                k = next((k for k in known if k["harness"] == h and k.get("features", g["features"]) == g["features"]), None)
                if r["state"] == "failed" and k:
                    known_seen.append(k)
                elif r["state"] == "failed":
                    violations.append((cfg, h, r))
                else:
                    undecided.append((cfg, h, r))
        for k in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]), flush=True)

        # Something the verifier couldn't decide may still fail when run
        for cfg, h, r in undecided if not violations else []:
            if left() > 60 and cfg.native():
                code, out = run([cfg.native(), "search", h, str(seed), "3000"], 30)
                if code == 1:
                    violations.append((cfg, h, r))

        reported = []
        if violations:
            rdir = os.path.join(EVIDENCE, "replay")
            os.makedirs(rdir, exist_ok=True)
            best = None
            for i, (cfg, h, r) in enumerate(violations[:6]):
                f = find_input(cfg, h, seed, scratch, about_memory(r))
                rec = {"property": a.property, "harness": h, "features": cfg.features, "guard": cfg.guard,
                       "failed": [{k: c.get(k) for k in ("description", "category", "function", "location")} for c in r["failed"][:8]],
                       "message": f and f["message"], "tape": f and f["tape"], "miri_seed": f and f.get("miri_seed"),
                       "command": "python3 /verif/check.py --replay <this file>"}
                path = os.path.join(rdir, "%s-%d.json" % (a.property, i))
                with open(path, "w") as o:
                    json.dump(rec, o, indent=1)
                reported.append((path, rec))
                if f:
                    best = (path, rec)
                    break
            # The verifier's picture of the heap can go wrong on code that is right: such a failure counts
            # once it is seen in a run, or where memory is what the property is about
            if not best and a.property != "P20" and all(about_memory(r) for _, _, r in violations):
                log("memory failures that no run shows: no answer")
                undecided, violations = undecided + violations, []
        if violations:
            path, rec = best or reported[0]
            log("fails: %s: %s" % (rec["harness"], rec["message"] or rec["failed"][:1]))
            print("VIOLATION property=%s replay=%s%s" % (a.property, path, "" if best else " no-failing-input-found"), flush=True)

        write_evidence(a.property, tier, seed, plan, prop, groups, violations, undecided, known_seen, notes, builds_failed)
        if violations:
            return 1
        if undecided or builds_failed or not groups:
            log("no answer: %d undecided, builds failed: %s" % (len(undecided), builds_failed))
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, plan, prop, groups, violations, undecided, known_seen, notes, builds_failed):
    rows = [(g, cfg, h, r) for g, cfg, res in groups for h, r in res.items()]
    bounded = prop.get("bounded", [])
    is_bounded = lambda h: any(re.search(b, h) for b in bounded)
    cases = [c for *_, r in rows if r["state"] == "proved" for c in r["cases"]]
    coverage = {
        "obligations": sum(r["obligations"] for *_, r in rows),
        "discharged": sum(r["discharged"] for *_, r in rows),
        "harnesses": len(rows),
        "cases_proved_over_the_full_input_domain": len([c for c in cases if not is_bounded(c)]),
        "cases_bounded": len([c for c in cases if is_bounded(c)]),
        "bounds": prop.get("bounds", "none"),
        "functions_under_contract": sorted({h for _, _, h, r in rows if r["contract"]}),
        "value_bag_functions_with_obligations": len({f for *_, r in rows for f in r["functions"]}),
        "configurations": sorted({cfg.name() for _, cfg, _, _ in rows}),
        "reachability_covers_satisfied": len(cases),
        "solver_s": round(sum(r["solver_s"] for *_, r in rows), 3),
        "symbolic_execution_s": round(sum(r["symex_s"] for *_, r in rows), 3),
        "back_end": "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL",
        "checker_cmd": "cargo kani " + " ".join(KANI_FLAGS) + " --features <configuration> --harness <group>",
        "trusted_base": plan["trusted_base"],
        "not_decided": ["%s [%s]: %s" % (h, cfg.name(), "; ".join(r["why"])) for cfg, h, r in undecided]
                       + ["build failed: " + b for b in builds_failed],
        "notes": notes,
    }
    d = {
        "property": pid, "tier": tier, "seed": seed, "level": prop["level"], "coverage": coverage,
        "assumptions": plan["assumptions"] + prop.get("assumptions", []) + scan_assumptions(),
        "violations": ["%s [%s]" % (h, cfg.name()) for cfg, h, _ in violations],
        "known_findings": [k["what"] for k in known_seen],
        "wall_s": round(time.time() - START, 1),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
    log("%d obligations, %d discharged, %d harnesses" % (coverage["obligations"], coverage["discharged"], len(rows)))


if __name__ == "__main__":
    sys.exit(main())
