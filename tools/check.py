#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property for /repo's working tree.

1. govc generates the verification conditions of every function under contract
   the property depends on from /repo's current source and discharges them.
2. replay drives the real code with generated inputs: it looks for the concrete
   failing input when an obligation fails and is the (bounded) check of what is
   not under contract.
"""
import json, os, subprocess, sys, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BIN = os.path.join(VERIF, "bin")
OUT = os.path.join(VERIF, "out")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOWORK="off")


def build(name):
    os.makedirs(BIN, exist_ok=True)
    r = subprocess.run(["go", "build", "-o", os.path.join(BIN, name), "."], cwd=os.path.join(VERIF, name), env=ENV, capture_output=True, text=True)
    return r.returncode == 0, r.stdout + r.stderr


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = "thorough" if thorough else "quick"
    start = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cfg = json.load(open(os.path.join(VERIF, "tools", "levels.json")))[prop]

    ok, log = build("govc")
    if not ok:
        print("building the verifier failed:\n" + log)
        return 2
    ok, log = build("replay")
    if not ok:
        # the public interface of the code under test changed: only the proof remains
        print("building the replay harness against /repo failed:\n" + log[:2000])
        rep = None
    # ---- deductive verification ----
    vrep, verr = None, ""
    if cfg["proof"]:
        out = os.path.join(OUT, prop + ".govc.json")
        if os.path.exists(out):
            os.remove(out)
        dump = os.path.join(OUT, prop + ".queries")
        cmd = [os.path.join(BIN, "govc"), "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", out,
               "-timeout", "60" if thorough else "25", "-budget", "1800" if thorough else "420"]
        env = dict(ENV, GOFLAGS="-mod=readonly")
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        verr = (r.stdout + r.stderr)[-6000:]
        if os.path.exists(out):
            vrep = json.load(open(out))
        proved = r.returncode == 0 and vrep is not None and vrep["obligations"] > 0
    else:
        proved = None
    # ---- replay ----
    rep = None
    if ok:
        out = os.path.join(OUT, prop + ".replay.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [os.path.join(BIN, "replay"), "-prop", prop, "-seed", str(seed), "-out", out, "-time", "600s" if thorough else "60s"]
        if thorough:
            cmd.append("-thorough")
        subprocess.run(cmd, env=ENV, capture_output=True, text=True)
        if os.path.exists(out):
            rep = json.load(open(out))
    if rep is None and ok:
        print("the replay harness ended without a report")
        return 2

    # ---- known findings ----
    known = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    unlisted = None
    for k in (rep or {}).get("known") or []:
        hit = [x for x in known if x[0] == "%s/%d" % (k["part"], k["case"])]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
        elif unlisted is None:
            unlisted = k
    failure = (rep or {}).get("failure") or unlisted

    # ---- evidence ----
    cov = {}
    assumptions = list(cfg.get("assumptions", []))
    if vrep is not None:
        cov.update({
            "obligations": vrep["obligations"], "discharged": vrep["discharged"],
            "checker_cmd": "bin/govc -repo /repo -specs contracts -prop %s" % prop,
            "trusted_base": ["govc (VC generator, /verif/govc)", "golang.org/x/tools/go/ssa", "SMT solvers z3-new, cvc5, z3"] + ["trusted contract: " + t for t in vrep["trusted"] or []] + ["axiom: " + a for a in vrep["axioms"] or []],
            "functions_under_contract": [{k: f.get(k) for k in ("name", "kind", "file", "obligations", "discharged", "seconds", "loops", "inlined")} for f in vrep["functions"]],
            "obligation_kinds": vrep["kinds"], "discharged_by": vrep["solvers"], "solver_seconds": vrep["solver_seconds"],
            "verifier_wall_s": vrep["wall_seconds"], "proof_samples": vrep["samples"],
        })
        assumptions += vrep["assumed"] or []
    if rep is not None:
        cov["bounded"] = {"label": "bounded, not counted as proved", "parts": rep["parts"]}
        cov.update({"evaluations": rep["cases"], "comparisons": rep["comparisons"], "distinct_nontrivial": rep["distinct"],
                    "rule": "a case is one generated model, history or input driven through the real code; it is non-trivial if at least one answer was compared with the reference, distinct by its log of steps",
                    "samples": rep["samples"] or []})
    else:
        cov["bounded"] = {"label": "replay harness did not build"}
    cov["explanation"] = cfg["note"]
    violated = failure is not None or proved is False
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - start, 2), "violations": 1 if violated else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if vrep is not None:
        print("%s: %d of %d obligations of %d functions discharged" % (prop, vrep["discharged"], vrep["obligations"], len(vrep["functions"])))
    if rep is not None:
        print("%s: %d cases, %d comparisons (bounded)" % (prop, rep["cases"], rep["comparisons"]))
    if not violated:
        if proved is None and rep is None:
            return 2
        return 0
    path = os.path.join(OUT, "%s.violation.json" % prop)
    doc = {"property": prop, "failed_obligations": [], "verifier_output": verr if proved is False else ""}
    if proved is False and vrep is not None:
        for f in vrep["functions"]:
            if f.get("error"):
                doc["failed_obligations"].append({"function": f["name"], "error": f["error"]})
            for x in f.get("failed") or []:
                doc["failed_obligations"].append({"function": f["name"], "obligation": x["obligation"], "status": x["status"], "output": x["output"][:2000]})
    if failure is not None:
        doc["failing_input"] = failure
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    for o in doc["failed_obligations"][:10]:
        print("failed obligation: %s %s" % (o["function"], o.get("obligation") or o.get("error")))
    if failure is not None:
        print(failure["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


sys.exit(main())
