#!/usr/bin/env python3
"""usage: check.py PID [--tier quick|thorough]

Decides property PID on the working tree of /repo:
  1. pyvc (python3-vt) proves the contracts of the property on the code as it is now;
  2. the battery runs the uninstrumented package against the executable form of the same contracts.  It is the search for
     a failing input when an obligation is refuted, and the bounded stand-in for what no contract covers.
exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check itself failed.
"""
import argparse, json, os, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--no-prove", action="store_true")
ap.add_argument("--no-battery", action="store_true")
a = ap.parse_args()
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
T0 = time.time()
CMD = f"VERIF_SEED={SEED} python3 /verif/check.py {a.pid} --tier {a.tier}"


def start(cmd):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LC_ALL="C.UTF-8", VERIF_REPO=REPO)
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)


def finish(p, limit):
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, f"no answer within {limit} s"
    if p.returncode != 0:
        return None, f"exit {p.returncode}: {err[-3000:]}"
    try:
        return json.loads(out), err[-2000:]
    except ValueError:
        return None, "no JSON: " + out[-500:] + err[-2000:]


limit = 640 if a.tier == "quick" else 800
has_contracts = os.path.exists(os.path.join(HERE, "contracts", a.pid.lower() + ".py")) and not a.no_prove
pp = start([VT, os.path.join(HERE, "pyvc", "prove.py"), a.pid, "--tier", a.tier]) if has_contracts else None
bp = None if a.no_battery else start([PY, os.path.join(HERE, "battery", "run.py"), a.pid, "--seed", str(SEED), "--tier", a.tier])
bat, berr = finish(bp, limit) if bp else ({"violations": [], "evaluations": 0, "distinct": 0, "samples": [], "rule": "off"}, "")
proof, perr = finish(pp, max(10.0, limit - (time.time() - T0) + 60)) if pp else (None, "")

if bat is None:
    print(f"check {a.pid}: the battery failed: {berr}", file=sys.stderr)
    sys.exit(3)

known = []
with open(os.path.join(HERE, "known-findings.txt")) as f:
    for line in f:
        if line.startswith(f"known: property={a.pid} "):
            known.append(line.split(" ", 2)[2].strip())

os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
violations, replay = [], os.path.join("evidence", f"replay-{a.pid}.json")
for v in bat["violations"]:
    violations.append({"kind": "concrete", **v})
refuted = (proof or {}).get("refuted", [])
obligations, discharged = (proof or {}).get("obligations", 0), (proof or {}).get("discharged", 0)
undecided = (proof or {}).get("undecided", [])
if proof is not None and obligations == 0:
    print(f"check {a.pid}: no obligation was generated", file=sys.stderr)
    sys.exit(3)
if pp and proof is None:
    undecided = [{"function": "*", "reason": perr[-1500:]}]

all_proved = proof is not None and not refuted and not undecided and obligations == discharged
bounded = {
    "label": "bounded stand-in (concrete executions of the real code; not counted as proved)",
    "evaluations": bat["evaluations"], "distinct_nontrivial": bat["distinct"], "rule": bat["rule"], "samples": bat["samples"],
}
assumptions = (proof or {}).get("assumptions", [])
if proof is not None:
    level = "proof"
    coverage = {
        "obligations": obligations, "discharged": discharged, "checker_cmd": CMD,
        "trusted_base": proof["trusted_base"], "back_end": proof["back_end"], "solver_s": proof["solver_s"],
        "functions_under_contract": proof["functions"], "contracts": proof["contracts"], "paths": proof["paths"],
        "covers": proof["covers"], "canaries": proof.get("canaries", {}),
        "undecided": undecided, "bounded": bounded, **{k: bounded[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")},
    }
    if not all_proved:
        coverage["explanation"] = "Not every obligation was discharged on this tree; what is undecided rests on the bounded stand-in."
else:
    level = "exploration"
    coverage = dict(bounded)
    if pp:
        coverage["undecided"] = undecided
evidence = {"property": a.pid, "tier": a.tier, "seed": SEED, "level": level, "coverage": coverage, "assumptions": assumptions,
            "wall_s": round(time.time() - T0, 3), "violations": len(violations) + len(refuted)}
with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
    json.dump(evidence, f, indent=1, default=str)
    f.write("\n")

for k in known:
    print(f"KNOWN-FINDING: property={a.pid} {k}")
if violations or refuted:
    with open(os.path.join(HERE, replay), "w") as f:
        json.dump({"property": a.pid, "command": CMD, "failing_inputs": violations, "failed_obligations": refuted,
                   "undecided": undecided}, f, indent=1, default=str)
        f.write("\n")
    for v in violations[:5]:
        print(f"  input: {v['input']}\n    expected: {v['expected']}\n    got: {v['got']}")
    for r in refuted[:5]:
        print(f"  failed obligation: {r['name']}")
    tail = "" if violations else " no-failing-input-found"
    print(f"VIOLATION property={a.pid} replay={replay}{tail}")
    sys.exit(1)
if proof is not None:
    print(f"{a.pid}: {discharged}/{obligations} obligations discharged, {len(undecided)} undecided; "
          f"bounded stand-in: {bat['evaluations']} cases, no violation ({evidence['wall_s']} s)")
else:
    print(f"{a.pid}: bounded only: {bat['evaluations']} cases, no violation ({evidence['wall_s']} s) {perr[-300:]}")
