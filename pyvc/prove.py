"""usage: prove.py PID [--tier T] [--trace] [--only NAME]

Explores every contract of the property on the instrumented code of the working tree and prints a JSON report.  A contract
whose obligations are not all discharged is explored again with loops and collections bounded, which gives a countermodel
(refuted) or none (undecided)."""
from __future__ import annotations
import argparse, importlib, json, multiprocessing, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(5000)
from pyvc import loader  # noqa: E402
loader.install()
import z3  # noqa: E402
from pyvc import engine, lib, runtime  # noqa: E402


PID = None


def explore(con, bounded, budget, trace, prove_ms, only=None):
    """*only*: the obligations of interest."""
    e = engine.Engine(bounded=bounded, budget_s=budget, trace=trace, prove_ms=prove_ms)
    e.weak_paths, e.only = con.weak_paths, only
    if not trace:
        e.slots = Job.slots
    err = None
    try:
        e.explore(lambda e: con.fn(lib.C(e, con.name, PID, con)))
    except engine.Unsupported as exc:
        err = f"{type(exc).__name__}: {exc}"
        if trace:
            traceback.print_exc()
    except z3.Z3Exception as exc:
        err = f"z3: {exc}"
    except Exception as exc:
        err = "verifier: " + "".join(traceback.format_exception(exc))[-1500:]
    return e, err


def confirm(con, e, budget):
    """The contract again, with small collections.  Covers: paths that the solver could not show reachable with quantified
    axioms may be reachable so.  Gives the claims that are reached so, but that the proof has not come across (vacuity)."""
    b = engine.Engine(bounded=1, budget_s=budget)
    b.covers_only = True
    try:
        b.explore(lambda e: con.fn(lib.C(e, con.name, PID, con)))
    except (engine.Unsupported, Exception):
        pass
    for n, st in b.covers.items():
        if st == "sat" and n in e.covers:
            e.covers[n] = "sat"
    return sorted((b.reached | {n for n, st in b.covers.items() if st == "sat"}) - {o.name for o in e.obligations} - set(e.covers))


class Job:
    slots = None            # how many processes work at a time

    def __init__(self, a):
        self.a = a

    def __call__(self, i):
        cons = [c for c in lib.CONTRACTS if self.a.pid in c.pids + c.also and (not self.a.only or self.a.only in c.name)]
        with self.slots:
            return one(cons[i], self.a)


def one(con, a):
    """Decide one contract."""
    thorough = a.tier == "thorough"
    rep = {"obligations": 0, "discharged": 0, "refuted": [], "undecided": [], "contracts": [], "paths": 0, "covers": {}, "solver_s": 0.0}
    e, err = explore(con, a.bounded, 600 if thorough else 400, a.trace, 30000 if thorough else 6000)
    rep["contracts"].append({"name": con.name, "obligations": len(e.obligations), "paths": e.paths, "solver_s": round(e.solver_s, 2)})
    rep["paths"] += e.paths
    rep["solver_s"] += e.solver_s
    rep["externals"] = sorted(e.rt.externals)
    rep["obligations"] += len(e.obligations)
    rep["discharged"] += sum(o.status == "discharged" for o in e.obligations)
    open_ = [o for o in e.obligations if o.status != "discharged"]
    if err:
        rep["undecided"].append({"function": con.name, "reason": err})
        rep["obligations"] += 1
    elif not e.obligations:
        rep["undecided"].append({"function": con.name, "reason": "no obligation was generated"})
        rep["obligations"] += 1
    if not err:
        if a.bounded is None:
            missed = confirm(con, e, 60 if thorough else 15)
            if missed:
                rep["undecided"].append({"function": con.name, "reason": "not reached by the proof: " + "; ".join(missed)})
                rep["obligations"] += 1
        for name, st in e.covers.items():
            rep["covers"][name] = st
    if open_ or err and not err.startswith("Budget"):
        b, berr = explore(con, 2, 90 if thorough else 45, False, 4000, None if err else {o.name for o in open_}) if a.bounded is None else (e, None)
        rep["solver_s"] += b.solver_s
        ref = {}
        for o in b.obligations:
            if o.status == "refuted":
                ref.setdefault(o.name, o)
        seen = set()
        if err:
            # no proof is possible, but a countermodel is one all the same
            rep["refuted"] += [{"name": n, "functions": con.functions, "countermodel": o.detail[:4000]} for n, o in ref.items()
                               if n not in {x.name for x in open_}]
        for o in open_:
            if o.name in seen:
                continue
            seen.add(o.name)
            if o.name in ref or o.status == "refuted":
                r = ref.get(o.name, o)
                rep["refuted"].append({"name": o.name, "functions": con.functions, "countermodel": r.detail[:4000]})
            else:
                rep["undecided"].append({"function": con.name, "reason": f"not discharged: {o.name}: {o.detail[:600]}"})
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--bounded", type=int)
    a = ap.parse_args()
    global PID
    PID = a.pid
    lib.C.thorough = a.tier == "thorough"
    cdir = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    runtime.CONTRACT_DIRS.append(cdir)
    t0 = time.time()
    rep = {"obligations": 0, "discharged": 0, "refuted": [], "undecided": [], "functions": [], "contracts": [], "paths": 0,
           "covers": {}, "canaries": {}, "solver_s": 0.0}
    # the solver does not accept everything
    ce = engine.Engine(budget_s=20, prove_ms=300)

    def canary(e):
        c = lib.C(e, "canary")
        v = c.value("v")
        if c.rt.truth(v):
            c.never("an arbitrary value is never true")
        else:
            c.never("an arbitrary value is never false")
    ce.explore(canary)
    bad = [o for o in ce.obligations if o.status == "discharged"]
    if bad or len(ce.obligations) != 2:
        sys.exit("the verifier proved something false")
    rep["canaries"]["false claims rejected"] = len(ce.obligations)
    try:
        importlib.import_module("contracts." + a.pid.lower())
        cons = [c for c in lib.CONTRACTS if a.pid in c.pids + c.also]
    except Exception as exc:
        # the contracts name something that the code no longer has
        rep["undecided"].append({"function": "*", "reason": "".join(traceback.format_exception(exc))[-1500:]})
        cons = []
    cons = [c for c in cons if not a.only or a.only in c.name]
    externals = set()
    rep["functions"] = sorted({f for c in cons for f in c.functions})
    if a.trace or not cons:
        parts = [one(c, a) for c in cons]
    else:
        fork = multiprocessing.get_context("fork")
        Job.slots = fork.Semaphore(os.cpu_count() or 1)
        with fork.Pool(len(cons), maxtasksperchild=1) as pool:
            parts = pool.map(Job(a), range(len(cons)), chunksize=1)
    for r in parts:
        for k in ("obligations", "discharged", "paths", "solver_s", "refuted", "undecided", "contracts"):
            rep[k] += r[k]
        rep["covers"].update(r["covers"])
        externals |= set(r["externals"])
    rep["back_end"] = f"z3 {z3.get_version_string()} (path exploration and loop summaries by pyvc)"
    rep["assumptions"] = [v for v in lib.ASSUMED.values()] + sorted(f"external function {x}: its outcome is a function of its arguments" for x in externals)
    rep["trusted_base"] = ["pyvc (instrumentation, path exploration, summaries)", "z3", "CPython for module-level code and concrete calls"]
    rep["solver_s"] = round(rep["solver_s"], 2)
    rep["wall_s"] = round(time.time() - t0, 2)
    json.dump(rep, sys.stdout, indent=1 if a.trace else None)
    print()


if __name__ == "__main__":
    main()
