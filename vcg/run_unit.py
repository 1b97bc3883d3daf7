#!/usr/bin/env python3
"""run_unit.py --list | NAME [--tier T] [-v]: one unit of /verif/specs, as JSON."""
import glob, importlib.util, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SPECS = os.path.join(os.path.dirname(HERE), "specs")
import vcg, spec

def load():
    for f in sorted(glob.glob(os.path.join(SPECS, "*.py"))):
        spec.FILE = "specs/" + os.path.basename(f)
        n = "spec_" + os.path.basename(f)[:-3]
        s = importlib.util.spec_from_file_location(n, f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return spec.UNITS

def run(u, verbose):
    out = {"name": u.name, "error": None, "obligations": 0, "discharged": 0, "trivial": 0, "failed": [], "vacuous": [], "by": {},
           "solver_s": 0.0, "invariants": [], "inlined": [], "called": [], "functions": [], "exits": 0}
    t0 = time.time()
    try:
        jobs = u.build(u)
        for vc, con in jobs:
            n0 = len(vc.obls)
            feas = vc.verify(con)
            if not vc.pre_sat: out["vacuous"].append("precondition of %s is unsatisfiable" % con.name)
            if feas == 0: out["vacuous"].append("%s has no feasible exit" % con.name)
            bad = vcg.discharge(vc, jobs=u.jobs, timeout=u.t1, second=u.t2)
            n = len(vc.obls)
            out["obligations"] += n + vc.triv; out["discharged"] += n - len(bad) + vc.triv; out["trivial"] += vc.triv
            out["exits"] += feas
            for o in vc.obls:
                out["solver_s"] += o.t
                if o.result == "unsat": out["by"][o.by] = out["by"].get(o.by, 0) + 1
            out["functions"].append({"function": con.name, "obligations": n + vc.triv, "exits": feas, "slowest_s": round(max([o.t for o in vc.obls] or [0]), 2)})
            for fn, line, inv in vc.invs: out["invariants"].append("%s line %s: %s" % (fn, line, "; ".join(inv)))
            out["inlined"] = sorted(set(out["inlined"]) | vc.inlined)
            out["called"] = sorted(set(out["called"]) | vc.called)
            seen = {}
            for o in bad:
                k = "%s: %s (line %s)" % (con.name, o.kind, o.loc)
                seen[k] = seen.get(k, []) + [o.result]
                if verbose: print("FAILED", k, o.result, o.by, o.trace, file=sys.stderr)
            for k, v in seen.items(): out["failed"].append("%s: %d path(s), solver answers %s" % (k, len(v), sorted(set(v))))
            if verbose: print(con.name, n, "obligations", len(bad), "bad", round(time.time() - t0, 1), "s", vc.invs, file=sys.stderr)
    except vcg.Unsupported as x:
        out["error"] = "not in the verifier's subset: %s (line %s)" % (x, getattr(vc, "lastline", "?") if "vc" in dir() else "?")
    if not out["error"] and out["obligations"] == 0: out["vacuous"].append("no obligations")
    out["solver_s"] = round(out["solver_s"], 2)
    return out

if __name__ == "__main__":
    us = load()
    if sys.argv[1] == "--list":
        print(json.dumps([{"name": u.name, "props": u.props, "native": u.native, "tier": u.tier, "timeout": u.timeout,
            "functions": u.functions, "trusted": u.trusted, "notes": u.notes, "file": u.file} for u in us]))
    else:
        u = [x for x in us if x.name == sys.argv[1]][0]
        print(json.dumps(run(u, "-v" in sys.argv)))
