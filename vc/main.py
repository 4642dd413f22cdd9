"""Discharge the obligations of one property on /repo's current source.

  main.py PID TIER SEED [UNIT-substring]     JSON on stdout
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
import threading
REPO = os.environ.get("PETROFIT_REPO", "/repo")


def worker(conn, i, sizes, budget):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = {}

    def go():
        from vc import contract
        out["r"] = contract.run_unit(contract.UNITS[i], REPO, sizes, budget)
    threading.stack_size(256 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    conn.send(out.get("r"))
    conn.close()


def run_jobs(jobs, deadline, nproc):
    """[(key, unit index, sizes, budget)] -> {key: result}"""
    ctx = mp.get_context("fork")
    res, live, todo = {}, [], list(jobs)
    while todo or live:
        while todo and len(live) < nproc and time.time() < deadline:
            key, i, sizes, budget = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, i, sizes, budget), daemon=True)
            p.start()
            b.close()
            live.append((key, p, a, time.time() + budget * 1.5 + 20))
        if todo and time.time() >= deadline:
            for key, *_ in todo:
                res[key] = None
            todo = []
        nxt = []
        for key, p, a, lim in live:
            if a.poll(0.01):
                try:
                    res[key] = a.recv()
                except EOFError:
                    res[key] = None
                p.join()
            elif not p.is_alive():
                res[key] = None
            elif time.time() > min(lim, deadline + 15):
                p.kill()
                p.join()
                res[key] = None
            else:
                nxt.append((key, p, a, lim))
        live = nxt
    return res


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    pat = sys.argv[4] if len(sys.argv) > 4 else ""
    from vc import contract, loader
    mod = importlib.import_module("vc.contracts." + pid)
    mine = tuple([pid + "."] + list(getattr(mod, "CALLEES", [])))
    for c in getattr(mod, "CALLEES", []):
        importlib.import_module("vc.contracts." + c.split(".")[0])
    units = [(i, u) for i, u in enumerate(contract.UNITS) if u.name.startswith(mine) and pat in u.name and (u.opts.get("tier") in (None, tier))]
    t0 = time.time()
    deadline = t0 + (300 if tier == "quick" else 500)
    budget = 45 if tier == "quick" else 150
    nproc = max(1, min(8, (os.cpu_count() or 2)))
    jobs = [((i, "u"), i, None, u.opts.get("budget", budget)) for i, u in units if not u.opts.get("bounded_only")]
    jobs += [((i, json.dumps(u.sizes[0])), i, u.sizes[0], u.opts.get("budget", budget)) for i, u in units if u.opts.get("bounded_only")]
    res = run_jobs(jobs, deadline, nproc)
    again = []
    names = {i: u for i, u in units}
    for (i, k), r in list(res.items()):
        u = names[i]
        bad = r is None or r["error"] or any(o["status"] != "discharged" for o in r["obls"]) or not r["feasible"]
        if k == "u" and bad and u.sizes:
            for s in u.sizes if tier == "thorough" else u.sizes[:2]:
                again.append(((i, json.dumps(s)), i, s, u.opts.get("budget", budget)))
        if k != "u" and tier == "thorough":
            for s in u.sizes[1:]:
                again.append(((i, json.dumps(s)), i, s, u.opts.get("budget", budget)))
    res2 = run_jobs(again, deadline, nproc) if again else {}
    res.update(res2)
    obls, functions, used, solver, outside, feas, paths = [], set(), {}, 0.0, [], 0, 0
    for i, u in units:
        rs = [(json.loads(k) if k != "u" else None, r) for (j, k), r in res.items() if j == i]
        un = next((r for s, r in rs if s is None), None)
        bd = [(s, r) for s, r in rs if s is not None]
        for s, r in rs:
            if r:
                solver += r["solver_s"]
                functions |= set(r["functions"])
                used.update(r["used"])
                feas += r["feasible"]
                paths += r["paths"]
        got = {}
        if un and un["feasible"]:
            for o in un["obls"]:
                st = o["status"]
                why = o["why"]
                if un["error"] and st == "discharged":
                    st, why = "unknown", un["error"]
                got[o["name"]] = {"name": u.name + ":" + o["name"], "status": {"sat": "unknown"}.get(st, st), "sat": st == "sat", "backend": "+".join(sorted(o["backends"])), "s": o["s"], "why": why, "n": o["n"]}
                if st == "sat" and u.opts.get("scalar"):
                    got[o["name"]]["case"] = o["case"]
                    if o["case"] is not None:
                        got[o["name"]]["status"] = "refuted"
        if not got and (un is None or un["error"] or not un["feasible"]) and not u.opts.get("bounded_only"):
            outside.append("%s: %s" % (u.name, (un["error"] if un and un["error"] else "no answer" if un is None else "no feasible path")))
        elif un and un["error"]:
            outside.append("%s: %s" % (u.name, un["error"]))
        bres = {}
        for s, r in bd:
            if r is None:
                outside.append("%s at %s: no answer" % (u.name, s))
                continue
            if r["error"]:
                outside.append("%s at %s: %s" % (u.name, s, r["error"]))
            for o in r["obls"]:
                st = o["status"]
                if r["error"] and st == "discharged":
                    st = "unknown"
                bres.setdefault(o["name"], []).append((s, st, o, r))
        for nm, lst in bres.items():
            g = got.get(nm)
            if g and g["status"] == "discharged":
                continue
            sat = [(s, o) for s, st, o, r in lst if st == "sat"]
            base = {"name": u.name + ":" + nm, "backend": "+".join(sorted({b for _, _, o, _ in lst for b in o["backends"]})), "s": sum(o["s"] for _, _, o, _ in lst)}
            if sat:
                withcase = [x for x in sat if x[1]["case"] is not None]
                if withcase:
                    got[nm] = dict(base, status="refuted", case=withcase[0][1]["case"], why="countermodel at %s: %s" % (withcase[0][0], withcase[0][1]["why"]))
                elif u.opts.get("exact"):
                    got[nm] = dict(base, status="refuted", why="countermodel at %s: %s" % (sat[0][0], sat[0][1]["why"]))
                else:
                    got[nm] = dict(base, status="unknown", why="countermodel at %s over the library contracts: %s" % (sat[0][0], sat[0][1]["why"]))
            elif all(st == "discharged" for _, st, _, _ in lst):
                got[nm] = dict(base, status="discharged", bound=", ".join(json.dumps(s) for s, _, _, _ in lst))
            elif not g:
                got[nm] = dict(base, status="unknown", why=next((str(r["error"] or o["why"]) for _, st, o, r in lst if st != "discharged"), ""))
        limit = u.opts.get("bound")
        limit = limit(**u.variant) if callable(limit) else limit
        if limit:
            for o in got.values():
                o["bound"] = o.get("bound") or limit
        if not got:
            got["all"] = {"name": u.name, "status": "unknown", "why": outside[-1] if outside else "no answer"}
        obls += list(got.values())
    doc = getattr(mod, "ASSUMPTIONS", [])
    out = {"obligations": obls, "functions": sorted(functions), "assumptions": BASE + list(doc), "trusted": ["%s: %s" % kv for kv in sorted(used.items())] + TRUST,
           "solver_s": solver, "outside": outside, "vacuity": {"units": len(units), "paths": paths, "paths_with_satisfiable_assumptions": feas}, "wall": time.time() - t0}
    json.dump(out, sys.stdout, default=str)


BASE = ["floating point arithmetic is treated as real arithmetic (rounding, overflow and signed zeros are not modelled; division by zero is NaN)",
        "Python and numpy integers are treated as mathematical integers"]
TRUST = ["vc/ (this verification-condition generator: symbolic numpy and Python semantics, AST transforms of vc/loader.py)", "z3 5.3.2, cvc5 1.1.2, vc/nf.py (rational normal forms)", "CPython executes the loaded source"]

if __name__ == "__main__":
    main()
