#!/usr/bin/env python3
"""Decide one property on /repo's current tree.

  check.py PID [quick|thorough]        run the check (exit 0 held, 1 violation)
  check.py --replay FILE               run a recorded violation again
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PETROFIT_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"


def env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=tempfile.gettempdir())
    return e


def spawn(args):
    return subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=tempfile.gettempdir(), env=env())


def collect(p, limit):
    """(parsed JSON or None, tail of stderr)"""
    try:
        o, e = p.communicate(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "time limit of %d s" % limit
    try:
        return json.loads(o.decode()), e.decode(errors="replace")[-2000:]
    except ValueError:
        return None, "exit %s: %s" % (p.returncode, e.decode(errors="replace")[-2000:])


def findings(pid):
    out = []
    try:
        for ln in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def rac_run(pid, seed, tier, budget, factor=1.0):
    return spawn([PY, os.path.join(V, "rac", "main.py"), "run", pid, str(seed), tier, str(budget), str(factor)])


def rac_cases(pid, cases, limit=120):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(cases, f)
    try:
        r, err = collect(spawn([PY, os.path.join(V, "rac", "main.py"), "replay", pid, f.name]), limit)
    finally:
        os.unlink(f.name)
    return r["results"] if r and "results" in r else None


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    if "case" in d:
        r = rac_cases(pid, [d["case"]])
        print(d.get("what"))
        if r and r[0]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print(r[0])
            return 1
        print("the case holds on this tree")
        return 0
    print("failed obligation, no failing input:", json.dumps(d.get("obligation"), indent=1))
    return main(pid, "quick")


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cap = 60 if tier == "quick" else 420
    proc = rac_run(pid, seed, tier, cap)
    eng = spawn([VT, os.path.join(V, "vc", "main.py"), pid, tier, str(seed)]) if os.path.exists(os.path.join(V, "vc", "contracts", pid + ".py")) else None
    rac, racerr = collect(proc, cap + 90)
    res, engerr = collect(eng, (380 if tier == "quick" else 620) - (time.time() - t0)) if eng else (None, "no contracts")

    viol = []        # (case or None, text, obligation)
    notes = []
    if rac is None:
        notes.append("runtime contract checking gave no result: " + racerr)
        rac = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "rule": "", "planned": 0, "wall": 0}
    if "broken_import" in rac:
        viol.append((None, "the package does not import: " + rac["broken_import"], None))
        rac = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "rule": "", "planned": 0, "wall": 0}
    for f in rac["fails"]:
        viol.append((f["case"], f["what"], None))
    if res is None:
        res = {"obligations": [], "functions": [], "assumptions": [], "trusted": [], "solver_s": 0.0, "outside": [], "error": engerr}
        notes.append("deductive engine gave no result: " + engerr)
    try:
        exp = {"%s:%s" % (u, n) for u, ns in json.load(open(os.path.join(V, "tools", "expected.json"))).get(pid, {}).items() for n in ns}
    except OSError:
        exp = set()
    good = {o["name"] for o in res["obligations"] if o["status"] == "discharged"}
    lost = sorted(exp - good)
    refuted = [o for o in res["obligations"] if o["status"] == "refuted"]
    undecided = [o for o in res["obligations"] if o["status"] == "unknown"]
    dropped = []
    if lost and not refuted and not viol:
        # proofs of the unchanged tree that no longer go through decide nothing: look harder for a failing input
        notes.append("%d obligations that hold on the unchanged tree are not discharged now: %s" % (len(lost), ", ".join(lost[:5])))
        more, _ = collect(rac_run(pid, seed + 7919, tier, 120, 6.0), 180)
        for f in (more or {}).get("fails", []):
            viol.append((f["case"], f["what"], None))
        if more:
            rac["evaluations"] += more["evaluations"]
            rac["distinct"] += more["distinct"]
    if refuted and not viol:
        # replay the verifier's counterexamples on the real code
        withcase = [o for o in refuted if o.get("case")]
        got = rac_cases(pid, [o["case"] for o in withcase]) if withcase else []
        for o, r in zip(withcase, got or []):
            if r:
                viol.append((o["case"], r, o))
            else:
                o["replayed"] = "the countermodel, replayed on the real code, satisfies the contract"
        if not viol:
            more, _ = collect(rac_run(pid, seed + 7919, tier, 90, 6.0), 150)
            for f in (more or {}).get("fails", []):
                viol.append((f["case"], f["what"], refuted[0]))
            if more:
                rac["evaluations"] += more["evaluations"]
                rac["distinct"] += more["distinct"]
        if not viol:
            for o in refuted:
                if o.get("replayed") and got:
                    dropped.append(o)
                    o["status"] = "unknown"
                else:
                    viol.append((None, "obligation %s fails" % o["name"], o))

    known = findings(pid)
    hit, fresh = [], []
    for v in viol:
        k = [d for pat, d in known if re.search(pat, v[1])]
        (hit if k else fresh).append((v, k))
    for _, d in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))

    obl = res["obligations"]
    disc = [o for o in obl if o["status"] == "discharged" and not o.get("bound")]
    bnd = [o for o in obl if o["status"] == "discharged" and o.get("bound")]
    backends = {}
    for o in obl:
        if o["status"] == "discharged":
            backends[o.get("backend", "?")] = backends.get(o.get("backend", "?"), 0) + 1
    units, bounds = {}, {}
    for o in obl:
        u, _, n = o["name"].partition(":")
        e = units.setdefault(u, {"s": 0.0, "back_ends": []})
        e.setdefault(o["status"] + (" (bounded)" if o.get("bound") else ""), []).append(n)
        e["s"] = round(e["s"] + o.get("s", 0), 3)
        if o.get("backend") and o["backend"] not in e["back_ends"]:
            e["back_ends"].append(o["backend"])
    for o in bnd:
        bounds[o["bound"]] = bounds.get(o["bound"], 0) + 1
    man = {}
    try:
        for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                man = c
    except OSError:
        pass
    level = man.get("level", "exploration")
    cov = {"evaluations": rac["evaluations"], "distinct_nontrivial": rac["distinct"],
           "rule": "runtime contract checking of the real code (bounded, never counted as proved): " + (rac["rule"] or "-") + "; distinct by the digest of the whole input",
           "samples": rac["samples"] or ["(none)"]}
    if obl:
        cov.update({
            "obligations": len([o for o in obl if not o.get("bound")]), "discharged": len(disc),
            "checker_cmd": "%s vc/main.py %s %s" % (VT, pid, tier), "trusted_base": res["trusted"],
            "functions_under_contract": res["functions"], "back_ends": backends, "solver_s": round(res["solver_s"], 3),
            "bounded_obligations": bounds,
            "undecided_obligations": [{"name": o["name"], "why": str(o.get("why", ""))[:300]} for o in undecided + dropped],
            "units": units,
            "outside_the_verifier": res["outside"], "vacuity": res.get("vacuity"),
            "expected_obligations": len(exp), "expected_obligations_lost": lost[:50]})
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": res["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for o in undecided:
        print("undecided: %s (%s)" % (o["name"], str(o.get("why", ""))[:200]))
    for n in notes:
        print("note:", n[:600])
    print("%s: %d/%d obligations discharged%s, %d runtime evaluations, %.1f s" % (pid, len(disc), cov.get("obligations", 0), (" + %d bounded" % len(bnd)) if bnd else "", rac["evaluations"], time.time() - t0))
    if not fresh:
        return 0
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    fresh.sort(key=lambda v: v[0][0] is None)
    (case, what, o), _ = fresh[0]
    path = os.path.join(V, "replays", "%s-%d.json" % (pid, seed))
    d = {"property": pid, "what": what, "obligation": o, "failed_obligations": refuted, "lost_obligations": lost[:50], "undecided_obligations": undecided[:50], "verifier_output": engerr, "seed": seed, "tier": tier}
    if case is not None:
        d["case"] = case
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    print(what[:1000])
    for r in refuted[:5]:
        print("failed obligation:", r["name"])
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if case is not None else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except SystemExit:
        raise
    except BaseException as e:      # the check itself failed
        import traceback
        traceback.print_exc()
        sys.exit(3)
