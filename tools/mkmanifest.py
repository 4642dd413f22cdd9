"""Write MANIFEST.json from the property list and the contracts present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C31": "The outcome depends on the convergence of an iterative floating-point optimiser inside scipy/astropy and on the noise; no contract on petrofit's code determines it. What petrofit hands to the fitter is decided by C20.",
 "C32": "Detection and deblending are photutils' and scipy's code; petrofit only forwards arguments (decided by C11). A contract on the dependency would be an assumption, not a proof.",
 "C33": "The agreement is an approximation bound between a sampled image and an analytic profile; it needs numerical error analysis of pixel sampling, resampling and cubic splines that no contract verifier here can carry. The exact relations are decided by C03, C04, C13 and C18.",
}
try:
    levels = json.load(open(os.path.join(V, "tools", "levels.json")))
except OSError:
    levels = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    lv = levels.get(i, {"level": "exploration", "technique": "runtime contract checking of the real code (bounded stand-in for contract obligations)",
                        "note": "Bounded: the contract is evaluated on generated inputs of the real code; nothing is proved for this property."})
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": lv["technique"], "level": lv["level"], "level_note": lv["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "check.py runs the deductive engine (vc/, python3-vt) on /repo's current source and the runtime contract checks (rac/, /opt/venv) on the real code. VERIF_SEED seeds every random choice."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
