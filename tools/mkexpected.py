"""Record which obligations the engine discharges on the unchanged tree (tools/expected.json).

  mkexpected.py [PID ...]      run on a quiet machine
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"
F = os.path.join(V, "tools", "expected.json")
try:
    exp = json.load(open(F))
except OSError:
    exp = {}
pids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(V, "vc", "contracts")) if f[0] == "C" and f[1:3].isdigit())
for p in pids:
    r = json.loads(subprocess.run([VT, os.path.join(V, "vc", "main.py"), p, "quick", "1"], stdout=subprocess.PIPE, cwd="/tmp").stdout)
    ok = {}
    for o in r["obligations"]:
        if o["status"] == "discharged":
            u, _, n = o["name"].partition(":")
            ok.setdefault(u, []).append(n)
    bad = [o["name"] for o in r["obligations"] if o["status"] != "discharged"]
    exp[p] = {u: sorted(ns) for u, ns in sorted(ok.items())}
    print(p, sum(map(len, ok.values())), "not discharged:", bad)
json.dump(exp, open(F, "w"), indent=0, sort_keys=True)
