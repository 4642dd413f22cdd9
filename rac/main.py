"""Run the runtime contract check of one property on the real code (JSON on stdout).

run PID SEED TIER BUDGET FACTOR  |  replay PID CASEFILE
"""
import json
import os
import sys

REPO = os.environ.get("PETROFIT_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
MOD = {**{"C%02d" % i: "petro" for i in range(1, 8)}, **{"C%02d" % i: "photo" for i in range(8, 12)},
       **{"C%02d" % i: "mods" for i in range(12, 20)}, "C20": "fit", "C21": "fit", "C29": "fit",
       "C22": "corr", "C23": "corr", "C24": "corr", "C25": "util", "C26": "util", "C27": "util", "C28": "util", "C30": "util", "C34": "mods", "C35": "corr", "C37": "corr",
       **{"C%02d" % i: "draw" for i in (36, 38, 39, 40, 41, 42, 43, 44)}}


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    mode, pid = sys.argv[1:3]
    import importlib
    try:
        from rac import base
        import petrofit
        assert os.path.realpath(petrofit.__file__).startswith(os.path.realpath(REPO) + "/"), petrofit.__file__
        importlib.import_module("rac." + MOD[pid])
    except Exception as e:
        import traceback
        os.write(out, json.dumps({"broken_import": "%s: %s" % (type(e).__name__, e), "traceback": traceback.format_exc()[-3000:]}).encode())
        return
    if mode == "run":
        r = base.run(pid, int(sys.argv[3]), sys.argv[4], float(sys.argv[5]), float(sys.argv[6]))
    else:
        cases = json.load(open(sys.argv[3]))
        r = {"results": [base.run_case(base.REG[pid], base.dec(c)) for c in cases]}
    os.write(out, json.dumps(r).encode())


main()
