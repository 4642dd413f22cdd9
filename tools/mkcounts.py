"""refresh the `N, S s.` at the end of each property's entry of DESIGN.md from the evidence of the last runs"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
for name in sorted(os.listdir(os.path.join(root, "evidence"))):
    ev = json.load(open(os.path.join(root, "evidence", name)))
    cov = ev["coverage"]
    n, s = cov.get("obligations"), ev["wall_s"]
    if not n:
        continue
    text = re.sub(r"(?m)^(\*\*%s\*\* .*?)[ ]*\b\d+( obligations)?, \d+ s( \(largest\))?\.$" % ev["property"],
                  lambda m: "%s %d%s, %d s." % (m[1], n, m[2] or "", round(s)), text)
open(path, "w").write(text)
