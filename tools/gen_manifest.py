#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a TestCxx in harness/props is claimed."""
import glob, json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(V + "/harness/props/*_test.go"))
have = set(re.findall(r"func Test(C\d\d)\(", src))
T = json.load(open(V + "/tools/techniques.json"))
NA = T.get("not_applicable", {})
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
         notes="No hooks: every check drives the ticat binary built from /repo's working tree as a black box.")
for p in props:
    i = p["id"]
    if i not in have:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "the check is not built yet")))
        continue
    t = T[i] if i in T else {}
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                            thorough_cmd="python3 check.py %s --tier thorough" % i,
                            evidence_file="evidence/%s.json" % i,
                            technique=t.get("technique", "property-based testing (rapid): generated worlds and command lines against a reference model"),
                            level=t.get("level", "exploration"),
                            level_note=t.get("note", "Held on every generated case, shrunk counterexample otherwise; no exhaustiveness. Trusts the OS, bash and the Go toolchain; sizes of the generated cases are bounded as DESIGN.md says.")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
