"""python3 tools/fixed.py PROPERTY COMMIT TEXT: record a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
open(p, "w").write('{"findings": [' + ",\n ".join(json.dumps(x) for x in d["findings"]) + '],\n "fixed": [\n  ' + ",\n  ".join(json.dumps(x) for x in d["fixed"]) + "\n ]}\n")
