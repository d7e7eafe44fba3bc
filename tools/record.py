"""record.py fixed 'property=P12 <commit> what' | record.py finding P12 key 'what'"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
if sys.argv[1] == "fixed":
    d["fixed"].append("fixed: " + sys.argv[2])
else:
    d["findings"].append(dict(property=sys.argv[2], key=sys.argv[3], what=sys.argv[4]))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
