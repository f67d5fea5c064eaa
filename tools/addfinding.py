"""addfinding.py recorded <id> <property> <key> <replay file> <what>
   addfinding.py fixed <id> <property> <commit> <what>"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(here, "known_findings.json")
d = json.load(open(fn))
a = sys.argv[1:]
if a[0] == "recorded":
    f = {"status": "recorded", "id": a[1], "property": a[2], "key": a[3], "what": a[5], "case": json.load(open(a[4]))["case"]}
else:
    f = {"status": "fixed", "id": a[1], "property": a[2], "commit": a[3], "what": a[4],
         "line": "fixed: property=%s %s %s" % (a[2], a[3], a[4])}
d["findings"] = [x for x in d["findings"] if x["id"] != a[1]] + [f]
d["findings"].sort(key=lambda x: (x["property"], x["status"], x["id"]))
json.dump(d, open(fn, "w"), indent=1, sort_keys=True)
