import json, os, sys, re
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.json")
r = json.load(open(p)) if os.path.exists(p) else {}
v = re.search(r"violated (\[.*?\])", sys.argv[3])
r[sys.argv[1]] = ("yes " + (v.group(1) if v else "")) if sys.argv[2] == "1" else "no"
json.dump(r, open(p, "w"), indent=0, sort_keys=True)
