"""prints the table of DESIGN.md section 2 from evidence/*.json (run the checks first)"""
import json, glob
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    d = json.load(open(f)); c = d["coverage"]
    fs = sorted({k.split("::", 1)[-1] if k.count("::") > 1 else k for k in c["functions_under_contract"]})
    print("| %s | %d | %d | %.0f s | %.0f s |" % (d["property"], len(c["functions_under_contract"]), c["obligations"], c.get("solver_s", sum(v["solver_s"] for v in c["functions_under_contract"].values())), d["wall_s"]))
