# Source of properties.jsonl and MANIFEST.json: python3 tools/props.py
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts on the Go functions, own VC generator over go/ssa, z3/cvc5"
TRUST = "Trusted: gvc's translation of go/ssa to SMT, the solvers, the axioms listed in the evidence file (floats as reals with rounding-error bounds, library models). "
P = []
def prop(id, title, stmt, over, quant, why, files, mech, note, level="proof", state=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, quant=quant, why=why, files=files, mech=mech, note=note, level=level))
NA = []
def na(id, title, stmt, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, quant=quant, why=why, files=files, mech=mech, note=None, level=None))
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(here, "tools", "props_data.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["stmt"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])), ensure_ascii=False) + "\n")
m = dict(version=1,
    setup_cmd="cd /verif/gvc && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go build -o /dev/null .",
    checks=[dict(property=p["id"], quick_cmd="bash /verif/run.sh " + p["id"], thorough_cmd="bash /verif/run.sh " + p["id"],
        technique=TECH, level=p["level"], level_note=TRUST + p["note"]) for p in P if p["level"]],
    not_applicable=sorted(NA, key=lambda x: x["property"]),
    notes="Contracts: /verif/contracts; verifier: /verif/gvc; no hooks in /repo (contract files are overlaid at check time).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
