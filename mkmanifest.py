import json
from plans import PLANS
NOTES = {}
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
TECH="TLA+ specification (TLC): design model-checked; observations of the real code judged by / replayed against the specification"
checks=[]; na=[]
for p in props:
    if p in PLANS:
        checks.append({"property":p,"quick_cmd":"python3 run.py %s quick"%p,"thorough_cmd":"python3 run.py %s thorough"%p,
          "technique":TECH,"level":"model_checking",
          "level_note":"The specification is model-checked over a bounded universe; the implementation is bound to it by conformance: bounded-exhaustive cases generated by TLC and seeded random cases are executed by the real code and every observation is judged by TLC against the specification. Not a proof: inputs outside the explored sets are not covered. Trusts TLC, the Go toolchain (go/parser, go/format, reflect, go/types) and the driver's projections."})
    else:
        na.append({"property":p,"reason":"no check built yet (work in progress)"})
m={"version":1,"setup_cmd":"sh setup.sh","checks":checks,"not_applicable":na,
   "notes":"Checks build the driver (driver/) against /repo's working tree, through its public API only: no hooks in /repo."}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
