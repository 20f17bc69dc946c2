"""Write MANIFEST.json from the list of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.runner import properties
T_VAL = "abstract interpretation to value-numbered terms; equality with the definition by term identity or identity testing"
T_EFF = "interprocedural effect analysis over all paths of the abstract interpretation"
T_MIX = "abstract interpretation: term equality plus effect and path rules"
TECH = {"C10": T_MIX, "C11": T_EFF, "C14": T_EFF, "C15": T_EFF, "C16": T_MIX, "C17": T_MIX, "C19": T_EFF, "C20": T_EFF,
        "C21": T_MIX, "C22": T_EFF, "C05": T_MIX, "C18": T_MIX, "C25": T_MIX, "C26": T_MIX}
NOTE_VAL = ("Every input in the analysed classes (symbolic sizes and data) in exact arithmetic; terms that are not the "
            "same node are compared at finitely many rational points per class. Trusts the library models in sa/; "
            "rounding is not modelled; undecided obligations raise no alarm.")
NOTE_EFF = ("All paths of the analysed entry points for symbolic sizes and data. Trusts the library models in sa/; "
            "calls the analysis cannot resolve leave an obligation undecided, never alarmed.")
NA = {
    "C30": "bounds on floating-point rounding error quantify over runtime magnitudes; terms are analysed in exact "
           "arithmetic and no sound static error bound for these data-dependent sums is in reach",
    "C31": "a statement about sampling distributions, not about program text; C10 and C12 cover the structural part",
    "C32": "wall-clock or step counts of library sorts and compiled loops over symbolic sizes cannot be bounded by this "
           "analysis; C22 covers the space part",
}
checks = []
for p in sorted(properties()):
    t = TECH.get(p, T_VAL)
    checks.append({"property": p, "quick_cmd": f"python3 -m sa.check {p} --tier quick",
                   "thorough_cmd": f"python3 -m sa.check {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": "static analysis: " + t, "level": "other",
                   "level_note": NOTE_EFF if t == T_EFF else NOTE_VAL})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in properties()]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's source and never import or run it. Standard library only."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
