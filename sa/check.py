"""Command line: python3 -m sa.check <property> [--tier quick|thorough]

Analyses the source under /repo (never imports or runs it) and decides one property.
Exit status 0: no violation; 1: violation (a VIOLATION line is printed); 2: no answer.
"""
from __future__ import annotations

import argparse
import collections
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = [
    "semantics of the Python subset, NumPy/Array API, SciPy, Numba and joblib operations as modelled in sa/*.py",
    "exact arithmetic: terms are compared as real (rational) functions, rounding is not modelled",
    "terms that are not the same node are compared by identity testing at finitely many points per obligation",
]


def known_findings(prop):
    """Open findings listed for a property: rule and configuration of the failing obligation."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line + " ":
                rest = line.split(f"property={prop}", 1)[1].strip()
                where, _, what = rest.partition(" :: ")
                out.append((where, what or where))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    from .runner import run
    budget = a.budget or (400 if a.tier == "quick" else 3000)
    rows, functions, calls, points, errs, secs = run(a.property, a.tier, a.seed, a.repo, a.jobs, budget)
    cnt = collections.Counter(r["verdict"] for r in rows)
    known, bad = [], []
    listed = known_findings(a.property)
    for r in rows:
        if r["verdict"] != "violated":
            continue
        hit = [w for k, w in listed if k == r["config"]]
        (known if hit else bad).append((r, hit[0] if hit else None))
    rules = collections.Counter(r["rule"] for r in rows)
    os.makedirs(a.evidence, exist_ok=True)
    decided = [r for r in rows if r["verdict"] in ("identical", "equal", "holds")]
    samples = []
    for v in ("identical", "equal", "holds", "undecided", "violated"):
        for r in [r for r in rows if r["verdict"] == v][:3]:
            samples.append({k: r[k] for k in ("rule", "config", "verdict", "detail", "where")})
    ev = {
        "property": a.property, "tier": a.tier, "seed": a.seed, "level": "other",
        "coverage": {
            "explanation": "Interprocedural abstract interpretation of the source into value-numbered terms and "
                           "effects; each obligation is one rule applied to one entry point and input class.",
            "obligations": len(rows), "discharged": len(decided),
            "same_term": cnt["identical"], "identity_tested": cnt["equal"], "effect_or_path_rules": cnt["holds"],
            "undecided": cnt["undecided"], "entry_calls_analysed": calls,
            "interpretation_points": points,
            "functions_analysed": sorted(functions), "rules": dict(rules), "samples": samples,
            "trusted_base": TRUSTED,
            "analysis_errors": [f"{k}: {m.splitlines()[-1] if m.splitlines() else m}" for k, m in errs],
        },
        "assumptions": TRUSTED,
        "wall_s": round(secs, 2), "violations": len(bad),
    }
    with open(os.path.join(a.evidence, a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.property}: {len(rows)} obligations over {len(functions)} functions: "
          + ", ".join(f"{v} {k}" for k, v in sorted(cnt.items())) + f" ({secs:.1f} s)")
    for r in rows:
        if a.verbose and r["verdict"] == "undecided":
            print(f"  undecided: {r['rule']} [{r['config']}]: {r['detail']}")
    for r, what in known:
        print(f"KNOWN-FINDING: property={a.property} {what}")
    for k, m in errs:
        print(f"  analysis {k}: {m}")
    if bad:
        path = os.path.join(a.evidence, a.property + ".violations.json")
        with open(path, "w") as f:
            json.dump({"property": a.property, "replay": f"cd {HERE} && python3 -m sa.check {a.property} "
                       f"--tier {a.tier} --seed {a.seed}", "violations": [r for r, _ in bad]}, f, indent=1, default=str)
        for r, _ in bad[:10]:
            print(f"  violated: {r['rule']}\n    in {r['where']}\n    case {r['config']}\n    {r['detail']}")
            if r["path"]:
                print("    call path: " + " > ".join(p.split()[-1] for p in r["path"][:12]))
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if any(k == "missing" for k, _ in errs) or not rows:
        print("no answer: " + "; ".join(sorted({m for _, m in errs})))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
