#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/suites.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
import suites
NOTE = {
 "C01": "TLC steps every recorded solve: A*X = b is evaluated exactly over the logged inputs and outputs, for random and adversarial families, all schemes and orderings.",
 "C02": "The exact elimination machine of RefLU decides the determinant of every logged matrix; the reported status must agree.",
 "C03": "L, U, rhos and pinv as logged must equal what the elimination machine, stepped along the logged pivots, computes.",
 "C04": "Every pivot of every logged factorization is checked against the scheme's set of permitted pivots, by exact rational comparison.",
}
NOTE["C26"] = "Every logged ordering is replayed step by step in the quotient graph machine of AmdAlg.tla (checked exhaustively on all graphs with up to 6 rows): degrees, merged rows, absorbed fronts and front sizes must be the machine's."
NOTE["C27"] = "Every logged permutation of COLAMD, SYMAMD and the analysis is replayed step by step in the machine of ColAlg.tla (checked exhaustively on all patterns up to 5x4 and 4x5): the column chosen must have least score, and the classes and mass eliminations must be the machine's."
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 lib/run.py %s --tier quick" % i, thorough_cmd="python3 lib/run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, level="model_checking",
            technique="TLA+ specification checked with TLC; scenarios (partly enumerated by TLC from the specification) replayed into the real library, every recorded trace judged by TLC against SlipTrace.tla",
            level_note=suites.PROPS[i].get("note") or NOTE.get(i) or "Every explored call is judged against the specification; inputs are sampled beyond the exhaustively enumerated small ones. Trusts TLC, the Java override of BigRat (cross-checked by MC_BigRat) and what the driver logs."))
    else: na.append(dict(property=i, reason="not built yet"))
json.dump(dict(version=1, setup_cmd="bash lib/setup.sh", checks=checks, not_applicable=na,
   hooks=dict(guard="SLIP_VERIF_HOOKS", enable="lib/build.sh compiles AMD/Source/*.c with -DSLIP_VERIF_HOOKS: amd_2 then tells the driver every pivot (used by C26 only)", source_commits=["20400cb"]),
   notes="One hook, in amd_2: otherwise the public interface exposes the state the specification talks about. Repairs of genuine defects are listed in known-findings.txt."), open(V + "/MANIFEST.json", "w"), indent=1)
