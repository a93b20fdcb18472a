#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after adding a check)."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
EX = "exhaustive enumeration of a bounded input space executed on the real code, compared case by case with "
T = {
 "C01": EX + "exact arithmetic in explicit real number fields",
 "C02": EX + "the exact order in explicit real number fields",
 "C03": EX + "exact rounding in explicit real number fields",
 "C04": EX + "exact powers and roots of number field elements (divisibility and interval discrimination of conjugates)",
 "C05": EX + "exact comparison with powers of two",
 "C06": EX + "minimal polynomials computed by linear algebra in number fields and own root isolation",
 "C07": "exhaustive exploration of all operation sequences up to a depth on the real library in lockstep with an exact number field model",
 "C08": EX + "exact rational interval semantics",
 "C09": EX + "independent rigorous enclosures",
 "C11": EX + "schoolbook polynomial algebra",
 "C12": EX + "the coefficient list (incl. all iterator interleavings)",
 "C13": EX + "defining identities and own Euclidean division",
 "C14": EX + "own Euclid, Bezout identities and Sylvester determinants",
 "C15": EX + "own root counting",
 "C16": EX + "product identity and known multiplicities",
 "C17": EX + "an independent irreducibility decision procedure and factorisations known by construction",
 "C18": "exhaustive enumeration of generator answer sequences up to a depth (plus stuck generators) driving the real factorisation through a scripted generator, compared with the known factors",
 "C19": EX + "integer arithmetic modulo n",
 "C20": EX + "definitions over exact integers",
 "C21": EX + "trial division (sieve)",
}
extra = {}
if os.path.exists("tools/manifest_extra.json"):
    extra = json.load(open("tools/manifest_extra.json"))
T.update(extra.get("techniques", {}))
NOTE = ("Every element of the listed finite spaces is executed on the compiled library; verdict by an independent exact oracle. "
        "Nothing is claimed outside the bounds printed in the evidence; trusts num-bigint/num-rational arithmetic and rustc.")
NOTES = extra.get("notes", {})
checks, na = [], []
for i in ids:
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": "model checking: " + T[i], "level": "model_checking", "level_note": NOTES.get(i, NOTE),
                       "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": extra.get("na", {}).get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "chmod +x check.sh && cargo --version", "checks": checks, "not_applicable": na}
if extra.get("hooks"):
    m["hooks"] = extra["hooks"]
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
