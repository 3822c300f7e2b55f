#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property whose harness exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "G01": "property-based differential testing against GMP integers, histories of accelerated bases",
 "G02": "property-based round-trip and differential testing against GMP, malformed-input generation",
 "G03": "property-based testing with entropy fault injection and statistical invariants over draws",
 "H01": "property-based differential testing against an independent encoder over OpenSSL SHA-256",
 "H02": "stateful property-based testing of read histories against a reference sequence",
 "E01": "property-based differential testing against a GMP ElGamal model",
 "E02": "property-based round-trip, differential and tamper testing against a reference scheme",
 "C01": "property-based testing: honest and mutated proofs against an independent prover/verifier",
 "C02": "property-based testing: honest and mutated proofs against an independent prover/verifier",
 "B01": "generated elections and ballots, independent decryption oracle",
 "B02": "generated elections and ballots, independent whole-ballot verifier",
 "B03": "mutation of genuine ballots, verdict compared with an independent verifier",
 "B04": "stateful model-based testing of device histories against a reference hash chain",
 "B05": "property-based testing: reference nonce derivation, freshness and reuse invariants",
 "B06": "property-based round-trip testing of compress/expand against full encryption",
 "B07": "property-based testing of classification and refusal against reference rules",
 "S01": "property-based round-trip testing over formats with canonical content comparison",
 "S02": "property-based round-trip testing over formats with canonical content comparison",
 "S03": "property-based search of published documents for secrets known to the generator",
 "S04": "structure-aware mutation fuzzing of all parsers under AddressSanitizer",
 "M01": "property-based testing of validation against an independent rule checker",
 "M02": "property-based differential testing of hashes against a reference composition",
 "M03": "property-based testing of derived contests and placeholders against a reference",
 "X01": "property-based differential testing of contexts against reference hashes",
 "V01": "stateful property-based testing of copy/assign/move/destroy under AddressSanitizer",
 "W01": "property-based testing of ends of life with released memory searched for the generated secrets",
 "K01": "stateful model-based testing of buffer histories with algebraic oracle",
 "L01": "property-based testing with the captured trace-level log searched for the generated secrets, and a metamorphic relation between ballots with other marks",
 "K02": "generated concurrent histories under ThreadSanitizer, compared with sequential results",
 "T01": "generated concurrent histories under ThreadSanitizer against sequence and once-only models",
 "A01": "property-based differential testing of the C API against the C++ API under AddressSanitizer",
 "A02": "stateful model-based testing against a sequence model under AddressSanitizer",
}
NOTE = "Generated-input search against an explicit oracle; not exhaustive: a case the generators never build can be missed."
man = {"version": 1, "setup_cmd": "python3 run.py --build-all",
       "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged "
                 "and intercept entropy, time and file calls with linker --wrap", "source_commits": []},
       "checks": [], "not_applicable": []}
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists(V + "/harness/props/%s.cpp" % p):
        man["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p,
                              "thorough_cmd": "python3 run.py %s thorough" % p,
                              "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    else:
        man["not_applicable"].append({"property": p, "reason": "check not built yet"})
man["notes"] = "run.py builds the library and one harness from /repo's working tree; see DESIGN.md."
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not claimed")
