"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based round-trip testing over generated documents and edit histories",
    "C02": "property-based round-trip and differential testing (JSON text, JSON object, binary)",
    "C03": "metamorphic property-based testing: equal documents from different histories, fixed points",
    "C04": "differential property-based testing against an independent reader and writer of the format",
    "C05": "model-based random sequences of partial reads against full decoding",
    "C06": "property-based testing of an independent validity oracle over types, values and ways in",
    "C07": "fault injection over all truncation points and mutated headers of generated documents",
    "C08": "model-based property testing of write/flush histories across codecs and readers",
    "C09": "stateful model-based testing of reader interleavings",
    "C10": "fault injection: truncation at every kind of cut position of generated files",
    "C11": "stateful model-based testing against a plain byte string",
    "C12": "property-based round-trip testing, with tarfile as independent reader",
    "C13": "property-based testing against a linear scan of the documents",
    "C14": "stateful model-based testing against a plain list",
    "C15": "property-based testing against str slicing and interval arithmetic",
    "C16": "stateful model-based testing against a plain list",
    "C17": "property-based testing of generated predicate trees against a naive evaluator",
    "C18": "stateful model-based testing of schema changes",
    "C19": "property-based testing against plain lists and an independent type merge",
    "C20": "property-based testing against a brute-force overlap oracle",
    "C21": "property-based testing against a validity predicate and a reference procedure",
    "C22": "property-based testing over generated graphs against reference traversals",
    "C23": "property-based testing against direct per-position mapping",
    "C24": "property-based testing: validity, exact recovery and a reference procedure",
    "C25": "property-based testing: export parsed back with an independent XML reader",
    "C26": "property-based testing over contents, node states and display settings",
    "C27": "differential stateful testing: original and decoded copy under the same operations",
    "C28": "stateful model-based testing of all access routes against plain dictionaries",
    "C29": "metamorphic testing: interleaved and threaded execution against isolated execution",
}
NOTE = ("Generated-input search with shrinking against an explicit oracle; no absence proof. Domains, oracles and limits are in "
        "DESIGN.md, what a run covered is in the evidence file.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "vp", "checks")) if f.startswith("c")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
