"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
T = {
 "C01": "stateful model-based PBT over branching version histories",
 "C02": "stateful model-based PBT against a VecDeque model",
 "C03": "stateful model-based PBT against a VecDeque model",
 "C04": "stateful model-based PBT against a growable-array model",
 "C05": "stateful model-based PBT against a map model, generated hash functions",
 "C06": "stateful model-based PBT against a sorted-map model",
 "C07": "PBT of iterator step sequences against a double-ended reference sequence",
 "C08": "PBT of range bounds and step sequences against a filtered sorted model",
 "C09": "metamorphic PBT: the same content built by different histories and configurations",
 "C10": "differential PBT against set algebra on BTreeSet",
 "C11": "metamorphic PBT: in-place form against persistent form and single updates",
 "C12": "round-trip PBT and mutation fuzzing of serialized input",
 "C13": "differential PBT: parallel against sequential iteration under generated splittings",
 "C14": "stateful PBT with instrumented key comparisons",
 "C15": "stateful PBT with an instrumented pointer kind (operation counts against generous bounds)",
 "C16": "stateful PBT with tracked elements against the set of elements reachable in the models",
 "C17": "PBT with bounded thread stacks, large sizes and generated drop schedules",
 "C18": "generated schedules over an instrumented pointer kind, and real threads, against sequential models",
 "C19": "fault injection: panics enumerated over every callback of generated operations",
 "C20": "stateful PBT of ptr_eq against content equality",
 "C21": "PBT over configurations and generated source iterators with arbitrary size hints",
 "C22": "metamorphic PBT: live nodes after a history against a fresh build of the same content",
 "C23": "stateful model-based PBT in separately built feature configurations",
 "C24": "fault injection: panics at callbacks of in-place updates, against the model before the step",
 "C25": "stateful PBT counting user callbacks and pointer operations of comparisons",
 "C26": "stateful PBT counting reference increments and allocations of in-place updates",
}
NOTE = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    have = os.path.exists(f"/verif/harness/src/bin/{i.lower()}.rs") 
    if i in T and have:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=T[i], level="exploration",
            level_note=NOTE.get(i, "Randomly generated cases from a fixed seed against an explicit oracle; a pass means no counterexample among the cases counted in the evidence.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash check.sh --build", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
