#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py > MANIFEST.json); claims what the harness implements
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
T = {
 "C01": "structure-aware fuzzing of public call sequences on four builds (proptest), no-panic/no-hang/no-abort oracle",
 "C02": "stateful model-based testing of API call histories against a fresh decoder",
 "C03": "property-based testing: generated frames, invariant buffer size = info()",
 "C04": "property-based testing against a real-valued inverse DCT reference model",
 "C05": "metamorphic property-based testing: many encodings of the same coefficients",
 "C06": "metamorphic property-based testing: random progressive scan scripts vs sequential coding",
 "C07": "differential property-based testing: cut scan scripts vs sequential coding of the received coefficients",
 "C08": "property-based testing against an exact upsampling reference model",
 "C09": "property-based testing against a decision-table model",
 "C10": "property-based testing against the colour equations",
 "C11": "round-trip property-based testing with an independent lossless encoder",
 "C12": "stateful property-based testing against a size-selection model",
 "C13": "property-based testing against N-point inverse DCT reference model",
 "C14": "property-based testing around the exact limit",
 "C15": "metamorphic property-based testing over generated reader schedules",
 "C16": "fault injection property-based testing: cut and error positions",
 "C17": "property-based testing against a reassembly model",
 "C18": "round-trip and metamorphic property-based testing of metadata segments",
 "C19": "metamorphic property-based testing: decode with and without read_info",
 "C20": "differential fuzzing of four feature configurations",
 "C21": "property-based testing over generated thread-pool set-ups and yielding readers, differential oracle, deadlock watchdog",
 "C22": "fuzzing under AddressSanitizer with exact-size heap buffers",
 "C23": "property-based testing: generated streams of each unsupported feature",
 "C24": "rule-violation property-based testing: one generated syntax violation per stream",
 "C25": "metamorphic property-based testing: omitted standard tables",
 "C26": "metamorphic property-based testing: decorated streams",
 "C27": "differential property-based testing against an exact fixed-point model",
 "C28": "property-based testing under a counting allocator: peak heap bound, leak and thread invariants",
}
NOTE = "random search over the generated input space with an explicit oracle and shrinking; no proof of absence. Trusts the harness's own encoder and reference models."
src = "".join(open(f"{here}/harness/src/checks/{f}").read() for f in os.listdir(here + "/harness/src/checks"))
have = set(re.findall(r'id: "(C\d\d)"', src))
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
   "evidence_file": f"evidence/{i}.json",
   "technique": T[i],
   "level": "exploration",
   "level_note": NOTE,
 } for i in props if i in have],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in props if i not in have],
}
print(json.dumps(m, indent=1))
