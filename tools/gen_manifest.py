#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based round trip over generated dictionary/target pairs (ASan+UBSan and debug builds)",
 "C02": "generated well-formed deltas vs independent RFC 3284 model",
 "C03": "metamorphic property test: same bytes, different chunkings",
 "C04": "structure-aware mutation fuzzing with reference-decoder oracle under ASan+UBSan",
 "C05": "generated deltas around the limits vs reference model",
 "C06": "fault injection into checksummed deltas vs reference model",
 "C07": "stateful property test: reused decoder vs fresh decoder",
 "C08": "generated encodes parsed by a strict independent decoder",
 "C09": "stateful property test: encoder histories vs fresh encoder",
 "C10": "generated encodes parsed by an independent JSON parser and applied",
 "C11": "randomised multi-threaded histories under ThreadSanitizer vs sequential oracle",
 "C12": "generated custom code tables vs independent RFC 3284 model",
 "C13": "generated command lines and files vs reference model, real executable",
 "C14": "generated command lines with injected I/O faults and corruption, real executable",
 "C15": "metamorphic property test: restriction on vs off, reference model",
 "C16": "generated deltas cut at every kind of position vs reference prefix model",
 "C17": "generated inputs with planted duplicates vs compression bounds",
 "C18": "differential property test over output sinks with an append-only monitor",
 "C19": "generated adversarial inputs with an instruction-count oracle",
 "C20": "stateful property test with every heap block accounted for and peak-memory bounds",
 "C21": "stateful property test: recording writer vs call-order model and reference decoder",
}
NOTE = {
 "C11": "Sampled schedules of real threads; ThreadSanitizer reports races independent of whether they corrupt data in the sampled run. Trusts TSan and the pthread model.",
 "C19": "Work is counted in executed control-flow edges and bytes moved by mem* calls, not time; bounds carry a safety factor over the measured maximum. Sampled adversarial inputs only.",
 "C13": "The real vcdiff executable is run on generated files and options in a scratch directory; sampled.",
 "C14": "The real vcdiff executable is run with injected faults (truncation, corruption, unreadable inputs, full or closed outputs) in a scratch directory; sampled.",
}
DEF = ("Sampled exploration of generated inputs against an explicit oracle, deterministic for a given seed; every failure is "
       "re-run in a fresh process and shrunk. No proof of absence. Trusts the reference model in /verif/harness, clang and its sanitizers.")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks build /repo's sources unmodified with their own CMake project (harness/). "
              "Defects found are repaired in 'fix:' commits, listed in known_findings.txt."}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                        "technique": TECH[p], "level": "exploration", "level_note": NOTE.get(p, DEF)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
