#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness's list of checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
ids = re.findall(r'"(C\d\d)"', re.search(r'IDS: &\[&str\] = &\[(.*?)\];', open(f"{root}/harness/src/props/mod.rs").read(), re.S).group(1))
TECH = {
 "C01": "generated requests, round-trip (serialise/parse/compare) and reparse metamorphic relation",
 "C02": "generated responses, round-trip and all status codes enumerated",
 "C03": "grammar-generated heads: every prefix, suffix and buffer type; seeded grammar faults",
 "C04": "grammar-mutation and raw-byte fuzzing with metered buffers, allocation and CPU bounds",
 "C05": "stateful fuzzing of frame and header-block histories, with step, allocation and CPU bounds",
 "C06": "raw and mutated WebSocket byte fuzzing with metered buffers and payload bounds",
 "C07": "generated chunk sequences against an independent chunk model; prefixes and seeded faults",
 "C08": "model-based histories of map operations against a reference ordered map",
 "C09": "all byte pairs plus generated names and values against a reference equality and hash",
 "C10": "generated numerals and near-numerals against a big-integer reference",
 "C11": "generated URLs and URL texts, print/parse round-trip",
 "C12": "URL texts generated from components (reference decomposition) and seeded faults",
 "C13": "generated text round-trip, reference percent-decoder, all two-character escapes",
 "C14": "differential against an independent RFC 7541 Huffman coder; all short byte strings",
 "C15": "stateful encoder/decoder histories, lock-step comparison of lists and tables",
 "C16": "reference HPACK encoder with random representation choices against the decoder; seeded faults",
 "C17": "model-based table histories against a reference dynamic table",
 "C18": "generated frames against an independent RFC 7540 byte layout, both directions",
 "C19": "generated well-formed frames with one seeded fault each, and the frame without it",
 "C20": "generated payloads and limits; output re-split by an independent frame reader",
 "C21": "generated header frames over one connection; independent reassembly and reference HPACK decoder",
 "C22": "generated settings and raw setting lists against a reference byte layout and interpreter",
 "C23": "all header fields enumerated / generated against an independent RFC 6455 codec, seeded faults",
 "C24": "generated frames, independent masking and layout, truncations and size limits",
 "C25": "generated messages and fragmentations, reassembly; seeded content and sequence faults",
 "C26": "all 65536 numbers and generated texts against a reference",
 "C27": "registries enumerated completely, generated unknown tokens",
 "C28": "model-based histories over several types against a reference map",
 "C29": "generated objects of every encoder; size against appended bytes with a pre-filled buffer",
 "C30": "adversarial field generation; the bytes read by an independent HTTP/1 head reader",
 "C31": "metamorphic: the same frame with and without padding and priority",
 "C32": "generated HEADERS frames against a reference mapping to requests and responses",
 "C33": "generated header maps with decoy headers and permutations against a reference reading",
 "C34": "model-based builder histories against a reference message",
 "C35": "all constants enumerated, generated names against a reference spelling",
 "C36": "model-based histories of setters and conversions against a reference message",
 "C38": "generated frames of every type against a wire model; flag bytes enumerated; stateful identifier and queue histories",
 "C39": "generated requests against the RFC 7540 rule",
 "C40": "bytes enumerated, generated byte strings against reference definitions",
 "C42": "model-based field histories: encoded sizes against what a reference HPACK table allows",
    "C43": "stateful generation: message streams arriving in arbitrary pieces, against the list of messages sent",
    "C44": "stateful generation: mixed HTTP/2 frame sequences on one connection, against the list of events sent",
    "C45": "stateful generation: WebSocket conversations arriving in arbitrary pieces, against the list of messages sent",
 "C41": "differential: the printed text against the bytes sent",
 "C37": "model-based builder histories and generated URL pairs against a reference",
}
SUBSET = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({
            "property": i,
            "quick_cmd": f"bash checks/check.sh {i} quick",
            "thorough_cmd": f"bash checks/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing: " + TECH[i],
            "level": "exploration",
            "level_note": "Generated-input search: decides the property on the generated cases only (counts, rule and samples in the evidence file); enumerated sub-checks are exhaustive over the stated finite domain. Failures are shrunk to a replay file.",
        })
    else:
        na.append({"property": i, "reason": "no check registered yet (work in progress)"})
m = {
 "version": 1,
 "setup_cmd": "bash checks/build.sh",
 "checks": checks,
 "not_applicable": na,
 "notes": "All checks are one Rust binary (harness/) with a path dependency on /repo; checks/check.sh rebuilds it from /repo's working tree. Replays: bash checks/replay.sh evidence/replays/<id>.replay. No hooks: everything is driven through the public API.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
