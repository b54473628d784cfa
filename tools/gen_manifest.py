#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Runtime monitoring of the real library, rebuilt from /repo with edge-coverage instrumentation: an online oracle "
        "compares every observed result with an independent model of the generated input")
TECH = {
 "C01": "runtime monitor: token-by-token round-trip oracle on generated, mutated, random and real-world token streams",
 "C02": "runtime monitor: location oracle over streams with pairwise distinct spans",
 "C03": "runtime monitor: acceptance oracle on grammar-generated and real-world items",
 "C12": "runtime monitor: iterator-position checker over streams of consecutive items",
 "C16": "runtime monitor: model-based online checker over operation histories",
 "C17": "runtime monitor: model-based online checker over error-combination histories",
 "C18": "runtime monitor: outcome-digest comparison across histories, threads and processes",
 "C19": "sanitizers (AddressSanitizer/LeakSanitizer, Miri) plus a counting-allocator leak monitor",
 "C20": "runtime monitor: instrumentation counting executed control-flow edges, with step and allocation bounds",
 "C21": "runtime monitor: clone/Debug comparison oracle under edit histories",
 "C23": "runtime monitor: instrumented proc macro inside rustc, with an offline checker over its log and the compiler's JSON diagnostics",
 "C24": "fault injection: one defect per well-formed declaration, with a refusal oracle",
}
NA = {}
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(
        property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique=TECH.get(i, "runtime monitor: model-based oracle on the parsed values of grammar-generated declarations"),
        level="exploration",
        level_note="Held on every execution observed (counts in the evidence file); inputs are sampled, not enumerated. "
                   "Trusts the harness's grammar model, proc_macro2/quote and the compiler."))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="Every check builds the harness and the instrumented library from /repo itself; no hooks in /repo are needed because all fields of the library's types are public."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
