#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = ("generated annotated programs are compiled with the real macro and run on fault tapes; an online event monitor "
        "is compared event by event with a hand-hooked reference")
DNOTE = ("Systematic over every syntactic position (depth 1 complete, depth 2 sampled, seeded), plus random nested programs and "
         "a hand-written catalogue; every program is run without fault, with each single fault and with random faults. "
         "Trusts rustc, the reference generator in hv/model.py and the harness runtime. ")
T = {
    "C01": (DIFF, DNOTE), "C02": (DIFF, DNOTE),
    "C03": (DIFF + "; identity hooks, the reference is the program without any annotation", DNOTE),
    "C04": (DIFF, DNOTE), "C05": (DIFF, DNOTE), "C06": (DIFF, DNOTE), "C07": (DIFF, DNOTE),
    "C08": (DIFF + "; positions come from the writer of the source text", DNOTE),
    "C09": (DIFF, DNOTE), "C10": (DIFF, DNOTE), "C11": (DIFF, DNOTE),
    "C15": (DIFF + "; macros that record the tokens they received", DNOTE),
    "C16": (DIFF + "; consume-question build", DNOTE),
}
T.update(json.load(open(os.path.join(V, "tools", "engines.json"))))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "runtime monitoring: " + T[i][0],
        "level": "exploration",
        "level_note": T[i][1].strip(),
    } for i in ids if i in T],
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in T],
    "notes": "No hooks in /repo: all observation happens in generated programs and in the compiler's output. "
             "known-findings.json lists genuine defects, all repaired by fix: commits.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
