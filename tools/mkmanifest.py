#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ("TLA+ specification of the server model-checked with TLC; behaviours of the model replayed into the real "
        "server and recorded histories of the real server judged by TLC against the specification")
NOTE = ("Exhaustive for the design within the bounds named in the evidence; for the code, every replayed behaviour and "
        "every recorded history of the run was judged by the specification. Trusts TLC, the driver that writes "
        "requests and reads responses, and Go's fake clock (testing/synctest).")
claims = {p: ("model_checking", CORE, NOTE) for p in
          "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C25".split()}
LIB = ("TLA+ specification of the library's functions; TLC enumerates the structural cases, the driver runs them in the real "
       "library with arbitrary texts, and TLC judges every observation against the specification")
LNOTE = ("Exhaustive over the structural cases named in the evidence, sampled over the texts that fill them. Trusts TLC and the "
         "driver's own decoding of responses, tokens and challenges.")
for p in "C22 C23 C24 C27 C28".split():
    claims[p] = ("model_checking", LIB, LNOTE)
for p in "C13 C15 C19 C21".split():
    claims[p] = ("model_checking", CORE + "; and: " + LIB, NOTE)
claims["C29"] = ("model_checking",
    "TLA+ specification of the library's functions; TLC enumerates the structural cases, the driver runs batches of them at the same time "
    "(race detector on, one client shared), and TLC judges every observation, and that arguments and results stay as they were, against "
    "the specification",
    "Cases and schedules are sampled; every observation of the run was judged. Trusts TLC, the driver and Go's race detector.")
claims["C17"] = ("model_checking",
    "TLC checks the lock design (Conc.tla) and lists all schedules with at most two preemptions; overlapping requests run in the real "
    "server under these, under drawn schedules (switches at locks, reads, randomness, writes) and freely under the race detector; TLC searches the orders of every recorded overlap for one that the TLA+ specification of the server admits",
    "Every recorded overlap was judged; schedules and histories are sampled. A history that no order explains counts only if the code "
    "itself gives the answers to no order of the same requests either. Trusts TLC, the scheduler and Go's race detector.")
claims["C26"] = ("model_checking",
    "the suite is run against the real server in all combinations of its flags and rerun with single answers doctored; TLC steps the TLA+ "
    "specification of the server along the exchanges and decides which doctored answers do not conform, so that the suite has to fail",
    "All 256 flag combinations; doctored answers are exhaustive over the listed kinds for one configuration and sampled for others. Aspects "
    "the suite does not prescribe are listed in Suite.tla. Trusts TLC and the doctoring server.")
OVER = "; and: histories with overlapping requests under drawn schedules, judged by TLC"
for p in "C01 C02 C04 C11 C15".split():
    claims[p] = (claims[p][0], claims[p][1] + OVER, claims[p][2])
na = {}
EXTRA = os.path.join(HERE, "tools", "claims.json")
if os.path.exists(EXTRA):
    for p, c in json.load(open(EXTRA)).items():
        claims[p] = tuple(c)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    if p not in claims:
        na[p] = "check not built yet"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe /repo through its exported API", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "level": claims[p][0], "technique": claims[p][1],
                 "level_note": claims[p][2]} for p in props if p in claims],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
