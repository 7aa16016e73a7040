#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below for every property that has a check in props.py."""
import json, os
import props
T = {
 "C01": ("ASan+UBSan and valgrind over generated API histories", "Every case ran under sanitizers and memcheck with all reports fatal, plus heap balance by repetition. Sampled histories; red zones can miss far out-of-bounds accesses that land in other live objects."),
 "C02": ("online monitor: status against an independent classification of spoilt data", "Sampled data and call sequences; the expected status is known by construction of the data."),
 "C03": ("state digests around refused calls and a twin without them", "Compares the complete state (automata, weights, include bits, both generators, parameters); sampled histories."),
 "C04": ("online monitor: generated documents and argument lists against an independent domain table", "Sampled documents; keys given twice, booleans for integers and keys of the other estimator kind are not judged."),
 "C05": ("digest comparison of the same histories across processes with different heap fill, environment and neighbours", "Sampled histories and process environments; same binary, same machine."),
 "C06": ("paired executions differing in one setting, full state comparison", "Sampled configurations and histories, all pairs of settings drawn at random."),
 "C07": ("ThreadSanitizer with modelled OpenMP fork/join and injected delays, results compared with sequential runs", "Sees races on executed code in observed schedules; libgomp's fork/join are modelled by annotations in an interposed GOMP_parallel."),
 "C08": ("reference evaluation of cloned automata", "Every answer recomputed from the automata; sampled models and inputs, injected models included."),
 "C09": ("state digests around queries and a query-free twin", "Sampled interleavings of queries and training."),
 "C10": ("invariant monitor on the complete state after each operation", "All automata, weights and include bits are examined; sampled saturating histories."),
 "C11": ("transition monitor: legality relation on single training steps", "Each step checked exactly except for the random shares, whose mean is tested over many automata at 6 sigma or more."),
 "C12": ("transition monitor: legality relation and exact feedback counts on single training steps", "Counts are exact where the model holds tags that reveal them; means at 6 sigma or more."),
 "C13": ("save/load at random cuts against the uninterrupted twin, full state comparison", "Sampled configurations and cuts; truncations of documents at sampled lengths."),
 "C14": ("state digests of all live estimators and replay of each one's own history", "Sampled trees of clones and moves."),
 "C15": ("paired executions: splits against one fit, refit against fresh", "Sampled splits, shapes and pasts."),
 "C16": ("monitored learning runs with accuracy thresholds", "Thresholds leave a wide margin to measured accuracies of the unchanged tree; a fixed set of tasks, sampled seeds."),
 "C17": ("statistical monitors of feedback frequencies, 6.5 sigma bounds", "False alarm probability below 1e-9 per test; detects biases above the reported resolution only."),
 "C18": ("operation sequences against plain arrays, also under ASan+UBSan", "Sampled sizes, types and operations."),
 "C19": ("generator operation sequences against a reference MT19937 and each other, uniformity bounds", "Sampled seeds and positions including buffer boundaries."),
 "C20": ("presentation counters encoded in automata and weights", "Exact counts per epoch over sampled data set sizes."),
 "C21": ("paired executions of the same training call in different forms, and capacity monitors", "All twelve forms; sampled configurations, data and label counts."),
 "C22": ("all pairs of pools of states against an independent complete comparison", "Sampled states and places of difference."),
}
checks, na = [], []
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
for i in ids:
    if i not in props.PROPS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the public state objects (clone_state, constructors from state) expose all that is monitored."},
          open("MANIFEST.json", "w"), indent=1)
