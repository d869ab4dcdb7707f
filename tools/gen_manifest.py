#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run in /verif)."""
import json, os

MC = ("Exhaustive within the stated bounds: every choice of every scenario is executed on the real "
      "code and compared with an independent reference model. Trusts the reference model and that "
      "small shapes are representative of larger ones.")
# id: (technique, level, note)
CHECKS = {
 "C01": ("stateless model checking of the real code: exhaustive enumeration of shapes, stores and values against a reference tree", "model_checking", MC),
 "C02": ("stateless model checking: exhaustive constructor x store x size product against a reference tree", "model_checking", MC),
 "C03": ("stateless model checking: every leaf of every small shape against reference proofs and verifier", "model_checking", MC),
 "C04": ("stateless model checking: every tampering step (singles and pairs) of every proof of small shapes against a reference verifier", "model_checking", MC),
 "C05": ("stateless model checking: every (size, discarded rows, leaf, store) against the full proof", "model_checking", MC),
 "C06": ("stateless model checking: every composition shape, constructor and offset permutation against a reference composition", "model_checking", MC),
 "C07": ("stateless model checking: every create/exit/reopen history up to a depth, in separate processes", "model_checking", MC),
 "C08": ("stateless model checking: every compact/refuse/reinit/reopen history up to a depth against reference rows and file bytes", "model_checking", MC),
 "C09": ("stateless model checking: every read range x configuration x reader behaviour against an availability model", "model_checking", MC),
 "C10": ("stateless model checking: every operation sequence up to a depth on each store against an array model", "model_checking", MC),
 "C11": ("stateless model checking under a controlled scheduler: all schedules up to a preemption bound of the real parallel build", "model_checking",
         "All interleavings at task and store-operation granularity up to the stated preemption bound and task counts; the real rayon runs on real threads of which one runs at a time, at the choice of the explorer; sequentially consistent memory is assumed."),
 "C12": ("stateless model checking: every malformed size, length and error position up to a bound", "model_checking", MC),
 "C13": ("stateless model checking: exhaustive enumeration of arities, sizes and lengths against row sums", "model_checking", MC),
 "C14": ("stateless model checking: every split tree and consumption order of the parallel producer", "model_checking", MC),
 "C15": ("stateless model checking: exhaustive small value domains with a recording hasher against a byte stream specification", "model_checking", MC),
 "C16": ("fault enumeration model checking: every system call of every operation x every fault kind on the real code", "fault_enumeration",
         "Every single fault at every intercepted call of the listed operations is injected; faults are injected at the libc boundary."),
 "C17": ("stateless model checking: every interleaved operation sequence over several named stores up to a depth", "model_checking", MC),
 "C18": ("crash point enumeration: the process is stopped at every write/metadata call boundary of every history", "fault_enumeration",
         "Process stop (not power loss): every boundary between file system calls, and torn writes at element granularity."),
 "C19": ("stateless model checking under a controlled scheduler: all schedules of concurrent readers up to a preemption bound, points at their I/O calls", "model_checking",
         "All interleavings at the granularity of I/O calls and reader callbacks up to the preemption bound; sequentially consistent memory is assumed."),
 "C20": ("stateless model checking: every configuration x every way of deriving, copying and serializing it, and the trees opened under the results", "model_checking", MC),
 "C21": ("stateless model checking: every operation sequence up to a depth on every store and constructor, with an audit of descriptors, mappings and files after the last drop", "model_checking", MC),
 "C22": ("crash enumeration: a power failure after every operation of every sequence up to a depth, with the calls that make data durable interposed", "fault_enumeration",
         "Everything that was not covered by a successful fsync, fdatasync or msync is lost; page-wise mixtures lie between that and the written contents, and an element not written since the sync is the same in both. The directory entry of a new file is taken as durable."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
def built(i):
    c = {"C11": "sys", "C19": "sys", "C16": "sys", "C18": "sys", "C22": "sys"}.get(i, "mc")
    return os.path.exists(os.path.join(here, c, "src/bin", i.lower() + ".rs"))
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for i in props:
    if i in CHECKS and built(i):
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
