#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
HIST = "explicit-state model checking of the implementation: breadth-first exploration of all operation histories against a reference model"
INP = "bounded exhaustive exploration of the implementation: every input of a finite abstract universe, compared with a reference model"
BND = "Exhaustive within the stated bounds on the real code; beyond them it relies on the code treating elements only through the traits it is generic over. Trusts the reference model, rustc and std."
T = {
 'C01': ("model_checking", INP + ", plus in-place histories explored as a state graph", BND),
 'C02': ("exploration", INP, BND),
 'C03': ("model_checking", HIST, BND),
 'C04': ("exploration", INP + " (every order pattern of sequences up to a length)", BND),
 'C05': ("model_checking", HIST, BND),
 'C06': ("exploration", INP + " x every decision pattern of the callback", BND),
 'C07': ("exploration", INP + " x every decision pattern of the callback", BND),
 'C08': ("model_checking", HIST + "; all pairs for the binary operations", BND),
 'C09': ("exploration", INP, BND),
 'C10': ("model_checking", HIST + " (closed state graph)", BND),
 'C11': ("exploration", INP + " x answer patterns of the callback", BND),
 'C12': ("exploration", INP, BND),
 'C13': ("exploration", INP + " x predicates", BND),
 'C14': ("model_checking", HIST + ", over several handles that share nodes", BND),
 'C15': ("exploration", INP + ": every document up to a length, in every order, with every duplicate pattern", BND),
 'C16': ("exploration", INP + ", archived and read back", BND),
 'C17': ("fault_enumeration", "exhaustive fault injection: every byte set to every value, every truncation, every word substituted, in buffers followed by inaccessible pages", "Exhaustive for the stated single (thorough: double) faults on the stated archives. A read past the buffer faults; a read before it does not unless it leaves the guard page distance."),
 'C18': ("model_checking", HIST + "; every flushed prefix of the file is read back", BND),
 'C19': ("model_checking", "stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound, lock and value-clone operations as scheduling points; plus exhaustive sequential comparison", "All schedules of the stated programs up to the preemption bound, under sequential consistency; a second build runs the enumerated schedules under ThreadSanitizer (standard library included), which reports every pair of accesses that the locks do not order, whatever the schedule."),
 'C21': ("exploration", INP.replace("compared with a reference model", "with every comparison, clone and allocation counted and compared with a bound in the sizes of operands and result"), "Exhaustive within the stated bounds on the real code. Counts what the element type and the allocator can count, not time. The bounds have room, so a cost may grow by a small constant factor unnoticed."),
 'C22': ("exploration", "exhaustive enumeration of the configuration space: every selection of features (and build profile) is built and run on every input of a bounded universe, and all results are compared with those of the full configuration", "Exhaustive over the selections of features (quick: `inplace`, which gates nothing, in every other one; thorough: all, in debug and release builds) and over the stated inputs. The full configuration itself is compared with reference models by the other checks."),
 'C20': ("fault_enumeration", "exhaustive fault injection: a panic injected at every callback of every operation on every input of a bounded universe, with ownership tracked per element", "Exhaustive for one injected panic per operation on the stated inputs. Element types observe double drop, use after drop and leaks; raw memory errors that do not touch an element are seen only if they crash."),
}
checks = []
na = []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    b = p.lower() + '.rs'
    if not any(os.path.exists(f'{d}/src/bin/{b}') for d in ('mc', 'mc-sched')):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    lv, t, n = T[p]
    checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": t, "level": lv, "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public API of /repo's working tree (C19 swaps the parking_lot dependency for a scheduler shim in its own workspace)."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
