import json
lvl="exploration"
T={
"C01":"crash and restart at every storage call, whole-history check against a reference map",
"C02":"storage error and disk-full injection, all-or-nothing check against the log",
"C03":"seeded interleavings of concurrent clients, linearizability check against the log order",
"C04":"seeded interleavings of racing compare-and-swaps, check of the arguments the condition saw",
"C05":"structural check of every appended tree under faults, crashes and interleavings",
"C06":"byte comparison of every appended block with a model of the reference algorithm under faults and interleavings",
"C07":"attribution of every appended block to one operation under races, faults and crashes",
"C08":"seeded interleavings of open traversals with writers, check against one version",
"C09":"read-error and delay injection into traversals, completeness-or-error and liveness check",
"C10":"colliding sub bees in concurrent histories, check against the full-key map",
"C11":"simulated network with cuts, partitions, delays and restarts, refinement and convergence check",
"C12":"stored-block corruption, correct-or-error and bounded-time check",
"C13":"cancellation at every await point, all-or-nothing and progress check",
"C14":"seeded interleavings with faults and cancellations, progress within a step budget once faults stop",
"C15":"C entry points on the simulated runtime with faults, exactly-once callback check",
"C16":"exported UniFFI functions polled by the simulator with faults and dropped calls, checked as the Rust interface",
"C19":"height, print and debug form among concurrent writers, faults and crashes, check against the versions current during the call",
"C20":"any history of the other properties run to its end, check that nothing still holds the core",
"C21":"any history of the other properties, check every block asked of storage against the ways through the model tree",
"C22":"any history of the other properties on slow storage, count of polls that an operation asked for itself while nothing it waits for was ready",
}
m={"version":1,"setup_cmd":"./check.sh build",
"checks":[{"property":p,"quick_cmd":f"./check.sh check --property {p} --tier quick","thorough_cmd":f"./check.sh check --property {p} --tier thorough",
 "technique":"deterministic simulation with fault injection: "+t,"level":lvl,
 "level_note":"seeded search over schedules, delays and faults; real hyperbee code over simulated storage, network and scheduler; a violation is minimised and replays exactly"} for p,t in T.items()],
"not_applicable":[
 {"property":"C17","reason":"building a configuration is a pure function of its arguments: no schedule, clock, I/O, fault or history for a simulation to control (its consequences for traversals are part of C08)"},
 {"property":"C18","reason":"comparing an infinite bound with a byte string is a pure function: no schedule, clock, I/O, fault or history for a simulation to control (its consequences for traversals are part of C08)"}],
"notes":"No hooks in /repo: the seams are the crates hyperbee depends on (sim/stubs). Replay a violation with ./check.sh replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
