import json
LVL="Runtime monitoring: the verdict covers the executions produced (see the evidence file), not all inputs."
T={
"C01":"runtime monitoring: encode/decode histories checked against an independent message model, coverage-guided workload",
"C02":"runtime monitoring: decode/encode/decode histories of foreign encodings checked for preservation and byte-identical re-encoding",
"C03":"runtime monitoring: encoder output checked by an independent wire-format reader and reference encoder",
"C04":"runtime monitoring: decoder verdict and result checked against an independent decoder on valid, mutated and hostile bytes",
"C05":"runtime monitoring: stream histories (tails, offsets, chunkings) checked against the framing computed independently",
"C06":"runtime monitoring: every cut position of valid messages, error value checked by an oracle",
"C07":"runtime monitoring: panic/overflow/abort monitors, 2 MiB stack, executed-edge work meter (SanitizerCoverage) and CPU watchdog on hostile workloads",
"C08":"runtime monitoring: allocator event monitor (peak, live bytes) around each decode",
"C09":"runtime monitoring: constructor verdicts checked against a reference grammar, bounded-exhaustive plus coverage-guided texts",
"C10":"runtime monitoring: operation histories on paths checked against a list-of-elements model",
"C11":"runtime monitoring: signature parser and printer checked against a reference grammar, bounded-exhaustive plus coverage-guided texts",
"C12":"runtime monitoring: value constructors and type queries checked against a reference typing",
"C13":"runtime monitoring: encoder verdict checked against reference limits, workload at and around every limit",
"C14":"runtime monitoring: print/parse histories of match rules checked for identity",
"C15":"runtime monitoring: match rule parser checked against a reference parser, bounded-exhaustive plus coverage-guided texts",
"C16":"runtime monitoring: match verdicts checked against a reference matcher, near-miss workload",
"C17":"runtime monitoring: descriptor tables checked against a model (conservation, order, exactly-once)",
"C18":"runtime monitoring: every reply checked against a specified reply model",
"C19":"runtime monitoring: header construction and field-list conversion checked against a reference, single and multiple faults",
"C20":"runtime monitoring: operation histories on messages with all accessors compared with a shadow model after every step",
"C21":"runtime monitoring: result digests compared across orders, histories and threads; ThreadSanitizer",
"C22":"sanitizers: AddressSanitizer, MemorySanitizer, Miri (undefined behaviour, leaks), UTF-8 check of every text, heap monitor",
"C23":"runtime monitoring: single fault injection into valid messages, reported error checked against the injected fault",
"C24":"runtime monitoring: both encodings of a message compared byte by byte with the reference layout",
"C25":"runtime monitoring: constructed messages compared with a specified message model",
"C26":"runtime monitoring: algebraic laws of equality, order and hashing checked on item triples against structural comparison of models",
"C27":"runtime monitoring: every refusal's error value and text checked for truth against the refused input, multi-fault workload",
"C28":"runtime monitoring: executed-edge work meter (SanitizerCoverage) and allocator event monitor around each operation at two sizes, CPU watchdog on large items",
"C29":"runtime monitoring: results of each operation compared between processes built with and without checks and optimisation, a wasm32 (32-bit, non-Unix) instance and Miri interpreting a big-endian platform",
"C30":"runtime monitoring: system call monitor (seccomp traps) and environment/clock probes on the thread that executes the operations",
}
N={
"C07":"Work is judged in executed edges of the library (deterministic), stack use in builds at opt-level 2. ",
"C21":"Interleavings are those the scheduler produced on this run. ",
"C22":"Red-zone and interpreter checks see only executed code.  ",
"C29":"The big-endian platform is interpreted (a few hundred operations in the quick run). ",
"C30":"Reading the environment other than by getenv, and time stamp counters, are not seen. ",
"C13":"The limits of 64 and 128 MiB are checked at and around them, not at all sizes. ",
}
m={"version":1,
"setup_cmd":"./check.py setup",
"checks":[{"property":i,"quick_cmd":f"./check.py {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.py {i}","technique":t,"level":"exploration","level_note":N.get(i,"")+LVL} for i,t in T.items()],
"not_applicable":[],
"notes":"Every check builds harness/ (a path dependency on /repo, no hooks needed) and runs one monitor of it; see DESIGN.md. Defects found and repaired are in KNOWN_FINDINGS.txt."}
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
