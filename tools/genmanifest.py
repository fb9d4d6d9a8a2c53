import json
T={
"C01":"bounded exhaustive enumeration of messages on the real encoder and decoder against a reference marshaller model",
"C02":"bounded exhaustive enumeration of byte strings (non-canonical forms, corruptions), fixed-point check on the real code",
"C03":"bounded exhaustive enumeration of messages, byte-for-byte conformance with a step-recorded reference marshaller",
"C04":"exhaustive enumeration of hostile inputs, corruptions and short words on the real parsers; panics, aborts, hangs and overruns are violations",
"C05":"exhaustive corruption and word enumeration, conformance of the real decoder with a reference unmarshaller state machine",
"C06":"explicit-state exploration of receiver states: all cut points, suffixes and chunkings of streams on the real decoder",
"C07":"exhaustive descriptor and index sequences against a descriptor-table model",
"C08":"exhaustive header-field sequences against a field-table model",
"C09":"exhaustive combinations of values around every limit, on both sides, against a counter model",
"C10":"exhaustive grammar words, byte substitutions and type trees against a pushdown grammar model",
"C11":"W-method style conformance of the name automata: state cover x all bytes x distinguishing suffixes, all short words",
"C12":"conformance of the path automaton (state cover x all bytes x suffixes); all append sequences and path pairs to a depth",
"C13":"exhaustive type trees, element lists and add/split sequences against a structural typing model",
"C14":"exhaustive request messages x reply operations against a reply table model",
"C15":"exhaustive argument words and rule lists, print/parse identity and an independent tokenizer automaton",
"C16":"exhaustive rule-text words and single-character edits, conformance with a reference tokenizer automaton",
"C17":"full product of rules and messages and all rule lists to a depth against a set-theoretic matching model",
"C18":"stateless model checking: all operation sequences to a depth in fresh and long-lived processes, all schedules of two concurrent calls with two preemptions at any basic block, memory access or allocator call of the crate",
"C19":"exhaustive builder arguments, accessor subsets and mutation sequences against a record model",
"C21":"exhaustive single defects at every place against the defect model; every error of any enumerated input checked against the input",
"C22":"all pairs and triples of finite domains against equality of the model contents",
"C23":"exhaustive products of operations, shapes, sizes and corruptions on the real crate with counted steps and allocations, against proportionality bounds",
"C24":"exhaustive products of operations, shapes and ever other arguments, and of corrupted bytes, on the real crate on a thread whose system calls, clock, environment and allocation balance are watched",
"C20":"exhaustive messages in both endiannesses, layout-directed byte swap of the real encodings",
}
NOTE="Complete within the bounds listed per family in the evidence file (every index is run on the real crate, nothing sampled); nothing is claimed beyond them. Trusts the reference model in mc/src/model.rs and the explorer; the model is validated against the crate on every explored trace."
extra={
"C23":" Cost is counted in basic blocks of the crate and bytes asked of the allocator; what std does inside one of its calls is only seen as processor time of inputs of about 100000 elements.",
"C18":" Schedules: two threads, at most two preemptions, placed at any basic block, non-stack memory access or allocator call of the crate (sancov-instrumented build); sequentially consistent memory only.",
"C09":" Strings longer than 4 GiB are not explored.",
}
m={"version":1,
"setup_cmd":"./run.sh build",
"checks":[{"property":i,"quick_cmd":f"VERIF_TIER=quick ./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":"model_checking","level_note":NOTE+extra.get(i,"")} for i,t in sorted(T.items())],
"not_applicable":[],
"notes":"No hooks in /repo: only the public API is driven. Repairs are the 'fix:' commits listed in known-findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
