DEFAULT = "property-based testing against a reference model (own choice-stream engine with shrinking) plus libFuzzer over the same generators, under AddressSanitizer"
DEFNOTE = "Generated-input search: shows no violation among the cases run (counts in the evidence), not absence."
SCHED = "stateful property-based testing under a deterministic scheduler that draws every interleaving, fault and death from the choice stream, with shrinking; oracle: invariants over the history and linearizability against a reference model"
PBT = "property-based testing against a reference model over generated histories, inputs and injected faults (own choice-stream engine with shrinking), each case in a process of its own where the code changes process state"
for i in ("C12", "C14", "C15", "C17", "C28", "C40"): TECH[i] = SCHED
for i in ("C26", "C27", "C30", "C32", "C33", "C34"): TECH[i] = PBT
