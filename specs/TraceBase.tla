----------------------------- MODULE TraceBase ------------------------------
(* Common frame of the trace specifications. The trace file holds one case per     *)
(* line: its abstract inputs and the events recorded from the implementation.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP
\* names of the clauses that do not hold
Failed(clauses) == {c[1] : c \in {x \in clauses : ~x[2]}}
Report(id, pos, failed) == IF failed = {} THEN TRUE
                           ELSE PrintT("BAD " \o ToJson([id |-> id, pos |-> pos, failed |-> failed]))
\* an event outside the domain of the property: nothing is claimed, and it is counted
Skip(id) == IF PrintT("SKIP " \o ToString(id)) THEN {} ELSE {}
=============================================================================
