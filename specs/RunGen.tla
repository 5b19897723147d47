-------------------------------- MODULE RunGen ---------------------------------
(* All courses of a run, step by step: what is asked for, and how each phase ends.   *)
EXTENDS Run, TLC, Json
CONSTANT EMIT
VARIABLES c, r, so, mo
vars == <<c, r, so, mo>>
Init == /\ c \in [starter : BOOLEAN, output : BOOLEAN, procs : 1..2, implicit : BOOLEAN, system : BOOLEAN, hist : BOOLEAN, surface : BOOLEAN, vtu : BOOLEAN, vol : BOOLEAN,
                  walls : {{}, {1}, {1, 2}}, others : {{}, {3}}]
        /\ (~c.output => ~c.surface /\ ~c.vtu) /\ (~c.implicit => ~c.system)
        /\ r = Begin(c) /\ so = "none" /\ mo = "none"
Starter == r.phase = "starter" /\ \E o \in Outcomes : so' = o /\ r' = StarterEnds(c, r, o) /\ UNCHANGED <<c, mo>>
Main == r.phase = "main" /\ \E o \in Outcomes : mo' = o /\ r' = MainEnds(c, r, o) /\ UNCHANGED <<c, so>>
Write == r.phase = "output" /\ r' = Outputs(c, r) /\ UNCHANGED <<c, so, mo>>
Next == Starter \/ Main \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == r.phase = "done"
---------------------------------------------------------------------------
\* the start-up solve happens if and only if it is asked for, and before the main solve
StarterOnlyIfAsked == (so # "none" => c.starter) /\ (mo # "none" /\ c.starter => so # "none")
\* no failure of the main solve goes unreported by a run without output; a failed tolerance at start-up alone does not stop a run
Reported == Done => /\ (mo \in {"tolerance", "numerical", "idle"} /\ ~c.output) => r.thrown = "tolerance"
                    /\ (mo = "ok" => r.thrown = "")
                    /\ (so = "tolerance" => mo # "none")
                    /\ (so = "numerical" => mo = "none" /\ r.thrown = "numerical")
\* files are written by a run with output only, the history for a converged main solve only, and nothing after a failure to start
FilesLast == /\ (Done /\ ~c.output => r.files \subseteq {"system"})
             /\ ("history" \in r.files => c.hist /\ mo = "ok")
             /\ (so = "numerical" => r.files = {})
             /\ (r.phase \in {"starter", "main"} => r.files = {})
Functional == Done => r = Course(c, so, mo)
Terminates == <>Done
Emit == ~EMIT \/ ~Done \/ PrintT("RUN " \o ToJson([starter |-> c.starter, output |-> c.output, procs |-> c.procs, implicit |-> c.implicit, system |-> c.system, hist |-> c.hist,
          surface |-> c.surface, vtu |-> c.vtu, vol |-> c.vol, walls |-> Cardinality(c.walls), others |-> Cardinality(c.others), so |-> so, mo |-> mo]))
================================================================================
