---------------------------------- MODULE Run ----------------------------------
(* The course of a steady run: an optional start-up solve with the first-order scheme *)
(* from the free stream, the main solve from what it leaves, and, if asked for, the    *)
(* outputs. A phase ends "ok" (tolerance reached), "idle" (no steps asked for),        *)
(* "tolerance" (steps used up) or "numerical" (not-finite residual).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Outcomes == {"ok", "idle", "tolerance", "numerical"}
\* c: starter (BOOLEAN), output (run_output rather than run), procs, implicit, system (write the final linear system),
\*    hist, surface, vtu, vol (BOOLEAN), walls, others (markers)
Begin(c) == [phase |-> IF c.starter THEN "starter" ELSE "main", state |-> "initial", thrown |-> "", converged |-> FALSE, files |-> {}]
\* the start-up solve ends with outcome o: not reaching the tolerance is no failure
StarterEnds(c, r, o) ==
  IF o = "numerical" THEN [r EXCEPT !.phase = "done", !.state = "unknown", !.thrown = "numerical"]
  ELSE [r EXCEPT !.phase = "main", !.state = IF o = "idle" THEN "initial" ELSE "starter"]
System(c, o) == IF c.system /\ c.implicit /\ o \in {"ok", "tolerance"} THEN {"system"} ELSE {}
\* the main solve ends: anything but reaching the tolerance is a failure, which a run with output reports and survives
MainEnds(c, r, o) ==
  LET s == [r EXCEPT !.converged = o = "ok", !.state = IF o = "idle" THEN r.state ELSE IF r.state = "starter" THEN "main after starter" ELSE "main",
                     !.files = System(c, o) \cup (IF o = "ok" /\ c.output /\ c.hist THEN {"history", "timing"} ELSE {})] IN
  IF c.output THEN [s EXCEPT !.phase = "output"] ELSE [s EXCEPT !.phase = "done", !.thrown = IF o = "ok" THEN "" ELSE "tolerance"]
Outputs(c, r) ==
  [r EXCEPT !.phase = "done",
            !.files = r.files \cup (IF c.procs > 1 THEN {} ELSE (IF c.surface THEN {"wall" \o ToString(m) : m \in c.walls} \cup {"other" \o ToString(m) : m \in c.others} ELSE {})
                                    \cup (IF c.vtu THEN {"vtu"} ELSE {}) \cup (IF c.vol THEN {"vol"} ELSE {}))]
\* the whole course, given how the phases end
Course(c, so, mo) ==
  LET a == Begin(c) IN
  LET b == IF c.starter THEN StarterEnds(c, a, so) ELSE a IN
  LET d == IF b.phase = "main" THEN MainEnds(c, b, mo) ELSE b IN
  IF d.phase = "output" THEN Outputs(c, d) ELSE d
================================================================================
