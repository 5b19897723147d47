------------------------------ MODULE ArrayTrace ------------------------------
(* Conformance of the two-dimensional arrays (L04): recorded histories against Arrays.tla. *)
EXTENDS TraceBase
VARIABLES ci, pos, bad, st, hist
vars == <<ci, pos, bad, st, hist>>
A == INSTANCE Arrays WITH SLOTS <- 3, DEPTH <- 0, EMIT <- FALSE
C == Cases[ci]
O == C.ops[pos + 1]
Ev == C.ev[pos + 1]
\* a real entry x is stored as 4/3 x (but for the 0 and 1 that arrays are filled with) and read as millionths of 3/4 of it
Obs(x) == IF C.key.type = "int" THEN x ELSE IF x \in {0, 1} THEN 750000 * x ELSE 1000000 * x
Agrees(seen, e) == Len(seen) = Len(e) /\ \A i \in 1..Len(e) : e[i] # A!U => seen[i] = Obs(e[i])
Clauses(e, new) ==
  IF e.event # "Op" THEN {<<"L04.unexplained_" \o e.event, FALSE>>}
  ELSE LET K == {k \in 1..3 : new[k].live} IN
  {<<"L04.shape", \A k \in K : e.arr[k].shape = <<new[k].r, new[k].c, new[k].r * new[k].c>>>>,
   <<"L04.target", \A k \in K \cap {O.k} : Agrees(e.arr[k].get, new[k].e)>>,
   <<"L04.others", \A k \in K \ {O.k} : Agrees(e.arr[k].get, new[k].e)>>,
   <<"L04.readers_agree", \A k \in K : Agrees(e.arr[k].op, new[k].e) /\ Agrees(e.arr[k].row, new[k].e) /\ Agrees(e.arr[k].view, new[k].e)>>}
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ st = A!Start /\ hist = <<>>
Step1 == /\ bad = {} /\ pos < Len(C.ev)
         /\ pos' = pos + 1 /\ UNCHANGED <<ci, hist>>
         /\ bad' = (IF pos + 1 > Len(C.ops) \/ Ev.event # "Op" THEN {"L04.unexplained_" \o Ev.event} ELSE Failed(Clauses(Ev, A!Do(st, O))))
         /\ st' = (IF bad' # {} THEN st ELSE A!Do(st, O))
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
=============================================================================
