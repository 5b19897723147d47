----------------------------- MODULE HandleTrace -----------------------------
(* Conformance of the vector handlers (L01): recorded operations against Handles.tla. *)
EXTENDS TraceBase
VARIABLES ci, pos, bad, st, hist
vars == <<ci, pos, bad, st, hist>>
C == Cases[ci]
H1 == INSTANCE Handles WITH NP <- 1, SLOTS <- 3, DEPTH <- 0, EMIT <- FALSE
H2 == INSTANCE Handles WITH NP <- 2, SLOTS <- 3, DEPTH <- 0, EMIT <- FALSE
H3 == INSTANCE Handles WITH NP <- 3, SLOTS <- 3, DEPTH <- 0, EMIT <- FALSE
Do(o) == CASE C.np = 1 -> H1!Do(st, o) [] C.np = 2 -> H2!Do(st, o) [] OTHER -> H3!Do(st, o)
Start == CASE C.np = 1 -> H1!Start [] C.np = 2 -> H2!Start [] OTHER -> H3!Start
Len0(v) == CASE C.np = 1 -> H1!Len0(v) [] C.np = 2 -> H2!Len0(v) [] OTHER -> H3!Len0(v)
O == C.ops[pos + 1]
Ev == C.ev[pos + 1]
Seen(k, v) == IF H1!Ghosted(k) THEN Len0(v) ELSE H1!N
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Norm1(v) == Sum([p \in 1..C.np |-> Sum([i \in 1..H1!N |-> Abs(st.val[p][v][i])], H1!N)], C.np)
Clauses(e) ==
  LET P == 1..Len(e.r) IN LET new == Do(O) IN
  LET obj == IF O.s = 0 THEN H1!None ELSE new.obj[O.s] IN
  LET was == IF O.s = 0 THEN H1!None ELSE st.obj[O.s] IN
  LET held(v) == {x \in 1..Len(new.obj) : new.obj[x].vec = v /\ H1!Ghosted(new.obj[x].kind)} IN
  IF e.event # "Op" THEN {<<"L01.unexplained_" \o e.event, FALSE>>} ELSE
  {<<"L01.refuses_second_vector", \A p \in P : e.r[p].thrown = H1!Refused(st, O)>>,
   <<"L01.access_while_attached", (obj # H1!None) => \A p \in P : e.r[p].null = (obj.vec = 0)>>,
   <<"L01.values_persist", O.op = "read" /\ obj.vec # 0 => \A p \in P : e.r[p].vals = SubSeq(new.val[p][obj.vec], 1, Seen(obj.kind, obj.vec))>>,
   <<"L01.vector_usable", O.op = "norm" => \A p \in P : e.r[p].norm = Norm1(O.v)>>,
   <<"L01.local_form_returned", \A p \in P : e.r[p].refs[1] = Cardinality(held(1))>>,
   <<"L01.reading_changes_nothing", (O.op \in {"new", "newv", "set", "read", "restore", "del"} /\ ~(O.kind \in {"M", "GM"})) => \A p \in P : e.r[p].changed = <<FALSE, FALSE>>>>,
   <<"L01.writing_is_noticed", (O.op \in {"restore", "del"} /\ was.vec # 0 /\ H1!Mutable(was.kind)) => \A p \in P : e.r[p].changed[was.vec]>>}
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ st = Start /\ hist = <<>>
Step1 == /\ bad = {} /\ pos < Len(C.ev)
         /\ pos' = pos + 1 /\ UNCHANGED <<ci, hist>>
         /\ bad' = (IF pos + 1 > Len(C.ops) THEN {"L01.unexplained_" \o Ev.event} ELSE Failed(Clauses(Ev)))
         /\ st' = (IF bad' # {} THEN st ELSE Do(O))
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
=============================================================================
