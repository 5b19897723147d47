------------------------------- MODULE RunTrace --------------------------------
(* Conformance of whole steady runs (C02): the phases, carried out one by one by the   *)
(* solver classes, determine through Run.tla what the run of the control file must do. *)
EXTENDS TraceBase, Gas, Run
VARIABLES ci, pos, bad
vars == <<ci, pos, bad>>
C == Cases[ci]
Ev == C.ev[pos + 1]
G == GasOf(C.gas)
N == C.n
Cfg == [starter |-> C.starter, output |-> C.output, procs |-> C.procs, implicit |-> C.implicit, system |-> C.system, hist |-> C.hist, surface |-> C.surface, vtu |-> C.vtu, vol |-> C.vol,
        walls |-> {C.walls[k] : k \in 1..Len(C.walls)}, others |-> {C.others[k] : k \in 1..Len(C.others)}]
\* ---- states by global cell ----
Slots(e) == UNION {{<<k, j>> : j \in 1..Len(e.r[k].gi)} : k \in 1..Len(e.r)}
Covered(e) == /\ \A p \in Slots(e) : e.r[p[1]].gi[p[2]] \in 0..(N - 1)
              /\ Cardinality(Slots(e)) = N /\ {e.r[p[1]].gi[p[2]] : p \in Slots(e)} = 0..(N - 1)
StateOf(e) == LET at(i) == CHOOSE p \in Slots(e) : e.r[p[1]].gi[p[2]] = i - 1 IN TLCEval([i \in 1..N |-> RStrs(e.r[at(i)[1]].u[at(i)[2]])])
Free == FreeStream(G, RStr(C.aoa))
IsFree(v) == VNear(v, Free, RAbsMax(Free), RStr("1e-12"))
InitialClauses(e) ==
  {<<"starts_from_free_stream", \A k \in 1..Len(e.r) : (\A j \in 1..Len(e.r[k].u) : IsFree(RStrs(e.r[k].u[j]))) /\ (\A j \in 1..Len(e.r[k].ug) : IsFree(RStrs(e.r[k].ug[j])))>>}
Phases(name) == {k \in 1..Len(C.ev) : C.ev[k].event = "Phase" /\ C.ev[k].r[1].name = name}
Phase(name) == C.ev[CHOOSE k \in Phases(name) : TRUE]
Out(name) == IF Phases(name) = {} THEN "none" ELSE Phase(name).r[1].out
So == IF C.starter THEN Out("starter") ELSE "none"
Mo == IF C.starter THEN Out("main after starter") ELSE Out("main")
MainPhase == IF C.starter THEN "main after starter" ELSE "main"
FileNames(f) ==
  CASE f = "system" -> {"log_lhs.pmat", "log_b.pmat", "log_x.pmat"} [] f = "history" -> {"log-residual_history.log"} [] f = "timing" -> {"log-prec-timing.log"}
    [] f = "vtu" -> {"sol.vtu"} [] f = "vol" -> {"volume-vol.out"}
    [] \E m \in Cfg.walls : f = "wall" \o ToString(m) -> {"surf-surf_w" \o ToString(CHOOSE m \in Cfg.walls : f = "wall" \o ToString(m)) \o ".out"}
    [] OTHER -> {"surf-surf_o" \o ToString(CHOOSE m \in Cfg.others : f = "other" \o ToString(m)) \o ".out"}
Same(a, b, tol) == a = b \/ RNear(RStr(a), RStr(b), RMax(R1, RAbs(RStr(b))), RStr(tol))
RunClauses(e) ==
  IF Mo \notin Outcomes /\ ~(C.starter /\ So = "numerical") THEN {<<"phases_observed", FALSE>>} ELSE
  LET r == Course(Cfg, So, Mo) IN LET o == e.r[1] IN
  LET expect == CASE r.state = "starter" -> "starter" [] r.state = "main" -> MainPhase [] r.state = "main after starter" -> "main after starter" [] OTHER -> "initial" IN
  LET want == IF expect = "initial" THEN [i \in 1..N |-> Free] ELSE StateOf(Phase(expect)) IN
  LET obs == StateOf(e) IN
  LET fine == So # "numerical" /\ Mo # "numerical" IN
  LET hs == Phase(MainPhase).r[1].hist IN
  {<<"failures_reported", \A k \in 1..Len(e.r) : e.r[k].thrown = r.thrown>>,
   <<"final_state", fine => \A i \in 1..N : VNear(obs[i], want[i], RAbsMax(want[i]), RStr("1e-8"))>>,
   <<"files_written", {o.files[k] : k \in 1..Len(o.files)} =
        UNION {FileNames(f) : f \in r.files}>>,
   <<"file_contents", fine => o.differ = <<>>>>,
   <<"history_of_main_solve", "history" \in r.files => (Len(o.hist) = Len(hs)
        /\ \A k \in 1..Len(hs) : Len(o.hist[k]) = 4 /\ RStr(o.hist[k][1]) = RInt(k) /\ (\A x \in 1..3 : Same(o.hist[k][x], hs[k][x], "2e-5")) /\ Same(o.hist[k][4], hs[k][4], "1e-3"))>>,
   <<"functionals_of_final_state", (fine /\ C.output) => \A k \in 1..Len(e.r) : \A x \in 1..5 : e.r[k].f[x] = e.r[k].fref[x] \/ RNear(RStr(e.r[k].f[x]), RStr(e.r[k].fref[x]), R1 \oplus RAbs(RStr(e.r[k].fref[x])), RStr("1e-8"))>>,
   <<"final_system", ("system" \in r.files /\ ~C.mf /\ fine /\ o.sysfinite) => LET x == RStr(o.syserr) IN R0 \preceq x /\ x \preceq RStr("1e-5")>>}
Clauses(e) ==
  IF e.event \notin {"Initial", "Phase", "Run"} THEN {<<"unexplained_" \o e.event, FALSE>>}
  ELSE IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>}
  ELSE IF e.event = "Initial" THEN InitialClauses(e)
  ELSE IF e.event = "Phase" THEN {<<"processes_agree", \A k \in 1..Len(e.r) : e.r[k].out = e.r[1].out>>}
  ELSE RunClauses(e)
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {}
Step1 == /\ pos < Len(C.ev)
         /\ pos' = pos + 1 /\ UNCHANGED ci
         /\ bad' = bad \cup {Prop \o "." \o c : c \in Failed(Clauses(Ev))}
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
================================================================================
