------------------------------- MODULE OdeTrace -------------------------------
(* Conformance of the nonlinear solvers (O01-O04): every evaluation of the spatial  *)
(* operator that the solver makes, and its outcome, against the iteration specified  *)
(* in Pseudo.tla (pseudo-time) and the TVD Runge-Kutta schemes, for any number of    *)
(* processes. The operator is a script; its values are part of the events.           *)
EXTENDS TraceBase, Deviations
VARIABLES ci, pos, bad, st
vars == <<ci, pos, bad, st>>
C == Cases[ci]
Ev == C.ev[pos + 1]
NC == C.n                     \* number of cells
NV == C.nv
K == C.kind
Tol == RStr("1e-10")
Cfl0 == RStr(C.cfl)
CflE == RStr(C.cflend)
TolO == RStr(C.tol)
U0 == TLCEval([i \in 1..NC |-> RStrs(C.u0[i])])
\* ---- observations of all processes, by cell ----
Ranks(e) == 1..Len(e.r)
Slots(e) == UNION {{<<k, j>> : j \in 1..Len(e.r[k].gi)} : k \in Ranks(e)}
Covered(e) == /\ \A p \in Slots(e) : e.r[p[1]].gi[p[2]] \in 0..(NC - 1)
              /\ Cardinality(Slots(e)) = NC /\ {e.r[p[1]].gi[p[2]] : p \in Slots(e)} = 0..(NC - 1)
Where(e) == TLCEval([i \in 1..NC |-> CHOOSE p \in Slots(e) : e.r[p[1]].gi[p[2]] = i - 1])
StateOf(e) == LET w == Where(e) IN TLCEval([i \in 1..NC |-> RStrs(e.r[w[i][1]].u[w[i][2]])])
Foreign(e, i) == UNION {{<<k, j>> : j \in {j \in 1..Len(e.r[k].gh) : e.r[k].gh[j] = i - 1}} : k \in Ranks(e)}
SumOver(S, f(_)) == LET g[T \in SUBSET S] == IF T = {} THEN [v \in 1..NV |-> R0] ELSE LET p == CHOOSE p \in T : TRUE IN VAdd(f(p), g[T \ {p}]) IN g[S]
\* the residual: own contributions and those of other processes
Total(e) == LET w == Where(e) IN TLCEval([i \in 1..NC |-> VAdd(RStrs(e.r[w[i][1]].r[w[i][2]]), SumOver(Foreign(e, i), LAMBDA p : RStrs(e.r[p[1]].rg[p[2]])))])
Steps(e) == LET w == Where(e) IN TLCEval([i \in 1..NC |-> RStr(e.r[w[i][1]].dt[w[i][2]])])
GhostsAgree(e, u) == \A k \in Ranks(e) : \A j \in 1..Len(e.r[k].gh) : VNear(RStrs(e.r[k].ug[j]), u[e.r[k].gh[j] + 1], R1 \oplus RAbsMax(u[e.r[k].gh[j] + 1]), RStr("1e-15"))
---------------------------------------------------------------------------
NormOf(r) == RSqrt(RSum([i \in 1..NC |-> RSq(r[i][NV]) \otimes st.area[i]]))
Clip(x) == IF x \prec Cfl0 THEN Cfl0 ELSE IF CflE \prec x THEN CflE ELSE x
Ramp == LET q == st.resiold \oslash st.resi IN IF st.k = 0 THEN Cfl0 ELSE Clip(st.cfl \otimes RPow(q, IF R1 \prec q THEN RQ(1, 4) ELSE RQ(3, 10)))
KRow(i) == {x \in 1..Len(st.K) : st.K[x][1] = i - 1}
KDiag(i) == LET S == {x \in KRow(i) : st.K[x][2] = i - 1} IN LET g[T \in SUBSET S] == IF T = {} THEN R0 ELSE LET x == CHOOSE x \in T : TRUE IN RStr(st.K[x][3]) \oplus g[T \ {x}] IN g[S]
Large(u) == RAbsMax([i \in 1..NC |-> RAbsMax(u[i])])
\* pseudo-time steps: does u follow from the previous evaluation?
ExplicitStep(u) == \A i \in 1..NC : VNear(u[i], VAdd(st.u[i], VScale((Cfl0 \otimes st.dt[i]) \oslash st.area[i], st.r[i])), R1 \oplus RAbsMax(u[i]) \oplus RAbsMax(st.u[i]), Tol)
Diag(i) == st.area[i] \oslash (st.cfl \otimes st.dt[i])
SolvesSystem(u) ==
  LET du == TLCEval([i \in 1..NC |-> VSub(u[i], st.u[i])]) IN
  LET lhs(i) == LET row == SumOver(KRow(i), LAMBDA x : VScale(RStr(st.K[x][3]), du[st.K[x][2] + 1])) IN VAdd(VScale(Diag(i), du[i]), row) IN
  LET tol == IF C.mf THEN RStr("1e-5") ELSE RStr("1e-8") IN
  LET sc(i) == (tol \otimes Large(st.r)) \oplus (RStr("1e-13") \otimes (R1 \oplus Large(u) \oplus Large(st.u)) \otimes (R1 \oplus Diag(i) \oplus KDiag(i))) IN
  \A i \in 1..NC : VNear(lhs(i), st.r[i], R1, sc(i))
\* uncoupled systems with relaxed updates
Omega(G, mf, u, du, dp) ==
  LET danger == RMax(RAbs(dp) \oslash Pres(G, u), RAbs(du[1]) \oslash u[1]) IN IF danger \prec (R1 \ominus mf) THEN R1 \ominus danger ELSE mf
RightDP(G, u, du) == Pres(G, VAdd(u, du)) \ominus Pres(G, u)
Relaxed(u, dpf(_, _, _)) == LET G == GasOf(C.gas) IN \A i \in 1..NC :
  LET du == VScale(R1 \oslash (Diag(i) \oplus KDiag(i)), st.r[i]) IN
  VNear(u[i], VAdd(st.u[i], VScale(Omega(G, RStr(C.minf), st.u[i], du, dpf(G, st.u[i], du)), du)), R1 \oplus Large(st.u), RStr("1e-7"))
UpdateClauses(u) ==
  IF ~RFin(st.resi) THEN {}
  ELSE IF K = "exp" THEN {<<"O02.explicit_update", ExplicitStep(u)>>}
  ELSE IF C.relax THEN LET good == Relaxed(u, RightDP) IN {<<IF ~good /\ Relaxed(u, DeviantDP) THEN "O03.known_relaxed_update" ELSE "O03.relaxed_update", good>>}
  ELSE {<<"O02.solves_pseudo_time_system", SolvesSystem(u)>>}
Reached == st.resi \preceq (TolO \otimes st.initres)
---------------------------------------------------------------------------
EvalClauses(e) ==
  LET u == StateOf(e) IN
  {<<"O01.residual_starts_at_zero", \A k \in Ranks(e) : e.r[k].zero>>,
   <<"O01.state_shared", GhostsAgree(e, u)>>,
   <<"O01.stops_in_time", st.k < C.maxiter /\ (st.k = 0 \/ (RFin(st.resi) /\ ~Reached))>>}
  \cup (IF st.k = 0 THEN {<<"O01.starts_from_given_state", u = U0>>} ELSE UpdateClauses(u))
AfterEval(e) ==
  LET r == Total(e) IN LET n == NormOf(r) IN LET first == st.k = 0 IN
  LET c == IF K = "imp" THEN Ramp ELSE Cfl0 IN
  [st EXCEPT !.k = @ + 1, !.u = StateOf(e), !.r = r, !.dt = Steps(e), !.resiold = st.resi, !.resi = n, !.initres = IF first THEN n ELSE @,
             !.cfl = c, !.h = Append(@, <<n \oslash (IF first THEN n ELSE st.initres), n, c>>)]
HistClauses(e) ==
  \A k \in Ranks(e) : LET h == e.r[k].hist IN
    IF ~C.hist THEN h = <<>>
    ELSE /\ Len(h) = st.k \/ (e.r[k].out = "numerical" /\ Len(h) = st.k - 1)
         /\ \A j \in 1..Len(h) : LET x == RStrs(h[j]) IN
              /\ RNear(x[1], RInt(j), R1, Tol)
              /\ (RFin(st.h[j][2]) /\ R0 \prec st.h[1][2]) => (RNear(x[2], st.h[j][1], st.h[j][1], RStr("1e-6")) /\ RNear(x[3], st.h[j][2], st.h[j][2], RStr("1e-6")))
CflClause(e) == K = "imp" => \A k \in Ranks(e) : \A j \in 1..Len(e.r[k].hist) : j <= st.k => RNear(RStr(e.r[k].hist[j][4]), st.h[j][3], st.h[j][3], RStr("1e-6"))
Outcome == IF st.k = 0 THEN "ok" ELSE IF ~RFin(st.resi) THEN "numerical" ELSE IF Reached THEN "ok" ELSE "tolerance"
EndClauses(e) ==
  LET out == Outcome IN
  {<<"O01.goes_on", st.k = 0 => C.maxiter = 0>>,
   <<"O01.goes_on", (st.k > 0 /\ RFin(st.resi) /\ ~Reached) => st.k = C.maxiter>>,
   <<"O01.outcome", \A k \in Ranks(e) : e.r[k].out = out /\ e.r[k].ret = 0>>,
   <<"O01.convergence_flag", (st.k > 0 /\ out # "numerical") => \A k \in Ranks(e) : e.r[k].conv = (out = "ok")>>,
   <<"O01.step_count", (st.k > 0 /\ out # "numerical") => \A k \in Ranks(e) : e.r[k].steps = st.k>>,
   <<"O01.history", HistClauses(e)>>, <<"O02.recorded_cfl", CflClause(e)>>}
  \cup (IF \E k \in Ranks(e) : e.r[k].out = "numerical" THEN {} ELSE LET u == StateOf(e) IN IF st.k = 0 THEN {<<"O01.starts_from_given_state", u = U0>>} ELSE UpdateClauses(u))
---------------------------------------------------------------------------
\* TVD Runge-Kutta schemes: stage s combines the solution at the start of the step, the previous stage, and its residual
Coef == CASE C.order = 1 -> << <<R1, R0, R1>> >>
          [] C.order = 2 -> << <<R1, R0, R1>>, <<Half, Half, Half>> >>
          [] C.order = 3 -> << <<R1, R0, R1>>, <<RQ(3, 4), RQ(1, 4), RQ(1, 4)>>, <<RQ(1, 3), RQ(2, 3), RQ(2, 3)>> >>
Stage == st.k % C.order
Final == RStr(C.final)
RKEvalClauses(e) ==
  LET u == StateOf(e) IN
  {<<"O04.residual_starts_at_zero", \A k \in Ranks(e) : e.r[k].zero>>,
   <<"O04.state_shared", GhostsAgree(e, u)>>,
   <<"O04.stops_in_time", (st.k = 0 \/ RFin(st.dtg)) /\ (Stage = 0 => st.time \prec Final)>>,
   <<"O04.stage_state", \A i \in 1..NC : VNear(u[i], st.us[i], R1 \oplus RAbsMax(st.us[i]), Tol)>>}
AfterRK(e) ==
  LET r == Total(e) IN LET dt == Steps(e) IN LET c == Coef[Stage + 1] IN
  LET dtg == IF Stage = 0 THEN RMin(RAbsMax(dt), CHOOSE x \in {dt[i] : i \in 1..NC} : \A i \in 1..NC : ~RFin(x) \/ x \preceq dt[i]) ELSE st.dtg IN
  LET start == IF Stage = 0 THEN st.us ELSE st.u IN
  LET us == TLCEval([i \in 1..NC |-> VAdd(VAdd(VScale(c[1], start[i]), VScale(c[2], st.us[i])), VScale((c[3] \otimes dtg \otimes Cfl0) \oslash st.area[i], r[i]))]) IN
  [st EXCEPT !.k = @ + 1, !.u = start, !.us = us, !.dtg = dtg, !.time = IF Stage = C.order - 1 THEN @ \oplus (dtg \otimes Cfl0) ELSE @]
RKEndClauses(e) ==
  LET fail == st.k > 0 /\ ~RFin(st.dtg) IN
  {<<"O04.outcome", \A k \in Ranks(e) : e.r[k].out = (IF fail THEN "numerical" ELSE "ok") /\ e.r[k].ret = 0>>,
   <<"O04.log_line", fail \/ e.r[1].lines = 1>>}
  \cup (IF fail \/ (\E k \in Ranks(e) : e.r[k].out = "numerical") THEN {} ELSE
        LET u == StateOf(e) IN {<<"O04.reaches_final_time", Stage = 0 /\ Final \preceq st.time>>,
                                <<"O04.final_state", \A i \in 1..NC : VNear(u[i], st.us[i], R1 \oplus RAbsMax(st.us[i]), Tol)>>})
---------------------------------------------------------------------------
OmegaClauses(e) ==
  LET G == GasOf(C.gas) IN LET u == RStrs(C.u) IN LET du == RStrs(C.du) IN LET mf == RStr(C.minf) IN LET w == RStr(e.w) IN
  LET legal == R0 \prec mf /\ mf \preceq R1 IN
  LET near(dp) == RNear(w, Omega(G, mf, u, du, dp), R1, RStr("1e-10")) IN
  LET good == near(RightDP(G, u, du)) IN
  {<<"O03.full_update", RStr(e.full) = R1>>,
   <<"O03.minimum_validated", (e.ctor = "ok") = legal>>}
  \cup (IF ~legal \/ e.ctor # "ok" THEN {} ELSE
        {<<"O03.within_bounds", mf \preceq w /\ w \preceq R1>>,
         <<IF ~good /\ near(DeviantDP(G, u, du)) THEN "O03.known_factor" ELSE "O03.factor", good>>})
---------------------------------------------------------------------------
Mine(c) == SubSeq(c, 1, 4) = Prop \o "."
Sane(e) == "r" \in DOMAIN e /\ \A k \in Ranks(e) : "gi" \in DOMAIN e.r[k]
SetupState(e) == LET w == Where(e) IN
  [k |-> 0, u |-> U0, r |-> <<>>, dt |-> <<>>, resi |-> R1, resiold |-> R1, initres |-> R1, cfl |-> R0, h |-> <<>>, us |-> U0, dtg |-> R0, time |-> R0,
   area |-> TLCEval([i \in 1..NC |-> RStr(e.r[w[i][1]].area[w[i][2]])]),
   K |-> LET cat[k \in 0..Len(e.r)] == IF k = 0 THEN <<>> ELSE cat[k - 1] \o e.r[k].K IN cat[Len(e.r)]]
Clauses(e) ==
  CASE e.event = "Omega" -> OmegaClauses(e)
    [] e.event \in {"Setup", "Residual", "End"} /\ ~(Sane(e) /\ Covered(e)) -> {<<Prop \o ".every_cell_once", FALSE>>}
    [] e.event = "Setup" -> {}
    [] e.event = "Residual" -> IF K = "rk" THEN RKEvalClauses(e) ELSE EvalClauses(e)
    [] e.event = "End" -> IF K = "rk" THEN RKEndClauses(e) ELSE EndClauses(e)
    [] OTHER -> {<<Prop \o ".unexplained_" \o e.event, FALSE>>}
After(e) ==
  CASE e.event = "Setup" -> SetupState(e)
    [] e.event = "Residual" -> IF K = "rk" THEN AfterRK(e) ELSE AfterEval(e)
    [] OTHER -> st
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ st = [k |-> 0]
Step1 == /\ bad = {} /\ pos < Len(C.ev)
         /\ pos' = pos + 1 /\ UNCHANGED ci
         /\ bad' = {c \in Failed(Clauses(Ev)) : Mine(c)}
         /\ st' = (IF bad' # {} THEN st ELSE After(Ev))
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
=============================================================================
