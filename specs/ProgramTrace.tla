----------------------------- MODULE ProgramTrace ------------------------------
(* Whole runs of the program fvens_steady (E01): from a control file and a mesh to     *)
(* its exit status and the files it leaves. The run is a sequence of phases (Run.tla)   *)
(* of pseudo-time steps of the specified discretisation (FlowOps); each Step event      *)
(* advances the specified state by one step of the phase under way, and the Program     *)
(* event compares what the program wrote with the state the last phase left.            *)
EXTENDS SpatialTrace, Run
VARIABLE pr
R == C.run
Sec(p) == IF p = "starter" THEN R.s ELSE R.m
Start(p) == [phase |-> p, k |-> 0, resi |-> R1, resiold |-> R1, init |-> R1, cfl |-> RStr(Sec(p).cfl), h |-> <<>>]
Free == TLCEval([i \in 1..geo.n |-> UInf])
\* a phase that asks for no steps leaves the state alone
Enter(p, q) == IF Sec(p).max > 0 THEN [q EXCEPT !.it = Start(p)]
               ELSE IF p = "starter" THEN (IF R.m.max > 0 THEN [q EXCEPT !.so = "idle", !.it = Start("main")] ELSE [q EXCEPT !.so = "idle", !.mo = "idle", !.it.phase = "done"])
               ELSE [q EXCEPT !.mo = "idle", !.it.phase = "done"]
Begun == Enter(IF R.starter THEN "starter" ELSE "main", [u |-> Free, so |-> "none", mo |-> "none", judged |-> TRUE, it |-> [Start("main") EXCEPT !.phase = "done"]])
---------------------------------------------------------------------------
\* ---- one pseudo-time step of the phase p from u ----
SOf(p) == IF p = "main" THEN S ELSE [S EXCEPT !.order2 = FALSE, !.grad = "NONE", !.recon = "NONE"]
Clip(x, lo, hi) == IF x \prec lo THEN lo ELSE IF hi \prec x THEN hi ELSE x
Ramp(it) == LET q == it.resiold \oslash it.resi IN
  IF it.k = 0 THEN it.cfl ELSE Clip(it.cfl \otimes RPow(q, IF R1 \prec q THEN RQ(1, 4) ELSE RQ(3, 10)), RStr(Sec(it.phase).cfl), RStr(Sec(it.phase).end))
\* the linear system of a backward Euler step: (area / (CFL dt)) du + J du = r, as a dense one (blocks are given by columns)
Dense(fd, diag) ==
  LET blk == TLCEval([i \in 1..geo.n |-> [j \in 1..geo.n |-> IF i = j THEN DiagBlock(geo, fd, i) ELSE OffBlock(geo, fd, i, j)]]) IN
  TLCEval([a \in 1..(4 * geo.n) |-> LET i == ((a - 1) \div 4) + 1 IN LET x == ((a - 1) % 4) + 1 IN
    [c \in 1..(4 * geo.n) |-> LET j == ((c - 1) \div 4) + 1 IN LET y == ((c - 1) % 4) + 1 IN
       IF a = c THEN blk[i][j][y][x] \oplus diag[i] ELSE blk[i][j][y][x]]])
Flat(r) == TLCEval([a \in 1..(4 * geo.n) |-> r[((a - 1) \div 4) + 1][((a - 1) % 4) + 1]])
Advance(q) ==
  LET it == q.it IN LET SS == SOf(it.phase) IN LET u == q.u IN
  LET fs == FaceStates(SS, geo, G, BC, UInf, u) IN
  IF ~StatesFine(G, geo, u, fs) THEN [q EXCEPT !.judged = FALSE]
  ELSE
  LET fl == AllFluxes(SS, geo, G, u, fs) IN
  LET r == TLCEval([i \in 1..geo.n |-> VNeg(Outward(geo, fl, i))]) IN
  LET dt == TLCEval([i \in 1..geo.n |-> TimeStep(SS, geo, G, fs, i)]) IN
  LET norm == RSqrt(RSum([i \in 1..geo.n |-> RSq(r[i][4]) \otimes geo.area[i]])) IN
  LET init == IF it.k = 0 THEN norm ELSE it.init IN
  LET cfl == IF R.implicit THEN Ramp(it) ELSE it.cfl IN
  \* a derivative that is not defined at a state (an upwind switch) leaves the step undetermined
  IF R.implicit /\ \E f \in 1..geo.nf : FaceKinked(SS, geo, G, BC, UInf, u, f) THEN [q EXCEPT !.judged = FALSE]
  ELSE
  LET du == IF ~R.implicit THEN TLCEval([i \in 1..geo.n |-> VScale((cfl \otimes dt[i]) \oslash geo.area[i], r[i])])
            ELSE LET fd == FaceDerivs(SS, geo, G, BC, UInf, u, FALSE) IN
                 LET x == RSolve(Dense(fd, [i \in 1..geo.n |-> geo.area[i] \oslash (cfl \otimes dt[i])]), Flat(r)) IN
                 TLCEval([i \in 1..geo.n |-> [v \in 1..4 |-> x[4 * (i - 1) + v]]]) IN
  LET v == TLCEval([i \in 1..geo.n |-> VAdd(u[i], du[i])]) IN
  LET n == [it EXCEPT !.k = @ + 1, !.resiold = it.resi, !.resi = norm, !.init = init, !.cfl = cfl, !.h = Append(@, <<norm \oslash init, norm, cfl>>)] IN
  LET reached == norm \preceq (RStr(Sec(it.phase).tol) \otimes init) IN
  \* too near to the tolerance to say
  LET close == RNear(norm, RStr(Sec(it.phase).tol) \otimes init, init, IF R.implicit THEN RStr("1e-4") ELSE RStr("1e-8")) IN
  LET s == [q EXCEPT !.u = v, !.it = n, !.judged = @ /\ RFin(norm) /\ R0 \prec init /\ (it.k = 0 \/ ~close) /\ \A i \in 1..geo.n : Admissible(G, v[i])] IN
  IF ~(reached \/ n.k = Sec(it.phase).max) THEN s
  ELSE LET o == IF reached THEN "ok" ELSE "tolerance" IN
       IF it.phase = "starter" THEN Enter("main", [s EXCEPT !.so = o]) ELSE [s EXCEPT !.mo = o, !.it.phase = "done"]
---------------------------------------------------------------------------
\* ---- what the program left ----
Cfg == [starter |-> R.starter, output |-> TRUE, procs |-> R.procs, implicit |-> R.implicit, system |-> FALSE, hist |-> R.hist, surface |-> TRUE, vtu |-> TRUE, vol |-> R.vol,
        walls |-> {C.walls[k] : k \in 1..Len(C.walls)}, others |-> {C.others[k] : k \in 1..Len(C.others)}]
FileOf(f) ==
  CASE f = "history" -> "log-residual_history.log" [] f = "timing" -> "log-prec-timing.log" [] f = "vtu" -> "sol.vtu" [] f = "vol" -> "volume-vol.out"
    [] \E m \in Cfg.walls : f = "wall" \o ToString(m) -> "surf-surf_w" \o ToString(CHOOSE m \in Cfg.walls : f = "wall" \o ToString(m)) \o ".out"
    [] OTHER -> "surf-surf_o" \o ToString(CHOOSE m \in Cfg.others : f = "other" \o ToString(m)) \o ".out"
Written == {FileOf(f) : f \in Course(Cfg, pr.so, pr.mo).files}
\* six digits, and what the derivatives of the Jacobian are known to
RTol == IF R.implicit THEN RStr("1e-4") ELSE RStr("2e-5")
LogNear(s, x) == LET l == RLog(x) \oslash RLog(RInt(10)) IN RNear(RStr(s), l, R1 \oplus RAbs(l), RTol)
HistOK(rows) ==
  /\ Len(rows) = pr.it.k
  /\ \A k \in 1..Len(rows) : Len(rows[k]) = 4 /\ RStr(rows[k][1]) = RInt(k)
       /\ LET x == pr.it.h[k] IN LogNear(rows[k][2], x[1]) /\ LogNear(rows[k][3], x[2])      \* decimal logarithms
             /\ (R.implicit => RNear(RStr(rows[k][4]), x[3], x[3], RStr("2e-3")))
Near6(s, t) == VNear(s, t, RAbsMax(t), RTol)
VolumeOK(rows) == Len(rows) = geo.n /\ (\A k \in 1..geo.n : Len(rows[k]) = 8) /\ \A i \in 1..geo.n :
  LET w == VolumeRow(geo, G, pr.u, i) IN \E k \in 1..geo.n : Near6(RStrs(rows[k]), w)
\* the cells of the grid, in any order
GridOK(g) ==
  LET M == C.mesh IN LET n == Len(M.pts) IN LET nc == Len(M.cells) IN LET P == Points(M, RStr(C.scale)) IN
  LET from(i) == IF i = 1 THEN 0 ELSE g.offsets[i - 1] IN
  /\ g.np = n /\ Len(g.points) = n /\ \A v \in 1..n : Near6(RStrs(g.points[v]), <<P[v][1], P[v][2], R0>>)
  /\ g.nc = nc /\ Len(g.offsets) = nc /\ Len(g.types) = nc /\ Len(g.conn) = g.offsets[nc]
  /\ \A i \in 1..nc : \E j \in 1..nc : g.offsets[j] - from(j) = Len(M.cells[i]) /\ g.types[j] = (IF Len(M.cells[i]) = 3 THEN 5 ELSE 9)
                          /\ Rotation(SubSeq(g.conn, from(j) + 1, g.offsets[j]), M.cells[i])
SurfClauses(o) ==
  LET gr == Gradients(S.grad, geo, pr.u, Ghosts(geo, G, BC, UInf, pr.u)) IN
  {<<"wall_data", \A k \in 1..Len(o.walls) : LET W == WallFaces(geo, o.walls[k][1]) IN LET rows == o.walls[k][2] IN
      /\ OneToOne(rows, W)
      /\ \A f \in W : LET w == WallRow(geo, G, S.cvisc, pr.u, gr, f) IN LET row == RStrs(RowOf(rows, f)) IN
           RNear(row[3], w[3], R1 \oplus (R4 \otimes PInf(G)), RTol) /\ (S.visc => RNear(row[4], w[4], R1 \oplus RAbs(w[4]), R3 \otimes RTol))>>,
   <<"boundary_data", \A k \in 1..Len(o.others) : LET W == WallFaces(geo, o.others[k][1]) IN LET rows == o.others[k][2] IN
      OneToOne(rows, W) /\ \A f \in W : VNear(RStrs(RowOf(rows, f)), OtherRow(geo, pr.u, f), R1 \oplus RAbsMax(geo.face[f].mid), RTol)>>}
ProgramClauses(o) ==
  IF ~pr.judged THEN Skip(C.id)
  ELSE IF pr.it.phase # "done" THEN {<<"specified_run_ends", FALSE>>}
  ELSE
  LET fs == {o.files[k] : k \in 1..Len(o.files)} IN
  {<<"exit_status", o.rc = 0>>,
   <<"files_written", fs = Written>>}
  \cup (IF fs # Written THEN {} ELSE
     {<<"history", "log-residual_history.log" \in Written => HistOK(o.hist)>>}
     \cup (IF "sol.vtu" \notin Written THEN {} ELSE
        {<<"grid", GridOK(o.grid)>>} \cup PointFields(o.grid, pr.u, RTol) \cup SurfClauses(o))
     \cup (IF "volume-vol.out" \in Written THEN {<<"volume_data", VolumeOK(o.vol)>>} ELSE {}))
\* a control file that cannot be carried out: the program says so by its exit status, and leaves no results
RefusalClauses(o) ==
  {<<"refusal_" \o o.why, o.rc # 0>>, <<"no_results_" \o o.why, \A k \in 1..Len(o.files) : o.files[k] \notin {"sol.vtu", "volume-vol.out", "log-residual_history.log"}>>}
\* ---- the mesh converter (E02): the mesh in the other file is the same mesh ----
TagsKept(obs, given) == Len(obs) >= Len(given) /\ SubSeq(obs, 1, Len(given)) = given
ConvertedClauses(o) ==
  LET M == C.mesh IN LET n == Len(M.pts) IN LET nc == Len(M.cells) IN LET P == Points(M, RStr(C.scale)) IN
  LET sc == RAbsMax([v \in 1..n |-> RAbsMax(P[v])]) IN
  IF o.format = "vtu" THEN {<<"convert_status", o.rc = 0>>} \cup GridClauses("converted", o.grid)
  ELSE
  {<<"convert_status", o.rc = 0>>,
   <<"converted_points", Len(o.pts) = n /\ \A v \in 1..n : VNear(RStrs(o.pts[v]), <<P[v][1], P[v][2], R0>>, sc, RStr("1e-12"))>>,
   <<"converted_cells", Len(o.cells) = nc /\ \A i \in 1..nc : o.cells[i].type = (IF Len(M.cells[i]) = 3 THEN 2 ELSE 3) /\ Rotation(o.cells[i].nodes, M.cells[i]) /\ TagsKept(o.cells[i].tags, M.reg[i])>>,
   <<"converted_boundary", Len(o.edges) = Len(M.bf) /\ (\A k \in 1..Len(o.edges) : o.edges[k].type = 1 /\ Len(o.edges[k].nodes) = 2)
        /\ \A k \in 1..Len(M.bf) : \E j \in 1..Len(o.edges) :
             {o.edges[j].nodes[1], o.edges[j].nodes[2]} = {M.bf[k][1], M.bf[k][2]} /\ TagsKept(o.edges[j].tags, SubSeq(M.bf[k], 3, Len(M.bf[k])))>>,
   <<"converted_numbering", o.ids = [k \in 1..(nc + Len(M.bf)) |-> k]>>}
PClauses(e) ==
  CASE e.event = "Step" -> {}
    [] e.event = "Program" -> ProgramClauses(e)
    [] e.event = "Refusal" -> RefusalClauses(e)
    [] e.event = "Converted" -> ConvertedClauses(e)
    [] OTHER -> {<<"unexplained_" \o e.event, FALSE>>}
ProgramInit == /\ ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ geo = Geometry(C.mesh, RStr(C.scale))
               /\ pr = IF C.kind = "convert" THEN 0 ELSE Begun
ProgramStep == /\ pos < Len(C.ev)
               /\ pos' = pos + 1 /\ UNCHANGED <<ci, geo>>
               /\ pr' = IF C.kind = "convert" THEN pr ELSE IF Ev.event = "Step" /\ pr.judged /\ pr.it.phase # "done" THEN Advance(pr) ELSE pr
               /\ bad' = bad \cup {Prop \o "." \o c : c \in Failed(PClauses(Ev))}
ProgramSpec == ProgramInit /\ [][ProgramStep]_<<vars, pr>>
================================================================================
