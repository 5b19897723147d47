----------------------------- MODULE SpatialTrace -----------------------------
(* Conformance of the spatial operators: residuals and time steps (S01, S02, S03),    *)
(* gradients (S05), reconstructions (S06), assembled Jacobians (S08), matrix allocation (L02) and matrix-free products (L03), evaluated by  *)
(* any number of processes, against the global operators of FlowOps / DiffusionOps.    *)
EXTENDS TraceBase, DiffusionOps, Output, Names
VARIABLES ci, pos, bad, geo
vars == <<ci, pos, bad, geo>>
C == Cases[ci]
G == GasOf(C.gas)
Ev == C.ev[pos + 1]
Tol == RStr("1e-9")
S == [flux |-> C.num.flux, jflux |-> C.num.jflux, grad |-> C.num.grad, recon |-> C.num.recon, par |-> RStr(C.num.par),
      order2 |-> C.num.order2, visc |-> C.num.visc, cvisc |-> C.num.cvisc]
Nu == RStr(C.diff.nu)
UInf == FreeStream(G, RStr(C.aoa))
BCRow(tag) == C.bcs[CHOOSE k \in 1..Len(C.bcs) : C.bcs[k][1] = tag]
BC(f) == LET b == BCRow(geo.face[f].tag) IN [type |-> BCTypes[b[2] + 1], a |-> RStr(b[3]), b |-> RStr(b[4])]
State(k) == TLCEval([i \in 1..geo.n |-> RStrs(C.u[k][i])])
\* ---- observations of all processes, by global cell ----
Mine(e, i) == {<<k, j>> : k \in 1..Len(e.r), j \in 1..geo.n} \cap UNION {{<<k, j>> : j \in {j \in 1..Len(e.r[k].gi) : e.r[k].gi[j] = i - 1}} : k \in 1..Len(e.r)}
Covered(e) ==
  /\ \A i \in 1..geo.n : Cardinality(Mine(e, i)) = 1
  /\ \A k \in 1..Len(e.r) : \A j \in 1..Len(e.r[k].gi) : e.r[k].gi[j] \in 0..(geo.n - 1)
Of(e, i, get(_, _)) == LET p == CHOOSE p \in Mine(e, i) : TRUE IN get(e.r[p[1]], p[2])
---------------------------------------------------------------------------
ResidualClauses(e) ==
  LET u == State(e.r[1].s + 1) IN
  LET fs == FaceStates(S, geo, G, BC, UInf, u) IN
  IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>}
  ELSE IF ~StatesFine(G, geo, u, fs) THEN Skip(C.id)
  ELSE
  LET fl == AllFluxes(S, geo, G, u, fs) IN
  LET sc == RAbsMax([f \in 1..geo.nf |-> RAbsMax(fl[f])]) IN
  LET ob == TLCEval([i \in 1..geo.n |-> RStrs(Of(e, i, LAMBDA r, j : r.r[j]))]) IN
  LET dt == [i \in 1..geo.n |-> RStr(Of(e, i, LAMBDA r, j : r.dt[j]))] IN
  LET bf == [f \in 1..geo.nf |-> IF IsB(geo, f) THEN fl[f] ELSE VScale(R0, fl[f])] IN
  {<<"residual", \A i \in 1..geo.n : VNear(ob[i], VNeg(Outward(geo, fl, i)), sc, Tol)>>,
   <<"conservation", VNear(VSumSeq(ob), VNeg(VSumSeq(bf)), RInt(geo.n) \otimes sc, Tol)>>,
   <<"time_step", e.r[1].wantdt => \A i \in 1..geo.n : LET d == TimeStep(S, geo, G, fs, i) IN RNear(dt[i], d, d, Tol) /\ R0 \prec dt[i]>>}
FreeStreamClauses(e) ==
  IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>}
  ELSE LET sc == RAbsMax(EulerFlux(G, UInf, <<R1, R0>>)) \otimes RAbsMax([f \in 1..geo.nf |-> geo.face[f].len]) IN
  {<<"free_stream_" \o C.num.flux, \A i \in 1..geo.n : VNear(RStrs(Of(e, i, LAMBDA r, j : r.r[j])), <<R0, R0, R0, R0>>, sc, RStr("1e-11"))>>,
   <<"time_step", \A i \in 1..geo.n : R0 \prec RStr(Of(e, i, LAMBDA r, j : r.dt[j]))>>}
\* gradients of the conserved variables at a state
GradStateClauses(e) ==
  IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>} ELSE
  LET u == State(e.r[1].s + 1) IN
  LET gr == Gradients(S.grad, geo, u, Ghosts(geo, G, BC, UInf, u)) IN
  LET sc == R1 \oplus RAbsMax([i \in 1..geo.n |-> RMax(RAbsMax(gr[i][1]), RAbsMax(gr[i][2]))]) IN
  {<<"state_gradients_" \o S.grad, \A i \in 1..geo.n : \A d \in 1..2 : VNear(RStrs(Of(e, i, LAMBDA r, j : r.g[j][d])), gr[i][d], sc, Tol)>>}
---------------------------------------------------------------------------
\* schemes applied to given cell and ghost values (serial)
NV == C.nv
Cells == TLCEval([i \in 1..geo.n |-> RStrs(C.w[i])])
EdgeOf(a, b) == CHOOSE k \in 1..Len(C.wg) : {C.wg[k][1], C.wg[k][2]} = {a, b}
GhostVals == TLCEval([f \in 1..geo.nf |-> IF IsB(geo, f) THEN RStrs(C.wg[EdgeOf(geo.face[f].a, geo.face[f].b)][3]) ELSE <<>>])
Field == C.field                       \* "linear", "constant" or "any"
\* the linear field w0 + x wx + y wy
LinAt(p) == LET c == C.lin IN LET w0 == RStrs(c[1]) IN LET wx == RStrs(c[2]) IN LET wy == RStrs(c[3]) IN
  VAdd(w0, VAdd(VScale(p[1], wx), VScale(p[2], wy)))
GradientClauses(e) ==
  LET w == Cells IN LET wg == GhostVals IN
  LET gr == Gradients(e.name, geo, w, wg) IN
  LET gx(i) == <<RStrs(e.g[i][1]), RStrs(e.g[i][2])>> IN
  LET sc == R1 \oplus RAbsMax([i \in 1..geo.n |-> RMax(RAbsMax(gr[i][1]), RAbsMax(gr[i][2]))]) \oplus RAbsMax([i \in 1..geo.n |-> RAbsMax(w[i])]) IN
  LET near(s, v) == VNear(s, v, sc, Tol) IN
  IF Len(e.g) # geo.n THEN {<<"every_cell_once", FALSE>>} ELSE
  {<<"definition_" \o e.name, \A i \in 1..geo.n : near(gx(i)[1], gr[i][1]) /\ near(gx(i)[2], gr[i][2])>>,
   <<"linear_exact", (e.name = "LEASTSQUARES" /\ Field = "linear") => \A i \in 1..geo.n : near(gx(i)[1], RStrs(C.lin[2])) /\ near(gx(i)[2], RStrs(C.lin[3]))>>,
   <<"constant_" \o e.name, Field = "constant" => \A i \in 1..geo.n : near(gx(i)[1], ZeroGrad(NV)[1]) /\ near(gx(i)[2], ZeroGrad(NV)[1])>>}
FaceOf(e, f) == CHOOSE k \in 1..Len(e.faces) : {e.faces[k][1], e.faces[k][2]} = {geo.face[f].a, geo.face[f].b}
AllFaces(e) == Len(e.faces) = geo.nf /\ \A f \in 1..geo.nf : \E k \in 1..geo.nf : {e.faces[k][1], e.faces[k][2]} = {geo.face[f].a, geo.face[f].b}
ReconClauses(e) ==
  IF ~AllFaces(e) THEN {<<"every_face_once", FALSE>>} ELSE
  LET w == Cells IN LET wg == GhostVals IN
  LET gr == TLCEval([i \in 1..geo.n |-> <<RStrs(C.gr[i][1]), RStrs(C.gr[i][2])>>]) IN
  LET rec == Reconstruct(e.name, geo, w, wg, gr, RStr(C.num.par)) IN
  LET ob == TLCEval([f \in 1..geo.nf |-> LET k == FaceOf(e, f) IN
              LET lr == <<RStrs(e.ul[k]), RStrs(e.ur[k])>> IN
              IF e.faces[k][3] = geo.face[f].l - 1 THEN [l |-> lr[1], r |-> lr[2]] ELSE [l |-> lr[2], r |-> lr[1]]]) IN
  LET sc == R1 \oplus RAbsMax([i \in 1..geo.n |-> RAbsMax(w[i])]) \oplus RAbsMax([f \in 1..geo.nf |-> RAbsMax(rec[f].l)]) IN
  LET near(s, v) == VNear(s, v, sc, RStr("1e-8")) IN
  LET within(i, x) == LET sp == Spread(geo, w, wg, i) IN \A v \in 1..NV :
        (((w[i][v] \oplus sp[v][1]) \ominus (Tol \otimes sc)) \preceq x[v]) /\ (x[v] \preceq ((w[i][v] \oplus sp[v][2]) \oplus (Tol \otimes sc))) IN
  {<<"definition_" \o e.name, \A f \in 1..geo.nf : near(ob[f].l, rec[f].l) /\ (~IsB(geo, f) => near(ob[f].r, rec[f].r))>>,
   <<"linear_exact", (e.name = "NONE" /\ Field = "linear") => \A f \in 1..geo.nf : near(ob[f].l, LinAt(geo.face[f].mid)) /\ (~IsB(geo, f) => near(ob[f].r, LinAt(geo.face[f].mid)))>>,
   <<"constant_" \o e.name, Field = "constant" => \A f \in 1..geo.nf : near(ob[f].l, w[1]) /\ (~IsB(geo, f) => near(ob[f].r, w[1]))>>,
   <<"bounds", e.name = "BARTHJESPERSEN" => \A f \in 1..geo.nf : within(geo.face[f].l, ob[f].l) /\ (~IsB(geo, f) => within(geo.face[f].r, ob[f].r))>>,
   \* at an extremum along the line of centres (the difference changes sign) the MUSCL value is the cell value
   <<"extremum", e.name = "VANALBADA" => \A f \in 1..geo.nf : \A v \in 1..NV :
       LET q == geo.face[f] IN LET d == D2(q.lc, q.rc) IN LET dc == OtherVal(geo, w, wg, f, q.l)[v] \ominus w[q.l][v] IN
       LET bi(i) == (R2 \otimes ((gr[i][1][v] \otimes d[1]) \oplus (gr[i][2][v] \otimes d[2]))) \ominus dc IN
       LET ext(i) == bi(i) \otimes dc \prec RStr("-1e-6") IN
       /\ ext(q.l) => RNear(ob[f].l[v], w[q.l][v], sc, RStr("1e-8"))
       /\ (~IsB(geo, f) /\ ext(q.r)) => RNear(ob[f].r[v], w[q.r][v], sc, RStr("1e-8"))>>}
---------------------------------------------------------------------------
\* S08: the assembled matrix, as a list of blocks <<row, column, rows of the block>> in global cell numbers
JTol == RStr("1e-5")
JacobianClauses(e) ==
  LET u == State(e.r[1].s + 1) IN
  LET rows == UNION {{<<k, j>> : j \in 1..Len(e.r[k].blocks)} : k \in 1..Len(e.r)} IN
  LET blk(p) == e.r[p[1]].blocks[p[2]] IN
  LET at == TLCEval([ij \in {<<blk(p)[1] + 1, blk(p)[2] + 1>> : p \in rows} |-> CHOOSE p \in rows : blk(p)[1] + 1 = ij[1] /\ blk(p)[2] + 1 = ij[2]]) IN
  LET pairs == {<<i, i>> : i \in 1..geo.n} \cup {ij \in (1..geo.n) \X (1..geo.n) : \E k \in 1..Len(geo.edge[ij[1]]) : Beyond(geo, geo.edge[ij[1]][k], ij[1]) = ij[2]} IN
  IF DOMAIN at # pairs \/ Cardinality(rows) # Cardinality(pairs) THEN {<<"couples_face_neighbours", FALSE>>} ELSE
  LET kf == TLCEval([f \in 1..geo.nf |-> FaceKinked(S, geo, G, BC, UInf, u, f)]) IN
  LET usable(i, j) == \A k \in 1..Len(geo.edge[i]) : ((i = j \/ Beyond(geo, geo.edge[i][k], i) = j) => ~kf[geo.edge[i][k]]) IN
  LET sc(fd) == R1 \oplus RAbsMax([f \in 1..geo.nf |-> IF kf[f] THEN R0 ELSE MatMax(fd[f].l)]) IN
  LET obm(i, j) == LET b == blk(at[<<i, j>>])[3] IN [k \in 1..4 |-> RStrs(b[k])] IN
  LET agrees(fd) == \A ij \in pairs : usable(ij[1], ij[2]) =>
        MatNear(obm(ij[1], ij[2]), IF ij[1] = ij[2] THEN DiagBlock(geo, fd, ij[1]) ELSE OffBlock(geo, fd, ij[1], ij[2]), sc(fd), JTol) IN
  LET fd == FaceDerivs(S, geo, G, BC, UInf, u, FALSE) IN
  LET ok == agrees(fd) IN
  LET name == "matrix_" \o S.jflux \o (IF S.visc THEN IF S.cvisc THEN "_viscous" ELSE "_sutherland" ELSE "") IN
  LET deviates == ~ok /\ (S.jflux = "ROE" \/ (S.visc /\ ~S.cvisc)) /\ agrees(FaceDerivs(S, geo, G, BC, UInf, u, TRUE)) IN
  IF Prop = "C03" THEN {<<"jacobian_named_" \o S.jflux, ok \/ deviates>>} ELSE {<<IF deviates THEN "known_" \o name ELSE name, ok>>}
---------------------------------------------------------------------------
\* L02: what the matrix set up for the mesh holds after assembly
AllocationClauses(e) ==
  LET nv == IF C.kind = "flow" THEN 4 ELSE 1 IN
  LET P == 1..Len(e.r) IN
  LET before(k) == LET c[x \in 0..Len(e.r)] == IF x = 0 THEN 0 ELSE c[x - 1] + Len(e.r[x].gi) IN c[k - 1] IN
  LET rows == UNION {{<<k, j>> : j \in 1..Len(e.r[k].blocks)} : k \in P} IN
  LET pairs == {<<i, i>> : i \in 1..geo.n} \cup {ij \in (1..geo.n) \X (1..geo.n) : \E k \in 1..Len(geo.edge[ij[1]]) : Beyond(geo, geo.edge[ij[1]][k], ij[1]) = ij[2]} IN
  {<<"size", \A k \in P : e.r[k].rows = nv * geo.n /\ e.r[k].cols = nv * geo.n /\ e.r[k].bs = nv /\ ~e.r[k].free>>,
   <<"rows_owned", \A k \in P : e.r[k].lo = nv * before(k) /\ e.r[k].hi = e.r[k].lo + nv * Len(e.r[k].gi) /\ \A j \in 1..Len(e.r[k].gi) : e.r[k].gi[j] = before(k) + j - 1>>,
   <<"couples_face_neighbours", Cardinality(rows) = Cardinality(pairs) /\ {<<e.r[p[1]].blocks[p[2]][1] + 1, e.r[p[1]].blocks[p[2]][2] + 1>> : p \in rows} = pairs
                                /\ \A p \in rows : e.r[p[1]].blocks[p[2]][3] = nv * nv>>,
   <<"no_further_allocation", \A k \in P : e.r[k].mallocs = 0>>}
\* L03: y = T x - (directional derivative of the residual along x), T the given pseudo-time terms
MatFreeClauses(e) ==
  LET flow == C.kind = "flow" IN LET nv == IF flow THEN 4 ELSE 1 IN
  IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>} ELSE
  LET u == TLCEval([i \in 1..geo.n |-> RStrs(C.u[e.r[1].s + 1][i])]) IN
  LET x == TLCEval([i \in 1..geo.n |-> RStrs(C.x[i])]) IN
  LET t == RStrs(C.t) IN
  LET norm == RSqrt(RSum([i \in 1..geo.n |-> RDot(x[i], x[i])])) IN
  LET h == RStr("1e-7") \oslash norm IN
  LET w == TLCEval([i \in 1..geo.n |-> VAdd(u[i], VScale(h, x[i]))]) IN
  LET fs(v) == FaceStates(S, geo, G, BC, UInf, v) IN
  LET fine == ~flow \/ (StatesFine(G, geo, u, fs(u)) /\ StatesFine(G, geo, w, fs(w))) IN
  IF ~fine THEN Skip(C.id) ELSE
  \* the net outward flux of every cell
  LET net(v) == IF flow THEN LET fl == AllFluxes(S, geo, G, v, fs(v)) IN TLCEval([i \in 1..geo.n |-> Outward(geo, fl, i)])
                ELSE LET d == DResidual(geo, Nu, C.num.grad, RStr(C.diff.b), RStrs(C.diff.c), [i \in 1..geo.n |-> v[i]]) IN TLCEval([i \in 1..geo.n |-> <<d[i]>>]) IN
  LET n0 == net(u) IN LET n1 == net(w) IN
  LET want == TLCEval([i \in 1..geo.n |-> VAdd(VScale(t[i], x[i]), VScale(R1 \oslash h, VSub(n1[i], n0[i])))]) IN
  LET big == RAbsMax([i \in 1..geo.n |-> RAbsMax(n0[i])]) IN
  LET flx == IF flow THEN LET fl == AllFluxes(S, geo, G, u, fs(u)) IN RAbsMax([f \in 1..geo.nf |-> RAbsMax(fl[f])]) ELSE big IN
  LET sc == (RStr("1e-5") \otimes RAbsMax([i \in 1..geo.n |-> RAbsMax(want[i])])) \oplus ((RStr("1e-14") \otimes flx) \oslash h) IN
  {<<"action", \A i \in 1..geo.n : VNear(RStrs(Of(e, i, LAMBDA r, j : r.y[j])), want[i], R1, sc)>>,
   <<"operands_unchanged", \A k \in 1..Len(e.r) : e.r[k].kept>>,
   <<"size", \A k \in 1..Len(e.r) : e.r[k].rows = nv * geo.n /\ e.r[k].cols = nv * geo.n /\ e.r[k].free>>}
---------------------------------------------------------------------------
\* reported quantities; the gradients at the walls are those of the conserved variables
F5 == RStr("1.5e-5")       \* written with six digits
F9 == RStr("1e-9")
Rows(e) == UNION {{<<k, j>> : j \in 1..Len(e.r[k].rows)} : k \in 1..Len(e.r)}
\* the observed rows belong to the faces, each once: a bijection by position
AtFace(row, f) == VNear(<<RStr(row[1]), RStr(row[2])>>, geo.face[f].mid, RAbsMax([i \in 1..geo.n |-> RAbsMax(geo.cen[i])]) \oplus geo.face[f].len, F5)
OneToOne(rows, fs) == Len(rows) = Cardinality(fs) /\ \A f \in fs : Cardinality({j \in 1..Len(rows) : AtFace(rows[j], f)}) = 1
RowOf(rows, f) == rows[CHOOSE j \in 1..Len(rows) : AtFace(rows[j], f)]
AllRows(e) == LET a[k \in 0..Len(e.r)] == IF k = 0 THEN <<>> ELSE a[k - 1] \o e.r[k].rows IN a[Len(e.r)]
WallChecks(rows, f3, tag, u, gr, tol) ==
  LET W == WallFaces(geo, tag) IN
  IF ~OneToOne(rows, W) THEN {<<"wall_faces_once", FALSE>>} ELSE
  LET want == [f \in W |-> WallRow(geo, G, S.cvisc, u, gr, f)] IN
  LET top == RAbsMax([i \in 1..geo.n |-> Pres(G, u[i])]) \oplus PInf(G) IN
  LET fr == R1 \oplus SumOver(W, LAMBDA f : RAbs(want[f][4])) IN
  LET frs == Forces(geo, G, S.cvisc, u, gr, tag, RStr(C.aoa)) IN
  {<<"pressure_coefficient", \A f \in W : RNear(RStr(RowOf(rows, f)[3]), want[f][3], top, tol)>>}
  \cup (IF S.visc THEN {<<"friction_coefficient", \A f \in W : RNear(RStr(RowOf(rows, f)[4]), want[f][4], fr, tol)>>} ELSE {})
  \cup (IF W = {} THEN {} ELSE
  {<<"lift_and_drag", \A k \in 1..Len(f3) : VNear(<<RStr(f3[k][1]), RStr(f3[k][2])>>, <<frs[1], frs[2]>>, top, tol)>>,
   <<"friction_drag", S.visc => \A k \in 1..Len(f3) : RNear(RStr(f3[k][3]), frs[3], fr, tol)>>})
SurfaceClauses(e) ==
  LET u == State(e.r[1].s + 1) IN
  WallChecks(AllRows(e), [k \in 1..Len(e.r) |-> e.r[k].f], e.r[1].marker, u, Gradients(S.grad, geo, u, Ghosts(geo, G, BC, UInf, u)), F9)
EntropyClauses(e) ==
  LET x == EntropyError(geo, G, State(e.r[1].s + 1), UInf) IN
  {<<"entropy_error", \A k \in 1..Len(e.r) : RNear(RStr(e.r[k].err), x, R1, F9)>>}
PS(u, v) == PointState(geo, C.mesh, u, v - 1)
PointClauses(e) ==
  LET u == State(e.r[1].s + 1) IN LET o == e.r[1] IN LET n == Len(C.mesh.pts) IN
  IF Len(o.sc) # n \/ Len(o.ve) # n THEN {<<"every_point_once", FALSE>>} ELSE
  LET st == TLCEval([v \in 1..n |-> PS(u, v)]) IN
  {<<"point_values", \A v \in 1..n : VNear(RStrs(o.sc[v]), PointRow(G, st[v]), RAbsMax(PointRow(G, st[v])), F9)>>,
   <<"point_velocities", \A v \in 1..n : VNear(RStrs(o.ve[v]), Vel(st[v]), R1, F9)>>}
CellClauses(e) ==
  LET u == State(e.r[1].s + 1) IN LET o == e.r[1] IN
  IF Len(o.sc) # geo.n \/ Len(o.ve) # geo.n THEN {<<"every_cell_once", FALSE>>} ELSE
  {<<"cell_values", \A i \in 1..geo.n : VNear(RStrs(o.sc[i]), CellRow(G, u[i]), RAbsMax(CellRow(G, u[i])), F9)>>,
   <<"cell_velocities", \A i \in 1..geo.n : VNear(RStrs(o.ve[i]), Vel(u[i]), R1, F9)>>}
ScalarPointClauses(e) ==
  LET u == TLCEval([i \in 1..geo.n |-> <<RStr(C.u[e.r[1].s + 1][i][1])>>]) IN LET o == e.r[1] IN LET n == Len(C.mesh.pts) IN
  IF Len(o.v) # n THEN {<<"every_point_once", FALSE>>} ELSE
  {<<"scalar_point_values", \A v \in 1..n : RNear(RStr(o.v[v][1]), PS(u, v)[1], R1 \oplus RAbs(PS(u, v)[1]), F9)>>}
\* files, as parsed: tables of numbers, and grids with points, cells, offsets, types and named arrays
Rotation(s, t) == Len(s) = Len(t) /\ \E k \in 0..(Len(s) - 1) : \A j \in 1..Len(s) : s[j] = t[((j + k - 1) % Len(t)) + 1]
GridClauses(name, g) ==
  LET M == C.mesh IN LET n == Len(M.pts) IN LET nc == Len(M.cells) IN
  LET from(i) == IF i = 1 THEN 0 ELSE g.offsets[i - 1] IN
  LET P == Points(M, RStr(C.scale)) IN LET sc == RAbsMax([v \in 1..n |-> RAbsMax(P[v])]) IN
  {<<name \o "_points", g.np = n /\ Len(g.points) = n /\ \A v \in 1..n : VNear(RStrs(g.points[v]), <<P[v][1], P[v][2], R0>>, sc, F9)>>,
   <<name \o "_cells", g.nc = nc /\ Len(g.offsets) = nc /\ Len(g.types) = nc
        /\ \A i \in 1..nc : g.offsets[i] - from(i) = Len(M.cells[i]) /\ g.types[i] = (IF Len(M.cells[i]) = 3 THEN 5 ELSE 9)
        /\ Len(g.conn) = g.offsets[nc] /\ \A j \in 1..nc : Rotation(SubSeq(g.conn, from(j) + 1, g.offsets[j]), M.cells[j])>>}
Named(g, nm) == LET S1 == {k \in 1..Len(g.arrays) : g.arrays[k][1] = nm} IN IF Cardinality(S1) # 1 THEN <<>> ELSE g.arrays[CHOOSE k \in S1 : TRUE][2]
DataClauses(name, g, where, names, row(_), vel(_), n, tol) ==
  LET ve == Named(g, "velocity") IN
  {<<name \o "_values", g.where = where /\ Len(g.arrays) = Len(names) + 1
      /\ (\A k \in 1..Len(names) : LET a == Named(g, names[k]) IN Len(a) = n /\ \A i \in 1..n : Len(a[i]) = 1 /\ RNear(RStr(a[i][1]), row(i)[k], RAbs(row(i)[k]), tol))
      /\ Len(ve) = n /\ \A i \in 1..n : Len(ve[i]) = 3 /\ VNear(RStrs(ve[i]), <<vel(i)[1], vel(i)[2], R0>>, R1, tol)>>}
\* a volume file's rows, in any order of the cells
VolumeRows(rows, u) == Len(rows) = geo.n /\ (\A k \in 1..geo.n : Len(rows[k]) = 8) /\ \A i \in 1..geo.n :
  LET w == VolumeRow(geo, G, u, i) IN Cardinality({k \in 1..geo.n : VNear(RStrs(rows[k]), w, RAbsMax(w), F5)}) >= 1
WallFiles(walls, others, u, gr) ==
  {<<"wall_files", {walls[k][1] : k \in 1..Len(walls)} = {C.walls[k] : k \in 1..Len(C.walls)}>>,
   <<"other_files", {others[k][1] : k \in 1..Len(others)} = {C.others[k] : k \in 1..Len(C.others)}>>}
  \cup UNION {WallChecks(walls[k][2], <<walls[k][3]>>, walls[k][1], u, gr, F5) : k \in 1..Len(walls)}
  \cup UNION {LET W == WallFaces(geo, others[k][1]) IN LET rows == others[k][2] IN
       IF ~OneToOne(rows, W) THEN {<<"other_faces_once", FALSE>>} ELSE {<<"other_velocities", \A f \in W : VNear(RStrs(RowOf(rows, f)), OtherRow(geo, u, f), R1 \oplus RAbsMax(geo.face[f].mid), F5)>>} : k \in 1..Len(others)}
PointFields(gr, u, tol) == LET st == TLCEval([v \in 1..Len(C.mesh.pts) |-> PS(u, v)]) IN
  DataClauses("point_grid", gr, "PointData", <<"density", "mach-number", "pressure", "temperature">>, LAMBDA v : PointRow(G, st[v]), LAMBDA v : Vel(st[v]), Len(C.mesh.pts), tol)
FileClauses(e) ==
  LET o == e.r[1] IN LET u == State(o.s + 1) IN
  {<<"volume_file", Len(o.vol) = geo.n /\ \A i \in 1..geo.n : Len(o.vol[i]) = 8 /\ LET w == VolumeRow(geo, G, u, i) IN VNear(RStrs(o.vol[i]), w, RAbsMax(w), F5)>>}
  \cup WallFiles(o.walls, o.others, u, Gradients(S.grad, geo, u, Ghosts(geo, G, BC, UInf, u)))
  \cup GridClauses("point_grid", o.pvtu) \cup GridClauses("cell_grid", o.cvtu) \cup GridClauses("mesh_grid", o.mvtu)
  \cup PointFields(o.pvtu, u, F9)
  \cup DataClauses("cell_grid", o.cvtu, "CellData", <<"density", "mach-number", "pressure">>, LAMBDA i : CellRow(G, u[i]), LAMBDA i : Vel(u[i]), geo.n, F9)
---------------------------------------------------------------------------
DU(k) == TLCEval([i \in 1..geo.n |-> <<RStr(C.u[k][i][1])>>])
DiffusionClauses(e) ==
  IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>} ELSE
  LET u == DU(e.r[1].s + 1) IN
  LET b == RStr(C.diff.b) IN LET c == RStrs(C.diff.c) IN
  LET res == DResidual(geo, Nu, C.num.grad, b, c, u) IN
  LET fl == DFlux(geo, Nu, C.num.grad, b, u) IN
  LET sc == RAbsMax(res) \oplus RAbsMax([f \in 1..geo.nf |-> fl[f][1]]) IN
  {<<"diffusion_residual", \A i \in 1..geo.n : RNear(RStr(Of(e, i, LAMBDA r, j : r.r[j][1])), RNeg(res[i]), sc, Tol)>>,
   <<"diffusion_time_step", \A i \in 1..geo.n : LET d == DStep(geo, Nu, i) IN RNear(RStr(Of(e, i, LAMBDA r, j : r.dt[j])), d, d, Tol)>>}
DiffusionGradClauses(e) ==
  IF ~Covered(e) THEN {<<"every_cell_once", FALSE>>} ELSE
  LET u == DU(e.r[1].s + 1) IN
  LET gr == Gradients(C.num.grad, geo, u, DGhosts(geo, RStr(C.diff.b), u)) IN
  LET sc == R1 \oplus RAbsMax([i \in 1..geo.n |-> RMax(RAbsMax(gr[i][1]), RAbsMax(gr[i][2]))]) IN
  {<<"diffusion_gradients", \A i \in 1..geo.n : \A d \in 1..2 : VNear(RStrs(Of(e, i, LAMBDA r, j : r.g[j][d])), gr[i][d], sc, Tol)>>}
DiffusionJacClauses(e) ==
  LET rows == UNION {{<<k, j>> : j \in 1..Len(e.r[k].blocks)} : k \in 1..Len(e.r)} IN
  LET blk(p) == e.r[p[1]].blocks[p[2]] IN
  LET at == TLCEval([ij \in {<<blk(p)[1] + 1, blk(p)[2] + 1>> : p \in rows} |-> CHOOSE p \in rows : blk(p)[1] + 1 = ij[1] /\ blk(p)[2] + 1 = ij[2]]) IN
  LET pairs == {<<i, i>> : i \in 1..geo.n} \cup {ij \in (1..geo.n) \X (1..geo.n) : \E k \in 1..Len(geo.edge[ij[1]]) : Beyond(geo, geo.edge[ij[1]][k], ij[1]) = ij[2]} IN
  IF DOMAIN at # pairs \/ Cardinality(rows) # Cardinality(pairs) THEN {<<"couples_face_neighbours", FALSE>>} ELSE
  LET v(i, j) == RStr(blk(at[<<i, j>>])[3][1][1]) IN
  LET between(i, j) == RSum([k \in 1..Len(geo.edge[i]) |-> LET f == geo.edge[i][k] IN IF Beyond(geo, f, i) = j THEN DCoef(geo, Nu, f) ELSE R0]) IN
  LET sc == RAbsMax([i \in 1..geo.n |-> DDiag(geo, Nu, i)]) IN
  LET dg(bw) == \A i \in 1..geo.n : RNear(v(i, i), DDiag(geo, Nu, i) \ominus
        RSum([k \in 1..Len(geo.edge[i]) |-> LET f == geo.edge[i][k] IN IF IsB(geo, f) THEN bw \otimes DCoef(geo, Nu, f) ELSE R0]), sc, Tol) IN
  {<<"diffusion_offdiagonal", \A ij \in pairs : ij[1] # ij[2] => RNear(v(ij[1], ij[2]), RNeg(between(ij[1], ij[2])), sc, Tol)>>,
<<"diffusion_diagonal", dg(R0)>>}
---------------------------------------------------------------------------
\* the nonlinear update scheme of a name: the full step, or a step that is cut to the given minimum when the density would change
\* by more than what is left of it (O03 determines it in full)
UpdateClauses(e) ==
  LET w == RStr(e.w) IN LET u == RStrs(C.uu) IN LET du == RStrs(C.duu) IN LET mf == RStr(C.minf) IN
  {<<"update_named_" \o e.name,
     IF e.name = "FULL" THEN w = R1
     ELSE /\ mf \preceq w /\ w \preceq R1
          /\ ((R1 \ominus mf) \prec (RAbs(du[1]) \oslash u[1])) => w = mf
          /\ (\A k \in 1..4 : du[k] = R0) => w = R1>>}
\* C03: unknown names are refused, and only they
NameClauses(e) ==
  IF e.event = "Exception" THEN {<<"documented_name_accepted", ~Known(C.names)>>}
  ELSE {<<"unknown_name_refused", Known(C.names)>>}
---------------------------------------------------------------------------
EventClauses(e) ==
  CASE e.event = "Residual" -> IF Prop = "S03" THEN FreeStreamClauses(e) ELSE ResidualClauses(e)
    [] e.event = "StateGradients" -> GradStateClauses(e)
    [] e.event = "Gradients" -> GradientClauses(e)
    [] e.event = "Recon" -> ReconClauses(e)
    [] e.event = "Jacobian" -> JacobianClauses(e)
    [] e.event = "Diffusion" -> DiffusionClauses(e)
    [] e.event = "DiffusionGradients" -> DiffusionGradClauses(e)
    [] e.event = "DiffusionJacobian" -> DiffusionJacClauses(e)
    [] e.event = "Allocation" -> AllocationClauses(e)
    [] e.event = "MatFree" -> MatFreeClauses(e)
    [] e.event = "Surface" -> SurfaceClauses(e)
    [] e.event = "Entropy" -> EntropyClauses(e)
    [] e.event = "Points" -> PointClauses(e)
    [] e.event = "CellValues" -> CellClauses(e)
    [] e.event = "ScalarPoints" -> ScalarPointClauses(e)
    [] e.event = "Files" -> FileClauses(e)
    [] e.event = "Update" -> UpdateClauses(e)
    [] OTHER -> {<<"unexplained_" \o e.event, FALSE>>}
Clauses(e) ==
  IF Prop # "C03" \/ e.event \in {"Crash", "Hang"} THEN EventClauses(e)
  ELSE IF e.event = "Exception" \/ ~Known(C.names) THEN NameClauses(e)
  ELSE EventClauses(e)
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ geo = Geometry(C.mesh, RStr(C.scale))
Step1 == /\ pos < Len(C.ev)
         /\ pos' = pos + 1 /\ UNCHANGED <<ci, geo>>
         /\ bad' = bad \cup {Prop \o "." \o c : c \in Failed(Clauses(Ev))}
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
=============================================================================
