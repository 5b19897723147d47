------------------------------- MODULE GasTrace -------------------------------
(* Point-wise conformance: thermodynamic functions (S09), numerical fluxes (S04),   *)
(* boundary states (S07) and their linearisations (S08), each recorded evaluation   *)
(* of the code against the specification's definition at the same arguments.        *)
EXTENDS TraceBase, RiemannFlux, Boundary, Diff, Deviations
VARIABLES ci, pos, bad
vars == <<ci, pos, bad>>
C == Cases[ci]
GG == GasOf(C.gas)
Ev == C.ev[pos + 1]
T10 == RStr("1e-10")
T9 == RStr("1e-9")
TJ == RStr("2e-6")
Eq(s, x) == RNear(RStr(s), x, R1 \oplus RAbs(x), T10)
EqV(s, x) == VNear(RStrs(s), x, R1 \oplus RAbsMax(x), T10)
EqM(s, x) == Len(s) = Len(x) /\ \A i \in 1..Len(x) : EqV(s[i], x[i])
RowsOf(m) == [i \in 1..Len(m) |-> RStrs(m[i])]
JEqV(s, x) == VNear(RStrs(s), x, R1 \oplus RAbsMax(x), TJ)
JEqM(s, cols) == MatNear(RowsOf(s), cols, R1 \oplus MatMax(cols), TJ)
\* relative agreement of a vector
RelV(s, x) == VNear(RStrs(s), x, RAbsMax(x), RStr("1e-5"))
\* a clause whose only known failure is the given deviation
OrKnown(name, ok, deviates) == IF ok THEN <<name, TRUE>> ELSE IF deviates THEN <<"known_" \o name, FALSE>> ELSE <<name, FALSE>>
U == RStrs(C.u)
N == RStrs(C.n)
---------------------------------------------------------------------------
StateClauses(G, u, n, du, e) ==
  {<<"pressure", Eq(e.p, Pres(G, u)) /\ Eq(e.pv, Pres(G, u))>>,
   <<"primitive", EqV(e.prim, Prim(G, u))>>, <<"primitive2", EqV(e.prim2, Prim2(G, u))>>,
   <<"round_trip", EqV(e.back, u)>>,
   <<"energy", Eq(e.eprim, u[4]) /\ Eq(e.eprim2, u[4]) /\ Eq(e.ep, u[4]) /\ Eq(e.et, u[4])>>,
   <<"temperature", Eq(e.T, TempU(G, u)) /\ Eq(e.T2, TempU(G, u)) /\ Eq(e.T3, TempU(G, u))>>,
   <<"density", Eq(e.rho, u[1])>>,
   <<"sound_speed", Eq(e.c, SoundU(G, u)) /\ Eq(e.c2, SoundU(G, u))>>,
   <<"entropy", Eq(e.s, Entropy(G, u))>>,
   <<"velocity", EqV(e.v, Vel(u)) /\ Eq(e.vn, Vn(u, n))>>,
   <<"enthalpy", Eq(e.H, Enthalpy(G, u))>>,
   OrKnown("pressure_change", Eq(e.dp, Pres(G, VAdd(u, du)) \ominus Pres(G, u)), Eq(e.dp, DeviantDP(G, u, du))),
   <<"euler_flux", EqV(e.flux, EulerFlux(G, u, n)) /\ EqV(e.flux2, EulerFlux(G, u, n))>>}
\* directional derivative of a scalar function of the state along g
Along(f(_), u, g) == RDot(Grad(f, u), g)
TransportClauses(G, u, gx, gy, aoa, e) ==
  LET gp == Along(LAMBDA x : Pres(G, x), u, gx) IN
  LET gT == Along(LAMBDA x : TempU(G, x), u, gx) IN
  LET gT2 == GM2(G) \otimes (((gx[4] \otimes u[1]) \ominus (Pres(G, u) \otimes gx[1])) \oslash RSq(u[1])) IN
  {<<"viscosity", Eq(e.mu, MuU(G, u)) /\ Eq(e.muT, MuU(G, u)) /\ Eq(e.muc, MuConst(G))>>,
   <<"conductivity", Eq(e.k, Kappa(G, MuU(G, u)))>>,
   <<"stress", EqM(e.stress, Stress(RQ(1, 4), <<gx, gy>>))>>,
   <<"free_stream", EqV(e.uinf, FreeStream(G, aoa)) /\ Eq(e.pinf, PInf(G))>>,
   <<"pressure_gradient", RNear(RStr(e.gpx), gp, R1 \oplus RAbs(gp), TJ)>>,
   <<"temperature_gradient", RNear(RStr(e.gT), gT, R1 \oplus RAbs(gT), TJ) /\ Eq(e.gTp, gT2) /\ Eq(e.gT2, gT2)>>,
   <<"primitive_gradient", JEqV(e.gprim2, [i \in 1..4 |-> Along(LAMBDA x : Prim2(G, x)[i], u, gx)])>>}
DerivClauses(G, u, n, e) ==
  LET sc(f(_), s) == JEqV(s, Grad(f, u)) IN
  {<<"d_pressure", sc(LAMBDA x : Pres(G, x), e.dp) /\ sc(LAMBDA x : Pres(G, x), e.dp2)>>,
   <<"d_speed2", sc(LAMBDA x : Mom2(x) \oslash RSq(x[1]), e.dv2)>>,
   <<"d_sound_speed", sc(LAMBDA x : SoundU(G, x), e.dc)>>,
   <<"d_temperature", sc(LAMBDA x : TempU(G, x), e.dT)>>,
   <<"d_mach", sc(LAMBDA x : MachN(G, x, n), e.dM)>>,
   <<"d_flux", JEqM(e.dF, JacCols(LAMBDA x : EulerFlux(G, x, n), u))>>,
   <<"d_primitive2", JEqM(e.dW2, JacCols(LAMBDA x : Prim2(G, x), u))>>,
   OrKnown("d_viscosity", RelV(e.dmu, Grad(LAMBDA x : MuU(G, x), u)), RelV(e.dmu, DeviantDMu(G, u))),
   OrKnown("d_conductivity", RelV(e.dk, Grad(LAMBDA x : Kappa(G, MuU(G, x)), u)), RelV(e.dk, VScale(Kappa(G, R1), DeviantDMu(G, u)))),
   <<"d_velocity", JEqM(e.dv, JacCols(LAMBDA x : Vel(x), u)) /\ sc(LAMBDA x : Vn(x, n), e.dvn)>>,
   <<"d_enthalpy", sc(LAMBDA x : Enthalpy(G, x), e.dH)>>,
   <<"d_density", JEqV(e.drho, <<R1, R0, R0, R0>>)>>,
   <<"d_energy", JEqV(e.de, <<R0, R0, R0, R1>>)>>}
Prim2Clauses(G, l, r, n, gl, gr, e) ==
  LET conv(u, g) == [d \in 1..2 |-> [g[d] EXCEPT ![4] = GM2(G) \otimes (((g[d][4] \otimes u[1]) \ominus (Pres(G, u) \otimes g[d][1])) \oslash RSq(u[1]))]] IN
  LET vf(mu) ==
    LET st == Stress(mu, gl) IN LET va == VScale(Half, VAdd(Vel(l), Vel(r))) IN
    <<R0, RNeg(Dot2(st[1], n)), RNeg(Dot2(st[2], n)),
      RNeg(Dot2(<<Dot2(st[1], va) \oplus (Kappa(G, mu) \otimes gl[1][4]), Dot2(st[2], va) \oplus (Kappa(G, mu) \otimes gl[2][4])>>, n))>> IN
  {<<"face_states", EqV(e.wl, Prim2(G, l)) /\ EqV(e.wr, Prim2(G, r)) /\ EqV(e.wl1, Prim2(G, l)) /\ EqV(e.wr1, Prim2(G, r))>>,
   <<"face_gradients", EqM(e.gl, conv(l, gl)) /\ EqM(e.gr, conv(r, gr))>>,
   <<"viscous_flux", EqV(e.fc, vf(MuConst(G))) /\ EqV(e.fs, vf(Half \otimes (MuU(G, l) \oplus MuU(G, r))))>>}
---------------------------------------------------------------------------
\* S04
Schemes == {"LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"}
FluxClauses(G, e) ==
  LET l == RStrs(e.l) IN LET r == RStrs(e.r) IN LET n == RStrs(e.n) IN LET f == RStrs(e.f) IN
  LET fl == EulerFlux(G, l, n) IN LET fr == EulerFlux(G, r, n) IN
  LET sc == RAbsMax(l) \oplus RAbsMax(r) \oplus RAbsMax(fl) \oplus RAbsMax(fr) IN
  LET near(a, b) == VNear(a, b, sc, T9) IN
  {<<"definition_" \o e.name, near(f, NumFlux(G, e.name, l, r, n))>>,
   <<"consistent", e.l = e.r => near(f, fl)>>,
   <<"conservative", near(RStrs(e.swapped), VNeg(f))>>,
   <<"rotation_invariant", near(RStrs(e.rotated), Rot(RStr(e.cs[1]), RStr(e.cs[2]), f))>>,
   <<"upwind", e.name # "LLF" =>
       /\ Supersonic(G, e.name, l, r, n, 1) => near(f, fl)
       /\ Supersonic(G, e.name, l, r, n, -1) => near(f, fr)>>}
\* S08, point-wise: L = -dF/dl, U = dF/dr
FluxJacClauses(G, e) ==
  IF "L" \notin DOMAIN e THEN {} ELSE
  LET l == RStrs(e.l) IN LET r == RStrs(e.r) IN LET n == RStrs(e.n) IN
  LET Fl(x) == NumFlux(G, e.name, x, r, n) IN LET Fr(x) == NumFlux(G, e.name, l, x, n) IN
  LET kink == Kinked(Fl, l, RStr("1e-2")) \/ Kinked(Fr, r, RStr("1e-2")) IN
  LET neg(m) == [i \in 1..Len(m) |-> VNeg(RStrs(m[i]))] IN
  LET ok(A, B, dl, dr) == LET s == R1 \oplus MatMax(dl) \oplus MatMax(dr) IN
        MatNear(neg(A), dl, s, RStr("1e-5")) /\ MatNear(RowsOf(B), dr, s, RStr("1e-5")) IN
  LET al == JacCols(LAMBDA x : EulerFlux(G, x, n), l) IN LET ar == JacCols(LAMBDA x : EulerFlux(G, x, n), r) IN
  LET comb(a, A, b) == TLCEval([k \in 1..4 |-> [i \in 1..4 |-> (a \otimes A[k][i]) \oplus (IF i = k THEN b ELSE R0)]]) IN
  IF e.name = "LLF" THEN
     LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN LET eig == RMax(RAbs(a.vn) \oplus a.c, RAbs(b.vn) \oplus b.c) IN
     {<<"frozen_jacobian_" \o e.name, ok(e.L, e.U, comb(Half, al, Half \otimes eig), comb(Half, ar, RNeg(Half \otimes eig)))>>,
      <<"exact_jacobian_" \o e.name, kink \/ ok(e.L2, e.U2, JacCols(Fl, l), JacCols(Fr, r))>>}
  ELSE IF e.name = "HLL" THEN
     LET sl == SignalL(G, l, r, n) IN LET sr == SignalR(G, l, r, n) IN LET d == sr \ominus sl IN
     IF R0 \preceq sl THEN {<<"frozen_jacobian_" \o e.name, ok(e.L, e.U, al, comb(R0, ar, R0))>>}
     ELSE IF sr \preceq R0 THEN {<<"frozen_jacobian_" \o e.name, ok(e.L, e.U, comb(R0, al, R0), ar)>>}
     ELSE {<<"frozen_jacobian_" \o e.name, ok(e.L, e.U, comb(sr \oslash d, al, RNeg((sl \otimes sr) \oslash d)), comb(RNeg(sl \oslash d), ar, (sl \otimes sr) \oslash d))>>}
  ELSE IF e.name = "ROE" THEN
     LET good == kink \/ ok(e.L, e.U, JacCols(Fl, l), JacCols(Fr, r)) IN
     {OrKnown("exact_jacobian_ROE", good,
        ~good /\ ok(e.L, e.U, JacCols(LAMBDA x : DeviantRoe(G, l, r, x, r, n), l), JacCols(LAMBDA x : DeviantRoe(G, l, r, l, x, n), r)))}
  ELSE {<<"exact_jacobian_" \o e.name, kink \/ ok(e.L, e.U, JacCols(Fl, l), JacCols(Fr, r))>>}
---------------------------------------------------------------------------
\* S07
TypeOf(k) == BCTypes[C.types[k] + 1]
KOf(tag) == CHOOSE k \in 1..Len(C.tags) : C.tags[k] = tag
BCOf(k) == [type |-> TypeOf(k), a |-> RStr(C.vals[2*k - 1]), b |-> RStr(C.vals[2*k])]
UInf == FreeStream(GG, RStr(C.aoa))
GhostClauses(G, u, n, e) ==
  LET k == KOf(e.tag) IN LET bc == BCOf(k) IN LET g == Ghost(G, bc, u, n, UInf) IN LET o == RStrs(e.g) IN
  {<<"dispatch", e.ttag = e.tag /\ e.ttype = C.types[k]>>,
   <<bc.type, ~Smooth(G, bc, u, n, T9) \/ EqV(e.g, g)>>,
   <<"slip_invariants", bc.type = "slipwall" =>
        /\ RNear(Pres(G, o), Pres(G, u), R1 \oplus Pres(G, u), T10) /\ RNear(Vn(o, n), RNeg(Vn(u, n)), R1 \oplus RAbs(Vn(u, n)), T10)
        /\ RNear(Vn(o, Tang(n)), Vn(u, Tang(n)), R1 \oplus RAbs(Vn(u, Tang(n))), T10)>>,
   <<"wall_velocity", bc.type \in {"adiabaticwall", "isothermalwall"} =>
        VNear(VScale(Half, VAdd(Vel(o), Vel(u))), VScale(bc.a, Tang(n)), R1 \oplus RAbsMax(Vel(u)) \oplus RAbs(bc.a), T10)>>,
   <<"wall_temperature", bc.type = "isothermalwall" => RNear(Half \otimes (TempU(G, o) \oplus TempU(G, u)), bc.b, R1 \oplus TempU(G, u) \oplus bc.b, T10)>>,
   <<"outflow_pressure", (bc.type = "inflowoutflow" /\ T9 \prec MachN(G, u, n) /\ MachN(G, u, n) \prec RStr("0.99999"))
        => RNear(Pres(G, o), PInf(G), R1 \oplus PInf(G) \oplus KinE(u), T10)>>,
   <<"inflow_direction", bc.type = "subsonic_inflow" => Vn(o, n) \preceq T9>>}
BCsClauses(e) == {<<"markers", {e.keys[i] : i \in 1..Len(e.keys)} = {C.tags[i] : i \in 1..Len(C.tags)}>>}
WallClauses(u, e) == {<<"wall", EqV(e.g, WallGhost(u, RStrs(e.wv)))>>}
BCJacClauses(G, u, n, e) ==
  IF "dg" \notin DOMAIN e THEN {} ELSE
  LET k == KOf(e.tag) IN LET bc == BCOf(k) IN LET F(x) == Ghost(G, bc, x, n, UInf) IN
  {<<bc.type \o "_state", ~Smooth(G, bc, u, n, T9) \/ EqV(e.gj, F(u))>>,
   <<bc.type \o "_jacobian", ~Smooth(G, bc, u, n, RStr("1e-3")) \/ JEqM(e.dg, JacCols(F, u))>>}
WallJacClauses(u, e) == {<<"wall_state", EqV(e.gj, WallGhost(u, RStrs(e.wv)))>>, <<"wall_jacobian", JEqM(e.dg, JacCols(LAMBDA x : WallGhost(x, RStrs(e.wv)), u))>>}
---------------------------------------------------------------------------
Clauses(e) ==
  CASE e.event = "State" -> StateClauses(GG, U, N, RStrs(C.du), e)
    [] e.event = "Transport" -> TransportClauses(GG, U, RStrs(C.gx), RStrs(C.gy), RStr(C.aoa), e)
    [] e.event = "Derivatives" -> DerivClauses(GG, U, N, e)
    [] e.event = "Prim2" -> LET m(g) == <<<<RStr(g[1]), RStr(g[2]), RStr(g[3]), RStr(g[4])>>, <<RStr(g[5]), RStr(g[6]), RStr(g[7]), RStr(g[8])>>>> IN
                            Prim2Clauses(GG, RStrs(C.l), RStrs(C.r), N, m(C.gl), m(C.gr), e)
    [] e.event = "Flux" /\ e.name \in Schemes -> IF Prop = "S08" THEN FluxJacClauses(GG, e) ELSE FluxClauses(GG, e)
    [] e.event = "BCs" -> BCsClauses(e)
    [] e.event = "Ghost" -> IF Prop = "S08" THEN BCJacClauses(GG, U, N, e) ELSE GhostClauses(GG, U, N, e)
    [] e.event = "WallGhost" -> IF Prop = "S08" THEN WallJacClauses(U, e) ELSE WallClauses(U, e)
    [] OTHER -> {<<"unexplained_" \o e.event, FALSE>>}
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {}
Step1 == /\ pos < Len(C.ev)        \* the evaluations are independent of each other
         /\ pos' = pos + 1 /\ UNCHANGED ci
         /\ bad' = bad \cup {Prop \o "." \o c : c \in Failed(Clauses(Ev))}
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
=============================================================================
