------------------------------- MODULE Boundary -------------------------------
(* The ghost state that defines each boundary condition. A boundary is a record     *)
(* [type, a, b]: its type and up to two values (wall speed / wall temperature, or   *)
(* total pressure / total temperature). n is the outward unit normal.               *)
EXTENDS Gas
BCTypes == <<"slipwall", "farfield", "inflowoutflow", "subsonic_inflow", "extrapolation", "periodic", "isothermalwall", "adiabaticwall">>
Tang(n) == <<n[2], RNeg(n[1])>>
\* momentum reflected about the momentum of a wall moving with velocity w
WallMirror(u, w) == <<(R2 \otimes u[1] \otimes w[1]) \ominus u[2], (R2 \otimes u[1] \otimes w[2]) \ominus u[3]>>
MachN(G, u, n) == Vn(u, n) \oslash SoundU(G, u)
SlipGhost(u, n) == LET m == R2 \otimes u[1] \otimes Vn(u, n) IN
  <<u[1], u[2] \ominus (m \otimes n[1]), u[3] \ominus (m \otimes n[2]), u[4]>>
WallGhost(u, w) == LET q == WallMirror(u, w) IN <<u[1], q[1], q[2], u[4]>>
IsoGhost(G, u, n, vt, Tw) ==
  LET q == WallMirror(u, VScale(vt, Tang(n))) IN
  <<u[1], q[1], q[2], EnergyT(G, (R2 \otimes Tw) \ominus TempU(G, u), u[1], (RSq(q[1]) \oplus RSq(q[2])) \oslash RSq(u[1]))>>
InOutGhost(G, u, n, uinf) ==
  LET M == MachN(G, u, n) IN
  IF M \preceq R0 THEN uinf
  ELSE IF M \prec R1 THEN <<u[1], u[2], u[3], EnergyP(G, PInf(G), u[1], Mom2(u) \oslash RSq(u[1]))>>
  ELSE u
\* subsonic inflow with given total pressure and temperature, normal to the boundary: the stagnation sound speed
\* and the Riemann invariant of the wave leaving the domain are those of the interior (Blazek)
InFlowGhost(G, u, n, p0, T0) ==
  LET c == SoundU(G, u) IN
  LET inv == Vn(u, n) \ominus ((R2 \otimes c) \oslash Gm1(G)) IN
  LET c02 == RSq(c) \oplus ((Half \otimes Gm1(G)) \otimes (Mom2(u) \oslash RSq(u[1]))) IN
  LET disc == (((G.g \oplus R1) \otimes c02) \oslash (Gm1(G) \otimes RSq(inv))) \ominus (Half \otimes Gm1(G)) IN
  LET cb == (RNeg(inv) \otimes (Gm1(G) \oslash (G.g \oplus R1))) \otimes (R1 \oplus RSqrt(disc)) IN
  LET T == (T0 \otimes RSq(cb)) \oslash c02 IN
  LET p == p0 \otimes RPow(T \oslash T0, G.g \oslash Gm1(G)) IN
  LET rho == RhoPT(G, p, T) IN
  LET v == RSqrt((R2 \oslash Gm1(G)) \otimes (c02 \ominus RSq(cb))) IN
  <<rho, RNeg(rho \otimes v \otimes n[1]), RNeg(rho \otimes v \otimes n[2]), EnergyP(G, p, rho, RSq(v))>>
Ghost(G, bc, u, n, uinf) ==
  CASE bc.type = "slipwall" -> SlipGhost(u, n)
    [] bc.type = "farfield" -> uinf
    [] bc.type = "inflowoutflow" -> InOutGhost(G, u, n, uinf)
    [] bc.type = "subsonic_inflow" -> InFlowGhost(G, u, n, bc.a, bc.b)
    [] bc.type = "extrapolation" -> u
    [] bc.type = "adiabaticwall" -> WallGhost(u, VScale(bc.a, Tang(n)))
    [] bc.type = "isothermalwall" -> IsoGhost(G, u, n, bc.a, bc.b)
\* the switches of a boundary condition are not within eps of the given state
Smooth(G, bc, u, n, eps) ==
  \/ bc.type # "inflowoutflow"
  \/ LET M == MachN(G, u, n) IN eps \prec RAbs(M) /\ eps \prec RAbs(M \ominus R1)
=============================================================================
