--------------------------------- MODULE Gas ---------------------------------
(* The one ideal-gas model all parts of the solver must agree on: conversions,     *)
(* transport coefficients, fluxes, and the free-stream nondimensionalisation       *)
(* (unit density, velocity magnitude and temperature in the free stream).          *)
(* A gas is a record [g, M, Tinf, Re, Pr] of reals; a conserved state is           *)
(* <<density, x momentum, y momentum, total energy>>; a primitive state has        *)
(* velocities and pressure (or, "primitive 2", temperature) instead.               *)
EXTENDS FReal
GasOf(r) == [g |-> RStr(r.g), M |-> RStr(r.M), Tinf |-> RStr(r.Tinf), Re |-> RStr(r.Re), Pr |-> RStr(r.Pr)]
Gm1(G) == G.g \ominus R1
Mom2(u) == RSq(u[2]) \oplus RSq(u[3])
Vel(u) == <<u[2] \oslash u[1], u[3] \oslash u[1]>>
KinE(u) == (Half \otimes Mom2(u)) \oslash u[1]
Pres(G, u) == Gm1(G) \otimes (u[4] \ominus KinE(u))
Admissible(G, u) == VFin(u) /\ R0 \prec u[1] /\ R0 \prec Pres(G, u)
Sound(G, rho, p) == RSqrt((G.g \otimes p) \oslash rho)
SoundU(G, u) == Sound(G, u[1], Pres(G, u))
GM2(G) == G.g \otimes RSq(G.M)
Temp(G, rho, p) == (GM2(G) \otimes p) \oslash rho
TempU(G, u) == Temp(G, u[1], Pres(G, u))
Enthalpy(G, u) == (u[4] \oplus Pres(G, u)) \oslash u[1]
Entropy(G, u) == Pres(G, u) \oslash RPow(u[1], G.g)
EnergyP(G, p, rho, v2) == (p \oslash Gm1(G)) \oplus (Half \otimes rho \otimes v2)
\* total energy from temperature: internal energy rho T / (g (g-1) M^2)
EnergyT(G, T, rho, v2) == rho \otimes ((T \oslash (Gm1(G) \otimes GM2(G))) \oplus (Half \otimes v2))
RhoPT(G, p, T) == (GM2(G) \otimes p) \oslash T
Prim(G, u) == <<u[1], u[2] \oslash u[1], u[3] \oslash u[1], Pres(G, u)>>
Prim2(G, u) == <<u[1], u[2] \oslash u[1], u[3] \oslash u[1], TempU(G, u)>>
Cons(G, w) == <<w[1], w[1] \otimes w[2], w[1] \otimes w[3], EnergyP(G, w[4], w[1], RSq(w[2]) \oplus RSq(w[3]))>>
PInf(G) == R1 \oslash GM2(G)
FreeStream(G, aoa) == <<R1, RCos(aoa), RSin(aoa), EnergyP(G, PInf(G), R1, R1)>>
\* Sutherland's law and conductivity, nondimensional
SC == RQ(221, 2)
MuT(G, T) == LET s == SC \oslash G.Tinf IN (((R1 \oplus s) \oslash (T \oplus s)) \otimes RPow(T, RQ(3, 2))) \oslash G.Re
MuU(G, u) == MuT(G, TempU(G, u))
MuConst(G) == R1 \oslash G.Re
Kappa(G, mu) == mu \oslash (RSq(G.M) \otimes Gm1(G) \otimes G.Pr)
\* normal velocity and Euler flux
Dot2(a, b) == (a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])
Vn(u, n) == ((u[2] \otimes n[1]) \oplus (u[3] \otimes n[2])) \oslash u[1]
EulerFlux(G, u, n) ==
  LET vn == Vn(u, n) IN LET p == Pres(G, u) IN
  <<vn \otimes u[1], (vn \otimes u[2]) \oplus (p \otimes n[1]), (vn \otimes u[3]) \oplus (p \otimes n[2]), vn \otimes (u[4] \oplus p)>>
\* viscous stress of velocity gradient entries grad[d][v], d = direction, v = variable (2, 3 = velocities)
Stress(mu, grad) ==
  LET div == grad[1][2] \oplus grad[2][3] IN LET l == RQ(2, 3) \otimes mu \otimes div IN
  <<<<(R2 \otimes mu \otimes grad[1][2]) \ominus l, mu \otimes (grad[1][3] \oplus grad[2][2])>>,
    <<mu \otimes (grad[2][2] \oplus grad[1][3]), (R2 \otimes mu \otimes grad[2][3]) \ominus l>>>>
\* rotation of a state by the angle whose cosine and sine are c and s
Rot(c, s, u) == <<u[1], (c \otimes u[2]) \ominus (s \otimes u[3]), (s \otimes u[2]) \oplus (c \otimes u[3]), u[4]>>
Rot2(c, s, n) == <<(c \otimes n[1]) \ominus (s \otimes n[2]), (s \otimes n[1]) \oplus (c \otimes n[2])>>
=============================================================================
