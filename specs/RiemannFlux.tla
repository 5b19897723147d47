----------------------------- MODULE RiemannFlux -----------------------------
(* The inviscid numerical fluxes, by their published definitions.                  *)
EXTENDS Gas
Side(G, u, n) == LET p == Pres(G, u) IN TLCEval([v |-> Vel(u), vn |-> Vn(u, n), p |-> p, c |-> Sound(G, u[1], p), H |-> (u[4] \oplus p) \oslash u[1]])
LaxFriedrichs(G, l, r, n) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN
  LET eig == RMax(RAbs(a.vn) \oplus a.c, RAbs(b.vn) \oplus b.c) IN
  VScale(Half, VSub(VAdd(EulerFlux(G, l, n), EulerFlux(G, r, n)), VScale(eig, VSub(r, l))))
\* Van Leer's flux vector splitting: positive part, and the negative part by reflection
VLplus(G, u, n) ==
  LET a == Side(G, u, n) IN LET M == a.vn \oslash a.c IN
  IF M \prec RInt(-1) THEN <<R0, R0, R0, R0>>
  ELSE IF R1 \prec M THEN EulerFlux(G, u, n)
  ELSE LET f == (u[1] \otimes a.c \otimes RSq(M \oplus R1)) \oslash R4 IN
       LET k == ((R2 \otimes a.c) \ominus a.vn) \oslash G.g IN
       LET e == RSq((Gm1(G) \otimes a.vn) \oplus (R2 \otimes a.c)) \oslash (R2 \otimes (RSq(G.g) \ominus R1)) IN
       <<f, f \otimes (a.v[1] \oplus (k \otimes n[1])), f \otimes (a.v[2] \oplus (k \otimes n[2])),
         f \otimes (((Dot2(a.v, a.v) \ominus RSq(a.vn)) \oslash R2) \oplus e)>>
VanLeer(G, l, r, n) == VSub(VLplus(G, l, n), VLplus(G, r, VNeg(n)))
\* Liou & Steffen's AUSM
AusmM(M) == IF RAbs(M) \preceq R1 THEN RQ(1, 4) \otimes RSq(M \oplus R1) ELSE Half \otimes (M \oplus RAbs(M))
AusmP(M) == IF RAbs(M) \preceq R1 THEN (RQ(1, 4) \otimes RSq(M \oplus R1)) \otimes (R2 \ominus M) ELSE IF R0 \prec M THEN R1 ELSE R0
Advect(G, l, r, cl, cr, M) ==
  LET Q(u, c) == VScale(c, <<u[1], u[2], u[3], u[4] \oplus Pres(G, u)>>) IN
  IF R0 \preceq M THEN VScale(M, Q(l, cl)) ELSE VScale(M, Q(r, cr))
WithPressure(F, p, n) == <<F[1], F[2] \oplus (p \otimes n[1]), F[3] \oplus (p \otimes n[2]), F[4]>>
Ausm(G, l, r, n) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN
  LET Ml == a.vn \oslash a.c IN LET Mr == b.vn \oslash b.c IN
  LET M == AusmM(Ml) \ominus AusmM(RNeg(Mr)) IN
  LET p == (AusmP(Ml) \otimes a.p) \oplus (AusmP(RNeg(Mr)) \otimes b.p) IN
  WithPressure(Advect(G, l, r, a.c, b.c, M), p, n)
\* Liou's AUSM+ with its interface sound speed
AusmPlusM(M) == IF RAbs(M) \preceq R1 THEN (RQ(1, 4) \otimes RSq(M \oplus R1)) \oplus (RQ(1, 8) \otimes RSq(RSq(M) \ominus R1)) ELSE Half \otimes (M \oplus RAbs(M))
AusmPlusP(M) == IF RAbs(M) \preceq R1
                THEN ((RQ(1, 4) \otimes RSq(M \oplus R1)) \otimes (R2 \ominus M)) \oplus (RQ(3, 16) \otimes M \otimes RSq(RSq(M) \ominus R1))
                ELSE IF R0 \prec M THEN R1 ELSE R0
AusmPlusC(G, l, r, n) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN
  LET cs2(s) == (R2 \otimes Gm1(G) \otimes s.H) \oslash (G.g \oplus R1) IN      \* square of the critical sound speed
  LET cl == cs2(a) \oslash RMax(RSqrt(cs2(a)), a.vn) IN
  LET cr == cs2(b) \oslash RMax(RSqrt(cs2(b)), RNeg(b.vn)) IN
  RMin(cl, cr)
AusmPlus(G, l, r, n) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN LET c == AusmPlusC(G, l, r, n) IN
  LET Ml == a.vn \oslash c IN LET Mr == b.vn \oslash c IN
  LET M == AusmPlusM(Ml) \ominus AusmPlusM(RNeg(Mr)) IN
  LET p == (AusmPlusP(Ml) \otimes a.p) \oplus (AusmPlusP(RNeg(Mr)) \otimes b.p) IN
  WithPressure(Advect(G, l, r, c, c, M), p, n)
\* Roe averages
RoeAvg(G, l, r, n) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN
  LET w == RSqrt(r[1] \oslash l[1]) IN
  LET av(x, y) == (x \oplus (w \otimes y)) \oslash (w \oplus R1) IN
  LET v == <<av(a.v[1], b.v[1]), av(a.v[2], b.v[2])>> IN LET H == av(a.H, b.H) IN
  TLCEval([rho |-> w \otimes l[1], v |-> v, v2 |-> Dot2(v, v), vn |-> Dot2(v, n), H |-> H,
           c |-> RSqrt(Gm1(G) \otimes (H \ominus (Half \otimes Dot2(v, v))))])
\* Roe's flux with Harten's entropy fix below 1e-4 of the sound speed
RoeEps == RStr("1e-4")
Harten(x, d) == LET y == RAbs(x) IN IF y \prec d THEN (RSq(y) \oplus RSq(d)) \oslash (R2 \otimes d) ELSE y
\* mod(i, x, d): modulus of the i-th wave speed x, with the entropy fix of width d
RoeWith(G, l, r, n, mod(_, _, _)) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN LET q == RoeAvg(G, l, r, n) IN
  LET d == RoeEps \otimes q.c IN LET c2 == RSq(q.c) IN
  LET dp == b.p \ominus a.p IN LET dvn == b.vn \ominus a.vn IN
  LET dv == VSub(b.v, a.v) IN
  LET w1 == mod(1, q.vn \ominus q.c, d) \otimes ((dp \ominus (q.rho \otimes q.c \otimes dvn)) \oslash (R2 \otimes c2)) IN
  LET w4 == mod(3, q.vn \oplus q.c, d) \otimes ((dp \oplus (q.rho \otimes q.c \otimes dvn)) \oslash (R2 \otimes c2)) IN
  LET l2 == mod(2, q.vn, d) IN
  LET w2 == l2 \otimes ((r[1] \ominus l[1]) \ominus (dp \oslash c2)) IN
  LET w3 == l2 \otimes q.rho IN
  LET minus == <<R1, q.v[1] \ominus (q.c \otimes n[1]), q.v[2] \ominus (q.c \otimes n[2]), q.H \ominus (q.c \otimes q.vn)>> IN
  LET plus == <<R1, q.v[1] \oplus (q.c \otimes n[1]), q.v[2] \oplus (q.c \otimes n[2]), q.H \oplus (q.c \otimes q.vn)>> IN
  LET entr == <<R1, q.v[1], q.v[2], Half \otimes q.v2>> IN
  LET shear == <<R0, dv[1] \ominus (dvn \otimes n[1]), dv[2] \ominus (dvn \otimes n[2]), Dot2(q.v, dv) \ominus (q.vn \otimes dvn)>> IN
  LET diss == VAdd(VAdd(VScale(w1, minus), VScale(w4, plus)), VAdd(VScale(w2, entr), VScale(w3, shear))) IN
  VScale(Half, VSub(VAdd(EulerFlux(G, l, n), EulerFlux(G, r, n)), diss))
Roe(G, l, r, n) == RoeWith(G, l, r, n, LAMBDA i, x, d : Harten(x, d))
\* Einfeldt's signal speeds
SignalL(G, l, r, n) == LET a == Side(G, l, n) IN LET q == RoeAvg(G, l, r, n) IN RMin(a.vn \ominus a.c, q.vn \ominus q.c)
SignalR(G, l, r, n) == LET b == Side(G, r, n) IN LET q == RoeAvg(G, l, r, n) IN RMax(b.vn \oplus b.c, q.vn \oplus q.c)
Hll(G, l, r, n) ==
  LET sl == SignalL(G, l, r, n) IN LET sr == SignalR(G, l, r, n) IN
  LET fl == EulerFlux(G, l, n) IN LET fr == EulerFlux(G, r, n) IN
  IF R0 \preceq sl THEN fl ELSE IF sr \preceq R0 THEN fr
  ELSE VScale(R1 \oslash (sr \ominus sl), VAdd(VSub(VScale(sr, fl), VScale(sl, fr)), VScale(sl \otimes sr, VSub(r, l))))
\* HLLC (Batten et al.)
Contact(G, l, r, n) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN LET sl == SignalL(G, l, r, n) IN LET sr == SignalR(G, l, r, n) IN
  ((((r[1] \otimes b.vn) \otimes (sr \ominus b.vn)) \ominus ((l[1] \otimes a.vn) \otimes (sl \ominus a.vn))) \oplus (a.p \ominus b.p))
  \oslash ((r[1] \otimes (sr \ominus b.vn)) \ominus (l[1] \otimes (sl \ominus a.vn)))
StarState(G, u, n, s, sm) ==
  LET a == Side(G, u, n) IN
  LET ps == a.p \oplus (u[1] \otimes (s \ominus a.vn) \otimes (sm \ominus a.vn)) IN LET k == s \ominus a.vn IN
  VScale(R1 \oslash (s \ominus sm),
    <<k \otimes u[1], (k \otimes u[2]) \oplus ((ps \ominus a.p) \otimes n[1]), (k \otimes u[3]) \oplus ((ps \ominus a.p) \otimes n[2]),
      ((k \otimes u[4]) \ominus (a.p \otimes a.vn)) \oplus (ps \otimes sm)>>)
Hllc(G, l, r, n) ==
  LET sl == SignalL(G, l, r, n) IN LET sr == SignalR(G, l, r, n) IN LET sm == Contact(G, l, r, n) IN
  IF R0 \prec sl THEN EulerFlux(G, l, n)
  ELSE IF R0 \prec sm THEN VAdd(EulerFlux(G, l, n), VScale(sl, VSub(StarState(G, l, n, sl, sm), l)))
  ELSE IF R0 \preceq sr THEN VAdd(EulerFlux(G, r, n), VScale(sr, VSub(StarState(G, r, n, sr, sm), r)))
  ELSE EulerFlux(G, r, n)
\* both states (and their average, where a scheme uses it) move at more than the speed of sound in the direction s = 1 or -1;
\* AUSM+ measures this with its own interface sound speed
Supersonic(G, name, l, r, n, s) ==
  LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN LET q == RoeAvg(G, l, r, n) IN
  LET over(v, c) == RStr("1.0000001") \otimes c \prec RInt(s) \otimes v IN
  IF name = "AUSMPLUS" THEN LET c == AusmPlusC(G, l, r, n) IN over(a.vn, c) /\ over(b.vn, c)
  ELSE over(a.vn, a.c) /\ over(b.vn, b.c) /\ over(q.vn, q.c)
NumFlux(G, name, l, r, n) ==
  CASE name = "LLF" -> LaxFriedrichs(G, l, r, n)
    [] name = "VANLEER" -> VanLeer(G, l, r, n)
    [] name = "AUSM" -> Ausm(G, l, r, n)
    [] name = "AUSMPLUS" -> AusmPlus(G, l, r, n)
    [] name = "ROE" -> Roe(G, l, r, n)
    [] name = "HLL" -> Hll(G, l, r, n)
    [] name = "HLLC" -> Hllc(G, l, r, n)
=============================================================================
