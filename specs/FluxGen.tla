------------------------------- MODULE FluxGen --------------------------------
(* Pairs of flow states meeting at a face, by regime: normal Mach numbers on both   *)
(* sides (percent), tangential Mach numbers, density and pressure ratios, face      *)
(* direction. On every pair the specified fluxes have the properties S04 requires;  *)
(* the pairs become test inputs of the implementation.                              *)
EXTENDS RiemannFlux, Json
CONSTANTS EMIT, CHECK
VARIABLES left, right, dir
vars == <<left, right, dir>>
Mach == {-250, -100, -60, 0, 35, 99, 130}
Tan == {-80, 0, 150}
Rho == {40, 100, 250}
P == {30, 100, 220}
Dirs == <<<<100, 0>>, <<0, 100>>, <<-100, 0>>, <<60, 80>>, <<-80, 60>>, <<28, -96>>>>
None == [m |-> 0, t |-> 0, rho |-> 0, p |-> 0]
Init == left = None /\ right = None /\ dir = 0
Orient == dir = 0 /\ dir' \in 1..Len(Dirs) /\ UNCHANGED <<left, right>>
Begin == dir # 0 /\ left = None /\ \E m \in Mach, t \in Tan : left' = [m |-> m, t |-> t, rho |-> 0, p |-> 0] /\ UNCHANGED <<right, dir>>
Left == left # None /\ left.rho = 0 /\ \E r \in {40, 100}, p \in {30, 100} : left' = [left EXCEPT !.rho = r, !.p = p] /\ UNCHANGED <<right, dir>>
Right == /\ left.rho # 0 /\ right = None /\ UNCHANGED <<left, dir>>
         /\ \/ right' = left                                 \* the same state on both sides
            \/ \E m \in Mach, t \in Tan : right' = [m |-> m, t |-> t, rho |-> 0, p |-> 0]
Meet == right # None /\ right.rho = 0 /\ \E r \in Rho, p \in P : right' = [right EXCEPT !.rho = r, !.p = p] /\ UNCHANGED <<left, dir>>
Next == Orient \/ Begin \/ Left \/ Right \/ Meet
Spec == Init /\ [][Next]_vars
Met == right.rho # 0
G == [g |-> RQ(7, 5), M |-> Half, Tinf |-> RInt(288), Re |-> RInt(100), Pr |-> RQ(18, 25)]
Pct(i) == RQ(i, 100)
N == <<Pct(Dirs[dir][1]), Pct(Dirs[dir][2])>>
Cst(s) == LET rho == Pct(s.rho) IN LET p == Pct(s.p) IN LET c == Sound(G, rho, p) IN
  LET a == Pct(s.m) \otimes c IN LET b == Pct(s.t) \otimes c IN
  Cons(G, <<rho, (a \otimes N[1]) \ominus (b \otimes N[2]), (a \otimes N[2]) \oplus (b \otimes N[1]), p>>)
Names == {"LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"}
Pair == <<Cst(left), Cst(right)>>
Near(a, b) == VNear(a, b, R1 \oplus RAbsMax(a) \oplus RAbsMax(b), RStr("1e-10"))
Lawful == (CHECK /\ Met) =>
  LET l == TLCEval(Pair[1]) IN LET r == TLCEval(Pair[2]) IN LET n == TLCEval(N) IN
  \A s \in Names :
    LET f == NumFlux(G, s, l, r, n) IN
    /\ left = right => Near(f, EulerFlux(G, l, n))
    /\ Near(NumFlux(G, s, r, l, VNeg(n)), VNeg(f))
    /\ (s # "LLF" /\ Supersonic(G, s, l, r, n, 1)) => Near(f, EulerFlux(G, l, n))
    /\ (s # "LLF" /\ Supersonic(G, s, l, r, n, -1)) => Near(f, EulerFlux(G, r, n))
    /\ LET c == RQ(3, 5) IN LET d == RQ(4, 5) IN Near(NumFlux(G, s, Rot(c, d, l), Rot(c, d, r), Rot2(c, d, n)), Rot(c, d, f))
Emit == (EMIT /\ Met) => PrintT("PAIR " \o ToJson(<<left.m, left.t, left.rho, left.p, right.m, right.t, right.rho, right.p, Dirs[dir][1], Dirs[dir][2]>>))
=============================================================================
