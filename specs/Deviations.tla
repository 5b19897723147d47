------------------------------ MODULE Deviations ------------------------------
(* The functions the implementation is known to compute in place of the specified   *)
(* ones (known_findings.txt). They are part of no property: a recorded evaluation    *)
(* that fails its clause is attributed to a known finding only if it agrees with     *)
(* the deviation described here, so that any other error is still reported.          *)
EXTENDS Boundary, RiemannFlux, Diff
\* S09-dp: the change of pressure sums over y-momentum and energy, with the wrong sign
DeviantDP(G, u, du) ==
  LET w == VAdd(u, du) IN
  LET t(i) == ((Half \otimes (u[i] \oplus w[i]) \otimes (u[1] \oplus w[1])) \otimes du[i]) \ominus ((Half \otimes (RSq(w[i]) \oplus RSq(u[i]))) \otimes du[1]) IN
  Gm1(G) \otimes (du[4] \oplus ((t(3) \oplus t(4)) \oslash (R2 \otimes u[1] \otimes w[1])))
\* S09-dmu: the derivative of Sutherland's law has T^(-3/2) for T^(1/2)
DeviantDMu(G, u) ==
  LET T == TempU(G, u) IN LET s == SC \oslash G.Tinf IN
  LET k == (((R1 \oplus s) \oslash G.Re) \otimes (((RQ(3, 2) \otimes RPow(T, RQ(-3, 2))) \otimes (T \oplus s)) \ominus RPow(T, RQ(3, 2)))) \oslash RSq(T \oplus s) IN
  VScale(k, Grad(LAMBDA x : TempU(G, x), u))
\* S08-roe: inside the entropy fix the corrected wave speed is differentiated as if it were the uncorrected one
\* (l0, r0: the point of linearisation; l, r: the states)
DeviantRoe(G, l0, r0, l, r, n) ==
  LET q == RoeAvg(G, l0, r0, n) IN LET d0 == RoeEps \otimes q.c IN
  LET base == <<q.vn \ominus q.c, q.vn, q.vn \oplus q.c>> IN
  LET mod(i, x, d) ==
     LET y0 == RAbs(base[i]) IN LET a0 == Harten(base[i], d0) IN
     IF y0 \prec d0
     THEN LET h(y, dd) == (RSq((y \ominus y0) \oplus a0) \oplus RSq(dd)) \oslash (R2 \otimes dd) IN
          (h(RSgn(base[i]) \otimes x, d) \ominus h(y0, d0)) \oplus a0
     ELSE RAbs(x) IN
  RoeWith(G, l, r, n, mod)
=============================================================================
