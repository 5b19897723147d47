-------------------------------- MODULE FluxLin --------------------------------
(* The linearisation each flux scheme promises: the exact derivative, or, for local  *)
(* Lax-Friedrichs and HLL, the derivative with frozen wave speeds.                   *)
(* FluxDeriv gives [l, r]: the columns of dF/dl and dF/dr.                           *)
EXTENDS Deviations
Comb(a, A, b) == TLCEval([k \in 1..4 |-> [i \in 1..4 |-> (a \otimes A[k][i]) \oplus (IF i = k THEN b ELSE R0)]])
ExactDeriv(F(_, _), l, r) == [l |-> JacCols(LAMBDA x : F(x, r), l), r |-> JacCols(LAMBDA x : F(l, x), r)]
FrozenDeriv(G, name, l, r, n) ==
  LET al == JacCols(LAMBDA x : EulerFlux(G, x, n), l) IN LET ar == JacCols(LAMBDA x : EulerFlux(G, x, n), r) IN
  IF name = "LLF" THEN
     LET a == Side(G, l, n) IN LET b == Side(G, r, n) IN LET eig == RMax(RAbs(a.vn) \oplus a.c, RAbs(b.vn) \oplus b.c) IN
     [l |-> Comb(Half, al, Half \otimes eig), r |-> Comb(Half, ar, RNeg(Half \otimes eig))]
  ELSE
     LET sl == SignalL(G, l, r, n) IN LET sr == SignalR(G, l, r, n) IN LET d == sr \ominus sl IN
     IF R0 \preceq sl THEN [l |-> al, r |-> Comb(R0, ar, R0)]
     ELSE IF sr \preceq R0 THEN [l |-> Comb(R0, al, R0), r |-> ar]
     ELSE [l |-> Comb(sr \oslash d, al, RNeg((sl \otimes sr) \oslash d)), r |-> Comb(RNeg(sl \oslash d), ar, (sl \otimes sr) \oslash d)]
FluxDeriv(G, name, l, r, n) ==
  IF name \in {"LLF", "HLL"} THEN FrozenDeriv(G, name, l, r, n)
  ELSE ExactDeriv(LAMBDA x, y : NumFlux(G, name, x, y, n), l, r)
\* what is known to be computed instead (known_findings.txt)
DeviantFluxDeriv(G, name, l, r, n) ==
  IF name = "ROE" THEN ExactDeriv(LAMBDA x, y : DeviantRoe(G, l, r, x, y, n), l, r) ELSE FluxDeriv(G, name, l, r, n)
\* product of matrices given by columns
MatMulC(A, B) == TLCEval([k \in 1..Len(B) |-> [i \in 1..Len(A[1]) |-> RSum([j \in 1..Len(A) |-> A[j][i] \otimes B[k][j]])]])
MatAddC(A, B) == TLCEval([k \in 1..Len(A) |-> VAdd(A[k], B[k])])
MatScaleC(c, A) == TLCEval([k \in 1..Len(A) |-> VScale(c, A[k])])
=============================================================================
