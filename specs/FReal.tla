-------------------------------- MODULE FReal --------------------------------
(* Real arithmetic for the numerical parts of the specification. TLC has no reals; *)
(* the operators below are evaluated in double precision by java/FReal.java, which *)
(* overrides their definitions (a real is an opaque value). The definitions given  *)
(* here only fix the arities: FRealReady fails if the overrides are not in place.  *)
EXTENDS Integers, Sequences, TLC
RInt(n) == n                 RQ(a, b) == a         \* RQ(a, b): the quotient of two integers
RStr(s) == 0                 RToS(a) == "undefined"
RAdd(a, b) == 0              RSub(a, b) == 0
RMul(a, b) == 0              RDiv(a, b) == 0
RNeg(a) == 0                 RAbs(a) == 0
RSqrt(a) == 0                RPow(a, b) == 0
RSin(a) == 0                 RCos(a) == 0
RExp(a) == 0                 RLog(a) == 0
RMax(a, b) == 0              RMin(a, b) == 0
RLt(a, b) == FALSE           RLe(a, b) == FALSE
RFin(a) == FALSE
RSum(s) == 0                 RAbsMax(s) == 0       \* of a sequence
RDot(s, t) == 0
RNear(a, b, scale, tol) == FALSE                   \* |a-b| <= tol*scale
a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
R3 == RInt(3)
R4 == RInt(4)
Half == RQ(1, 2)
RSq(a) == RMul(a, a)
RSgn(a) == IF a \prec R0 THEN RInt(-1) ELSE R1
\* sequences of reals
VAdd(s, t) == <<>>           VSub(s, t) == <<>>
VScale(c, s) == <<>>         RStrs(s) == <<>>      \* RStrs: the numbers written as decimal strings
VNear(s, t, scale, tol) == FALSE                   \* every component agrees to tol relative to the scale
RSolve(m, b) == <<>>         \* solution of the linear system with rows m and right-hand side b
VNeg(s) == VScale(RInt(-1), s)
VFin(s) == \A i \in 1..Len(s) : RFin(s[i])
\* the sequence f(1), ..., f(n), evaluated once
Seq1(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])
ASSUME FRealReady == RToS(RQ(1, 2)) = "0.5" /\ RToS(RStr("1.5") \oplus RInt(2)) = "3.5"
=============================================================================
