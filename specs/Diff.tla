--------------------------------- MODULE Diff ---------------------------------
(* Derivatives of the specification's own functions, by central differences.        *)
EXTENDS FReal
Step(u, k) == RStr("1e-7") \otimes RMax(RAbs(u[k]), R1)
Bump(u, k, h) == [u EXCEPT ![k] = @ \oplus h]
\* derivative of the scalar f with respect to u[k]; of the vector F with respect to u[k] (a column)
DS(f(_), u, k) == LET h == Step(u, k) IN (f(Bump(u, k, h)) \ominus f(Bump(u, k, RNeg(h)))) \oslash (R2 \otimes h)
Grad(f(_), u) == TLCEval([k \in 1..Len(u) |-> DS(f, u, k)])
DCol(F(_), u, k) == LET h == Step(u, k) IN VScale(R1 \oslash (R2 \otimes h), VSub(F(Bump(u, k, h)), F(Bump(u, k, RNeg(h)))))
\* columns of the Jacobian
JacCols(F(_), u) == TLCEval([k \in 1..Len(u) |-> DCol(F, u, k)])
\* one-sided differences disagree: F has a kink within the step
Kinked(F(_), u, tol) ==
  \E k \in 1..Len(u) : LET h == Step(u, k) IN LET f0 == F(u) IN
    LET a == VScale(R1 \oslash h, VSub(F(Bump(u, k, h)), f0)) IN
    LET b == VScale(R1 \oslash h, VSub(f0, F(Bump(u, k, RNeg(h))))) IN
    ~VNear(a, b, R1 \oplus RAbsMax(a) \oplus RAbsMax(b), tol)
Col(m, k) == [i \in 1..Len(m) |-> m[i][k]]
\* a matrix given by rows agrees with one given by columns
MatNear(rows, cols, scale, tol) == \A k \in 1..Len(cols) : VNear(Col(rows, k), cols[k], scale, tol)
MatMax(cols) == RAbsMax([k \in 1..Len(cols) |-> RAbsMax(cols[k])])
=============================================================================
