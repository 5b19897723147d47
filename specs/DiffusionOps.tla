----------------------------- MODULE DiffusionOps -----------------------------
(* The diffusion operator: scalar u, diffusivity nu, Dirichlet value b (ghost value   *)
(* 2b - u), source c0 + c1 x + c2 u. States are sequences of one-component cells.     *)
EXTENDS FlowOps
DGhosts(g, b, u) == TLCEval([f \in 1..g.nf |-> IF IsB(g, f) THEN <<(R2 \otimes b) \ominus u[g.face[f].l][1]>> ELSE <<>>])
DFlux(g, nu, scheme, b, u) ==
  LET gh == DGhosts(g, b, u) IN
  LET gr == Gradients(scheme, g, u, gh) IN
  TLCEval([f \in 1..g.nf |->
    LET e == g.face[f] IN
    LET fg == FaceGrad(e, u[e.l], OtherVal(g, u, gh, f, e.l), gr[e.l], gr[IF IsB(g, f) THEN e.l ELSE e.r]) IN
    VScale(RNeg(nu) \otimes e.len, VAdd(VScale(e.n[1], fg[1]), VScale(e.n[2], fg[2])))])
DSource(g, c, u, i) == g.area[i] \otimes (c[1] \oplus (c[2] \otimes g.cen[i][1]) \oplus (c[3] \otimes u[i][1]))
\* net outflow minus source
DResidual(g, nu, scheme, b, c, u) ==
  LET fl == DFlux(g, nu, scheme, b, u) IN
  TLCEval([i \in 1..g.n |-> Outward(g, fl, i)[1] \ominus DSource(g, c, u, i)])
DStep(g, nu, i) == RSq(MaxEdge(g, i)) \oslash nu
\* derivative of the thin-layer (zero gradient) flux: coefficient of the cell's own value at each of its faces
DCoef(g, nu, f) == LET e == g.face[f] IN LET d == D2(e.lc, e.rc) IN
  (nu \otimes e.len \otimes DotP(d, e.n)) \oslash DotP(d, d)
DDiag(g, nu, i) == RSum([k \in 1..Len(g.edge[i]) |-> LET f == g.edge[i][k] IN (IF IsB(g, f) THEN R2 ELSE R1) \otimes DCoef(g, nu, f)])
=============================================================================
