------------------------------- MODULE FlowOps --------------------------------
(* The spatial operator as a function of the global mesh and the global state: what  *)
(* every process, thread and cell ordering must reproduce.                           *)
(* g: geometry (FlowGeom); G: gas; bcf(f): boundary condition of face f; uinf: free  *)
(* stream; u: sequence of conserved cell states. Scheme names are the code's.        *)
EXTENDS FlowGeom, FluxLin
IsB(g, f) == g.face[f].r = 0
\* ---- gradients: g, cell values w, ghost values wg (by face); result[cell] = <<d/dx, d/dy>> ----
ZeroGrad(nv) == LET z == [k \in 1..nv |-> R0] IN <<z, z>>
OtherVal(g, w, wg, f, i) == IF IsB(g, f) THEN wg[f] ELSE w[Beyond(g, f, i)]
OtherCen(g, f, i) == IF g.face[f].l = i THEN g.face[f].rc ELSE g.face[f].lc
VSumSeq(s) == LET RECURSIVE S(_) S(k) == IF k = 1 THEN s[1] ELSE VAdd(S(k - 1), s[k]) IN S(Len(s))
\* face value: inverse-distance average of the two sides
FaceVal(g, w, wg, f) ==
  LET e == g.face[f] IN
  LET dl == R1 \oslash Norm2(D2(e.lc, e.mid)) IN LET dr == R1 \oslash Norm2(D2(e.rc, e.mid)) IN
  VScale(R1 \oslash (dl \oplus dr), VAdd(VScale(dl, w[e.l]), VScale(dr, OtherVal(g, w, wg, f, e.l))))
GreenGauss(g, w, wg) ==
  LET fv == TLCEval([f \in 1..g.nf |-> FaceVal(g, w, wg, f)]) IN
  TLCEval([i \in 1..g.n |-> LET E == g.edge[i] IN
    [d \in 1..2 |-> VScale(R1 \oslash g.area[i],
       VSumSeq([k \in 1..Len(E) |-> LET f == E[k] IN VScale(Sign(g, f, i) \otimes g.face[f].len \otimes g.face[f].n[d], fv[f])]))]])
LeastSquares(g, w, wg) ==
  TLCEval([i \in 1..g.n |->
    LET E == g.edge[i] IN
    LET dr == [k \in 1..Len(E) |-> D2(g.cen[i], OtherCen(g, E[k], i))] IN
    LET q == [k \in 1..Len(E) |-> R1 \oslash DotP(dr[k], dr[k])] IN
    LET a(x, y) == RSum([k \in 1..Len(E) |-> q[k] \otimes dr[k][x] \otimes dr[k][y]]) IN
    LET b(x) == VSumSeq([k \in 1..Len(E) |-> VScale(q[k] \otimes dr[k][x], VSub(OtherVal(g, w, wg, E[k], i), w[i]))]) IN
    LET det == (a(1, 1) \otimes a(2, 2)) \ominus (a(1, 2) \otimes a(1, 2)) IN
    <<VScale(R1 \oslash det, VSub(VScale(a(2, 2), b(1)), VScale(a(1, 2), b(2)))),
      VScale(R1 \oslash det, VSub(VScale(a(1, 1), b(2)), VScale(a(1, 2), b(1))))>>])
Gradients(name, g, w, wg) ==
  CASE name = "GREENGAUSS" -> GreenGauss(g, w, wg)
    [] name = "LEASTSQUARES" -> LeastSquares(g, w, wg)
    [] OTHER -> [i \in 1..g.n |-> ZeroGrad(Len(w[i]))]
\* ---- reconstruction: [l, r] by face, of the cell values; r is not given on the boundary ----
Extrap(g, w, gr, lim, i, f) ==
  LET d == D2(g.cen[i], g.face[f].mid) IN
  TLCEval([v \in 1..Len(w[i]) |-> w[i][v] \oplus (lim[v] \otimes ((gr[1][v] \otimes d[1]) \oplus (gr[2][v] \otimes d[2])))])
Ones(nv) == [v \in 1..nv |-> R1]
TwoSided(g, val(_, _)) ==      \* val(i, f): value cell i gives to its face f
  TLCEval([f \in 1..g.nf |-> [l |-> val(g.face[f].l, f), r |-> IF IsB(g, f) THEN <<>> ELSE val(g.face[f].r, f)]])
LinearRec(g, w, gr) == TwoSided(g, LAMBDA i, f : Extrap(g, w, gr[i], Ones(Len(w[i])), i, f))
\* WENO: the cell's own gradient (weight lambda) averaged with those of its neighbours, weighted against oscillation
WenoRec(g, w, gr, lambda) ==
  LET wt(c, i, v) == c \oslash RPow((RSq(gr[i][1][v]) \oplus RSq(gr[i][2][v])) \oplus RStr("1e-5"), R4) IN
  LET av == TLCEval([i \in 1..g.n |->
        LET nbs == {Beyond(g, g.edge[i][k], i) : k \in 1..Len(g.edge[i])} \ {0} IN
        LET sq == LET RECURSIVE S(_) S(T) == IF T = {} THEN <<>> ELSE LET j == CHOOSE j \in T : TRUE IN <<j>> \o S(T \ {j}) IN S(nbs) IN
        [d \in 1..2 |-> [v \in 1..Len(w[i]) |->
           LET W == <<wt(lambda, i, v)>> \o [k \in 1..Len(sq) |-> wt(R1, sq[k], v)] IN
           LET X == <<gr[i][d][v]>> \o [k \in 1..Len(sq) |-> gr[sq[k]][d][v]] IN
           RDot(W, X) \oslash RSum(W)]]]) IN
  LinearRec(g, w, av)
\* largest and smallest change towards the cells across the faces (and boundary ghosts)
Spread(g, w, wg, i) ==
  LET E == g.edge[i] IN
  LET du == [k \in 1..Len(E) |-> VSub(OtherVal(g, w, wg, E[k], i), w[i])] IN
  [v \in 1..Len(w[i]) |->
     LET RECURSIVE hi(_) hi(k) == IF k = 0 THEN R0 ELSE RMax(hi(k - 1), du[k][v])
         RECURSIVE lo(_) lo(k) == IF k = 0 THEN R0 ELSE RMin(lo(k - 1), du[k][v]) IN <<lo(Len(E)), hi(Len(E))>>]
Limited(g, w, wg, gr, ratio(_, _, _, _)) ==        \* ratio(i, change to the face, lo, hi)
  LET lim == TLCEval([i \in 1..g.n |->
        LET E == g.edge[i] IN LET s == TLCEval(Spread(g, w, wg, i)) IN
        LET ex == TLCEval([k \in 1..Len(E) |-> VSub(Extrap(g, w, gr[i], Ones(Len(w[i])), i, E[k]), w[i])]) IN
        [v \in 1..Len(w[i]) |->
           LET RECURSIVE m(_) m(k) == IF k = 0 THEN R1 ELSE RMin(m(k - 1), ratio(i, ex[k][v], s[v][1], s[v][2])) IN m(Len(E))]]) IN
  TwoSided(g, LAMBDA i, f : Extrap(g, w, gr[i], lim[i], i, f))
BJRatio(d, lo, hi) == IF R0 \prec d THEN RMin(R1, hi \oslash d) ELSE IF d \prec R0 THEN RMin(R1, lo \oslash d) ELSE R1
VenkatRatio(eps2, d, lo, hi) ==
  LET p == IF d \prec R0 THEN lo ELSE hi IN
  ((RSq(p) \oplus (R2 \otimes p \otimes d)) \oplus eps2) \oslash (((RSq(p) \oplus (p \otimes d)) \oplus (R2 \otimes RSq(d))) \oplus eps2)
BarthJespersen(g, w, wg, gr) == Limited(g, w, wg, gr, LAMBDA i, d, lo, hi : BJRatio(d, lo, hi))
Venkatakrishnan(g, w, wg, gr, K) == Limited(g, w, wg, gr, LAMBDA i, d, lo, hi : VenkatRatio(RPow(K \otimes MaxEdge(g, i), R3), d, lo, hi))
\* MUSCL with the van Albada limiter, third-order parameter 1/3
Musl == RQ(1, 3)
AlbadaStep(dm, dc) ==
  LET e == RStr("1e-8") IN
  LET phi == RMax(R0, ((R2 \otimes dm \otimes dc) \oplus e) \oslash ((RSq(dm) \oplus RSq(dc)) \oplus e)) IN
  (phi \oslash R4) \otimes (((R1 \ominus (Musl \otimes phi)) \otimes dm) \oplus ((R1 \oplus (Musl \otimes phi)) \otimes dc))
VanAlbada(g, w, wg, gr) ==
  TLCEval([f \in 1..g.nf |->
    LET e == g.face[f] IN LET d == D2(e.lc, e.rc) IN LET o == OtherVal(g, w, wg, f, e.l) IN
    LET dc(v) == o[v] \ominus w[e.l][v] IN
    LET bi(i, v) == (R2 \otimes ((gr[i][1][v] \otimes d[1]) \oplus (gr[i][2][v] \otimes d[2]))) \ominus dc(v) IN
    [l |-> TLCEval([v \in 1..Len(o) |-> w[e.l][v] \oplus AlbadaStep(bi(e.l, v), dc(v))]),
     r |-> IF IsB(g, f) THEN <<>> ELSE TLCEval([v \in 1..Len(o) |-> o[v] \ominus AlbadaStep(bi(e.r, v), dc(v))])]])
Reconstruct(name, g, w, wg, gr, par) ==
  CASE name = "NONE" -> LinearRec(g, w, gr)
    [] name = "WENO" -> WenoRec(g, w, gr, par)
    [] name = "BARTHJESPERSEN" -> BarthJespersen(g, w, wg, gr)
    [] name = "VENKATAKRISHNAN" -> Venkatakrishnan(g, w, wg, gr, par)
    [] name = "VANALBADA" -> VanAlbada(g, w, wg, gr)
\* ---- viscous flux ----
\* gradient at a face between centres: average, with its component along the centres replaced by the difference
FaceGrad(e, wl, wr, gl, gr) ==
  LET d == D2(e.lc, e.rc) IN LET dist == Norm2(d) IN LET t == <<d[1] \oslash dist, d[2] \oslash dist>> IN
  LET a(k) == VScale(Half, VAdd(gl[k], gr[k])) IN
  LET corr == VSub(VScale(R1 \oslash dist, VSub(wr, wl)), VAdd(VScale(t[1], a(1)), VScale(t[2], a(2)))) IN
  <<VAdd(a(1), VScale(t[1], corr)), VAdd(a(2), VScale(t[2], corr))>>
\* mu: viscosity at the face; fl, fr: face states; gr: face gradient of density, velocities, temperature
VisFlux(G, mu, n, fl, fr, gr) ==
  LET st == Stress(mu, gr) IN LET va == VScale(Half, VAdd(Vel(fl), Vel(fr))) IN LET k == Kappa(G, mu) IN
  <<R0, RNeg(Dot2(st[1], n)), RNeg(Dot2(st[2], n)),
    RNeg(Dot2(<<Dot2(st[1], va) \oplus (k \otimes gr[1][4]), Dot2(st[2], va) \oplus (k \otimes gr[2][4])>>, n))>>
FaceMu(G, cv, l, r) == IF cv THEN MuConst(G) ELSE Half \otimes (MuU(G, l) \oplus MuU(G, r))
\* gradient of temperature for that of pressure
ToTemp(G, u, gr) == [d \in 1..2 |-> [gr[d] EXCEPT ![4] = GM2(G) \otimes (((gr[d][4] \otimes u[1]) \ominus (Pres(G, u) \otimes gr[d][1])) \oslash RSq(u[1]))]]
ThinLayer(G, cv, e, l, r) ==
  VisFlux(G, FaceMu(G, cv, l, r), e.n, l, r, FaceGrad(e, Prim2(G, l), Prim2(G, r), ZeroGrad(4), ZeroGrad(4)))
\* ---- the residual ----
\* S: [flux, grad, recon, par, order2, visc, cvisc]
Ghosts(g, G, bcf(_), uinf, u) == TLCEval([f \in 1..g.nf |-> IF IsB(g, f) THEN Ghost(G, bcf(f), u[g.face[f].l], g.face[f].n, uinf) ELSE <<>>])
FaceStates(S, g, G, bcf(_), uinf, u) ==
  IF ~S.order2
  THEN LET gh == Ghosts(g, G, bcf, uinf, u) IN
       [st |-> TLCEval([f \in 1..g.nf |-> [l |-> u[g.face[f].l], r |-> OtherVal(g, u, gh, f, g.face[f].l)]]),
        gh |-> gh, gr |-> <<>>]
  ELSE LET gh == Ghosts(g, G, bcf, uinf, u) IN
       LET w == TLCEval([i \in 1..g.n |-> Prim(G, u[i])]) IN
       LET wg == TLCEval([f \in 1..g.nf |-> IF IsB(g, f) THEN Prim(G, gh[f]) ELSE <<>>]) IN
       LET gr == Gradients(S.grad, g, w, wg) IN
       LET rec == Reconstruct(S.recon, g, w, wg, gr, S.par) IN
       [st |-> TLCEval([f \in 1..g.nf |-> LET l == Cons(G, rec[f].l) IN
                 [l |-> l, r |-> IF IsB(g, f) THEN Ghost(G, bcf(f), l, g.face[f].n, uinf) ELSE Cons(G, rec[f].r)]]),
        gh |-> gh, gr |-> gr]
\* flux through face f, times its length
FaceFlux(S, g, G, u, fs, f) ==
  LET e == g.face[f] IN LET s == fs.st[f] IN
  LET inv == NumFlux(G, S.flux, s.l, s.r, e.n) IN
  LET cr == IF IsB(g, f) THEN fs.gh[f] ELSE u[e.r] IN
  LET gl == IF S.order2 THEN ToTemp(G, u[e.l], fs.gr[e.l]) ELSE ZeroGrad(4) IN
  \* at the boundary the gradient beyond is that of the cell, of the variables at the ghost state
  LET gR == IF S.order2 THEN ToTemp(G, cr, fs.gr[IF IsB(g, f) THEN e.l ELSE e.r]) ELSE ZeroGrad(4) IN
  VScale(e.len,
    IF S.visc THEN VAdd(inv, VisFlux(G, FaceMu(G, S.cvisc, s.l, s.r), e.n, s.l, s.r, FaceGrad(e, Prim2(G, u[e.l]), Prim2(G, cr), gl, gR)))
    ELSE inv)
AllFluxes(S, g, G, u, fs) == TLCEval([f \in 1..g.nf |-> FaceFlux(S, g, G, u, fs, f)])
\* net outward flux of cell i
Outward(g, fl, i) == LET E == g.edge[i] IN VSumSeq([k \in 1..Len(E) |-> VScale(Sign(g, E[k], i), fl[E[k]])])
\* the time step of a cell: area over the integral of the spectral radius over its boundary
TimeStep(S, g, G, fs, i) ==
  LET E == g.edge[i] IN
  g.area[i] \oslash RSum([k \in 1..Len(E) |->
    LET e == g.face[E[k]] IN LET s == IF e.l = i THEN fs.st[E[k]].l ELSE fs.st[E[k]].r IN
    LET mu == IF S.cvisc THEN MuConst(G) ELSE MuU(G, s) IN
    ((RAbs(Vn(s, e.n)) \oplus SoundU(G, s)) \otimes e.len)
    \oplus (IF S.visc THEN ((RMax(RQ(4, 3), G.g) \oslash s[1]) \otimes (mu \oslash G.Pr) \otimes RSq(e.len)) \oslash g.area[i] ELSE R0)])
StatesFine(G, g, u, fs) == (\A i \in 1..g.n : Admissible(G, u[i])) /\ \A f \in 1..g.nf : Admissible(G, fs.st[f].l) /\ Admissible(G, fs.st[f].r) /\ (IsB(g, f) => Admissible(G, fs.gh[f]))
\* ---- the Jacobian of the first-order residual ----
\* derivative of the thin-layer flux; frozen viscosity plus the derivative of the viscosity dmu(x)
ThinDeriv(G, cv, e, l, r, dmu(_)) ==
  LET mu == FaceMu(G, cv, l, r) IN
  LET F(x, y) == VisFlux(G, mu, e.n, x, y, FaceGrad(e, Prim2(G, x), Prim2(G, y), ZeroGrad(4), ZeroGrad(4))) IN
  LET D == ExactDeriv(F, l, r) IN
  IF cv THEN D
  ELSE LET q == VScale(Half \oslash mu, F(l, r)) IN
       LET outer(x) == [k \in 1..4 |-> VScale(dmu(x)[k], q)] IN
       [l |-> MatAddC(D.l, outer(l)), r |-> MatAddC(D.r, outer(r))]
TrueDMu(G, x) == Grad(LAMBDA y : MuU(G, y), x)
BlockDeriv(S, G, e, l, r, deviant) ==
  LET I == IF deviant THEN DeviantFluxDeriv(G, S.jflux, l, r, e.n) ELSE FluxDeriv(G, S.jflux, l, r, e.n) IN
  LET T == IF S.visc THEN ThinDeriv(G, S.cvisc, e, l, r, LAMBDA x : IF deviant THEN DeviantDMu(G, x) ELSE TrueDMu(G, x)) ELSE <<>> IN
  IF S.visc THEN [l |-> MatScaleC(e.len, MatAddC(I.l, T.l)), r |-> MatScaleC(e.len, MatAddC(I.r, T.r))]
  ELSE [l |-> MatScaleC(e.len, I.l), r |-> MatScaleC(e.len, I.r)]
\* by face: derivative of its flux with respect to the left and right cells (boundary: through the ghost state as well)
FaceDerivs(S, g, G, bcf(_), uinf, u, deviant) ==
  TLCEval([f \in 1..g.nf |->
    LET e == g.face[f] IN
    IF ~IsB(g, f) THEN BlockDeriv(S, G, e, u[e.l], u[e.r], deviant)
    ELSE LET gs(x) == Ghost(G, bcf(f), x, e.n, uinf) IN
         LET D == BlockDeriv(S, G, e, u[e.l], gs(u[e.l]), deviant) IN
         [l |-> MatAddC(D.l, MatMulC(D.r, JacCols(gs, u[e.l]))), r |-> <<>>]])
ZeroBlock == [k \in 1..4 |-> [i \in 1..4 |-> R0]]
MatSumC(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN ZeroBlock ELSE MatAddC(S(k - 1), s[k]) IN S(Len(s))
\* block (i, j) of the derivative of the outward flux of cell i with respect to cell j
DiagBlock(g, fd, i) == LET E == g.edge[i] IN
  MatSumC([k \in 1..Len(E) |-> IF g.face[E[k]].l = i THEN fd[E[k]].l ELSE MatScaleC(RInt(-1), fd[E[k]].r)])
OffBlock(g, fd, i, j) == LET E == g.edge[i] IN
  MatSumC([k \in 1..Len(E) |-> LET f == E[k] IN
     IF Beyond(g, f, i) # j THEN ZeroBlock ELSE IF g.face[f].l = i THEN fd[f].r ELSE MatScaleC(RInt(-1), fd[f].l)])
\* faces at which the flux has a kink at this state (an upwind switch), so that the derivative is not defined
FaceKinked(S, g, G, bcf(_), uinf, u, f) ==
  LET e == g.face[f] IN
  LET gs(x) == IF IsB(g, f) THEN Ghost(G, bcf(f), x, e.n, uinf) ELSE u[e.r] IN
  LET F(x) == NumFlux(G, S.jflux, x, gs(u[e.l]), e.n) IN LET H(x) == NumFlux(G, S.jflux, u[e.l], x, e.n) IN
  \/ S.jflux \notin {"LLF", "HLL"} /\ (Kinked(F, u[e.l], RStr("1e-2")) \/ Kinked(H, gs(u[e.l]), RStr("1e-2")))
  \/ IsB(g, f) /\ ~Smooth(G, bcf(f), u[e.l], e.n, RStr("1e-3"))
=============================================================================
