-------------------------------- MODULE Output --------------------------------
(* What a run reports about a state: wall pressure and friction, lift and drag, the   *)
(* entropy error, and the values written for points, cells and boundary faces.        *)
EXTENDS FlowOps
\* ---- walls ----
Pad(x, y) == <<x, y>>
\* velocity gradient from the gradients of the conserved variables: row i, d u_i / d x_j
VelGrad(u, gr) == [i \in 1..2 |-> [j \in 1..2 |-> ((gr[j][i + 1] \otimes u[1]) \ominus (u[i + 1] \otimes gr[j][1])) \oslash RSq(u[1])]]
PressCoef(G, u) == R2 \otimes (Pres(G, u) \ominus PInf(G))
\* shear stress along the wall, fluid on the left of the tangent (n2, -n1), over half the free stream's momentum flux
FrictCoef(G, cv, u, gr, n) ==
  LET A == VelGrad(u, gr) IN LET mu == IF cv THEN MuConst(G) ELSE MuU(G, u) IN
  LET frc == [i \in 1..2 |-> RSum([j \in 1..2 |-> (A[i][j] \oplus A[j][i]) \otimes n[j]])] IN
  R2 \otimes mu \otimes ((frc[1] \otimes n[2]) \ominus (frc[2] \otimes n[1]))
WallFaces(g, tag) == {f \in 1..g.nf : IsB(g, f) /\ g.face[f].tag = tag}
WallRow(g, G, cv, u, gr, f) == LET e == g.face[f] IN <<e.mid[1], e.mid[2], PressCoef(G, u[e.l]), FrictCoef(G, cv, u[e.l], gr[e.l], e.n)>>
SumOver(FF, val(_)) == LET RECURSIVE S(_) S(T) == IF T = {} THEN R0 ELSE LET f == CHOOSE f \in T : TRUE IN val(f) \oplus S(T \ {f}) IN S(FF)
\* lift, pressure drag and friction drag over the length of the wall
Forces(g, G, cv, u, gr, tag, aoa) ==
  LET W == WallFaces(g, tag) IN LET row == [f \in W |-> WallRow(g, G, cv, u, gr, f)] IN
  LET c == RCos(aoa) IN LET s == RSin(aoa) IN LET e(f) == g.face[f] IN
  LET len == SumOver(W, LAMBDA f : e(f).len) IN
  <<SumOver(W, LAMBDA f : row[f][3] \otimes ((c \otimes e(f).n[2]) \ominus (s \otimes e(f).n[1])) \otimes e(f).len) \oslash len,
    SumOver(W, LAMBDA f : row[f][3] \otimes ((c \otimes e(f).n[1]) \oplus (s \otimes e(f).n[2])) \otimes e(f).len) \oslash len,
    SumOver(W, LAMBDA f : row[f][4] \otimes ((c \otimes e(f).n[2]) \ominus (s \otimes e(f).n[1])) \otimes e(f).len) \oslash len>>
\* ---- the whole domain ----
EntropyError(g, G, u, uinf) == LET s0 == Entropy(G, uinf) IN
  RSqrt(RSum([i \in 1..g.n |-> RSq((Entropy(G, u[i]) \ominus s0) \oslash s0) \otimes g.area[i]]))
\* ---- points: the area-weighted average of the surrounding cells ----
Around(m, v) == {i \in 1..Len(m.cells) : \E k \in 1..Len(m.cells[i]) : m.cells[i][k] = v}
RECURSIVE VSumOver(_, _, _)
VSumOver(S, f, zero) == IF S = {} THEN zero ELSE LET i == CHOOSE i \in S : TRUE IN VAdd(f[i], VSumOver(S \ {i}, f, zero))
PointState(g, m, u, v) == LET S == Around(m, v) IN
  VScale(R1 \oslash SumOver(S, LAMBDA i : g.area[i]), VSumOver(S, [i \in S |-> VScale(g.area[i], u[i])], [k \in 1..Len(u[1]) |-> R0]))
Mach(G, u) == RSqrt(RSq(Vel(u)[1]) \oplus RSq(Vel(u)[2])) \oslash SoundU(G, u)
PointRow(G, u) == <<u[1], Mach(G, u), Pres(G, u), TempU(G, u)>>
CellRow(G, u) == <<u[1], Mach(G, u), Pres(G, u)>>
VolumeRow(g, G, u, i) == <<g.cen[i][1], g.cen[i][2], u[i][1], Vel(u[i])[1], Vel(u[i])[2], Pres(G, u[i]), TempU(G, u[i]), Mach(G, u[i])>>
OtherRow(g, u, f) == LET e == g.face[f] IN <<e.mid[1], e.mid[2], Vel(u[e.l])[1], Vel(u[e.l])[2]>>
=============================================================================
