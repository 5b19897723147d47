------------------------------- MODULE FlowGeom -------------------------------
(* The finite-volume geometry of an abstract mesh: faces with unit normals out of    *)
(* their left cells, lengths and midpoints; cells with areas, centres and faces;     *)
(* ghost centres of boundary faces, mirrored in the face's midpoint.                 *)
(* Cells and faces are numbered from 1; vertices keep their 0-based numbers.         *)
EXTENDS FReal, FiniteSets
Pt(P, v) == P[v + 1]
Nxt(c, k) == c[(k % Len(c)) + 1]
Mid(p, q) == <<Half \otimes (p[1] \oplus q[1]), Half \otimes (p[2] \oplus q[2])>>
D2(p, q) == <<q[1] \ominus p[1], q[2] \ominus p[2]>>
Norm2(v) == RSqrt((v[1] \otimes v[1]) \oplus (v[2] \otimes v[2]))
DotP(v, w) == (v[1] \otimes w[1]) \oplus (v[2] \otimes w[2])
Cross(v, w) == (v[1] \otimes w[2]) \ominus (v[2] \otimes w[1])
Points(m, s) == TLCEval([i \in 1..Len(m.pts) |-> <<RInt(m.pts[i][1]) \otimes s, RInt(m.pts[i][2]) \otimes s>>])
\* cell on the other side of edge k of cell i, 0 if none
Across(cells, i, k) ==
  LET c == cells[i] IN LET a == c[k] IN LET b == Nxt(c, k) IN
  LET S == {j \in 1..Len(cells) : j # i /\ \E l \in 1..Len(cells[j]) : cells[j][l] = b /\ Nxt(cells[j], l) = a} IN
  IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
MarkerOf(m, a, b) == LET S == {k \in 1..Len(m.bf) : {m.bf[k][1], m.bf[k][2]} = {a, b}} IN m.bf[CHOOSE k \in S : TRUE][3]
RECURSIVE FaceList(_, _, _, _, _)
FaceList(m, nb, i, k, acc) ==
  IF i > Len(m.cells) THEN acc
  ELSE IF k > Len(m.cells[i]) THEN FaceList(m, nb, i + 1, 1, acc)
  ELSE FaceList(m, nb, i, k + 1, IF nb[i][k] = 0 \/ nb[i][k] > i THEN Append(acc, <<i, k>>) ELSE acc)
Geometry(m, scale) ==
  LET P == Points(m, scale) IN
  LET N == Len(m.cells) IN
  LET nb == TLCEval([i \in 1..N |-> [k \in 1..Len(m.cells[i]) |-> Across(m.cells, i, k)]]) IN
  LET fl == FaceList(m, nb, 1, 1, <<>>) IN
  LET cen == TLCEval([i \in 1..N |-> LET c == m.cells[i] IN
               <<RSum([k \in 1..Len(c) |-> Pt(P, c[k])[1]]) \oslash RInt(Len(c)), RSum([k \in 1..Len(c) |-> Pt(P, c[k])[2]]) \oslash RInt(Len(c))>>]) IN
  LET area == TLCEval([i \in 1..N |-> LET c == m.cells[i] IN Half \otimes
               RSum([k \in 1..Len(c) |-> LET p == Pt(P, c[1]) IN Cross(D2(p, Pt(P, c[k])), D2(p, Pt(P, Nxt(c, k))))])]) IN
  LET face == TLCEval([f \in 1..Len(fl) |->
        LET i == fl[f][1] IN LET k == fl[f][2] IN LET a == m.cells[i][k] IN LET b == Nxt(m.cells[i], k) IN
        LET d == D2(Pt(P, a), Pt(P, b)) IN LET len == Norm2(d) IN LET mid == Mid(Pt(P, a), Pt(P, b)) IN
        [l |-> i, r |-> nb[i][k], a |-> a, b |-> b, len |-> len, n |-> <<d[2] \oslash len, RNeg(d[1]) \oslash len>>, mid |-> mid,
         tag |-> IF nb[i][k] = 0 THEN MarkerOf(m, a, b) ELSE 0,
         lc |-> cen[i],
         rc |-> IF nb[i][k] = 0 THEN <<(R2 \otimes mid[1]) \ominus cen[i][1], (R2 \otimes mid[2]) \ominus cen[i][2]>> ELSE cen[nb[i][k]]]]) IN
  [n |-> N, nf |-> Len(fl), face |-> face, area |-> area, cen |-> cen,
   edge |-> TLCEval([i \in 1..N |-> LET S == {f \in 1..Len(fl) : face[f].l = i \/ face[f].r = i} IN
              LET RECURSIVE seq(_, _)
                  seq(f, acc) == IF f > Len(fl) THEN acc ELSE seq(f + 1, IF f \in S THEN Append(acc, f) ELSE acc) IN seq(1, <<>>)])]
\* the side of face f that cell i is on, and the cell beyond it (0: none)
Sign(g, f, i) == IF g.face[f].l = i THEN R1 ELSE RInt(-1)
Beyond(g, f, i) == IF g.face[f].l = i THEN g.face[f].r ELSE g.face[f].l
MaxEdge(g, i) == LET e == g.edge[i] IN RAbsMax([k \in 1..Len(e) |-> g.face[e[k]].len])
=============================================================================
