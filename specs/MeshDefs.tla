------------------------------ MODULE MeshDefs ------------------------------
(* The abstract mesh: a sequence of cells, each the anticlockwise sequence of its  *)
(* (0-based) vertex numbers. Everything else - edges, owners, boundary, adjacency, *)
(* geometry - is derived here, independently of how the code derives it.           *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
NthNext(c, k) == c[(k % Len(c)) + 1]                       \* vertex after position k (1-based k)

\* directed edge k (1-based) of cell c, anticlockwise
DEdge(c, k) == <<c[k], NthNext(c, k)>>
Undir(e) == {e[1], e[2]}

CellEdges(c) == {Undir(DEdge(c, k)) : k \in 1..Len(c)}
Edges(cells) == UNION {CellEdges(cells[i]) : i \in 1..Len(cells)}
\* (1-based) cells owning an edge
Owners(cells, e) == {i \in 1..Len(cells) : e \in CellEdges(cells[i])}
\* function edge -> owners, computed in one go
OwnerMap(cells) == [e \in Edges(cells) |-> Owners(cells, e)]
BoundaryEdges(om) == {e \in DOMAIN om : Cardinality(om[e]) = 1}
InteriorEdges(om) == {e \in DOMAIN om : Cardinality(om[e]) = 2}
Vertices(cells) == UNION {Range(cells[i]) : i \in 1..Len(cells)}

Neighbours(cells, om, i) == UNION {om[e] \ {i} : e \in CellEdges(cells[i])}

RECURSIVE Reach(_, _, _)
Reach(cells, om, S) ==
  LET T == S \cup UNION {Neighbours(cells, om, i) : i \in S}
  IN IF T = S THEN S ELSE Reach(cells, om, T)
Connected(cells, om) == Len(cells) > 0 /\ Reach(cells, om, {1}) = 1..Len(cells)
\* a vertex is regular if the boundary passes through it at most once
Manifold(cells, om) ==
  LET be == BoundaryEdges(om) IN
  \A v \in Vertices(cells) : Cardinality({e \in be : v \in e}) \in {0, 2}
Conforming(om) == \A e \in DOMAIN om : Cardinality(om[e]) \in {1, 2}

(* ---- geometry on integer coordinates: pts is a sequence of <<x,y>> ---- *)
P(pts, v) == pts[v + 1]
RECURSIVE SumOver(_, _)
SumOver(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumOver(s, k - 1)
Sum(s) == SumOver(s, Len(s))
\* twice the signed area (shoelace)
Area2(pts, c) == Sum([k \in 1..Len(c) |->
    LET a == P(pts, c[k]) b == P(pts, NthNext(c, k)) IN a[1]*b[2] - b[1]*a[2]])
\* outward normal times length of the directed edge a->b of an anticlockwise cell
NormalOf(pts, a, b) == <<P(pts,b)[2] - P(pts,a)[2], P(pts,a)[1] - P(pts,b)[1]>>
\* centre times 12 (cells have 3 or 4 vertices)
Centre12(pts, c) == [d \in {1, 2} |-> (12 \div Len(c)) * Sum([k \in 1..Len(c) |-> P(pts, c[k])[d]])]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
Sq(x) == x * x
=============================================================================
