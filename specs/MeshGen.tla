------------------------------ MODULE MeshGen -------------------------------
(* Builds every conforming 2D mesh on a W x H arrangement of unit squares, each    *)
(* left empty, filled with a quadrilateral or cut into two triangles either way,   *)
(* placed square by square. TLC enumerates (or simulates) all of them; complete    *)
(* valid meshes are printed and become test inputs for the implementation.         *)
EXTENDS MeshDefs, TLC, Json
CONSTANTS W, H, MINCELLS, MAXCELLS, HOLES, EMIT
VARIABLES shape, cells

Vtx(i, j) == j * (W + 1) + i
Col(p) == (p - 1) % W
Row(p) == (p - 1) \div W
Square(p, k) ==
  LET i == Col(p) j == Row(p)
      a == Vtx(i, j) b == Vtx(i+1, j) c == Vtx(i+1, j+1) d == Vtx(i, j+1)
  IN CASE k = "E" -> << >>
       [] k = "Q" -> << <<a, b, c, d>> >>
       [] k = "A" -> << <<a, b, c>>, <<a, c, d>> >>
       [] k = "B" -> << <<a, b, d>>, <<b, c, d>> >>

Init == shape = << >> /\ cells = << >>
Place(k) == /\ Len(shape) < W * H
            /\ shape' = Append(shape, k)
            /\ cells' = cells \o Square(Len(shape) + 1, k)
            /\ Len(cells') <= MAXCELLS
LeaveEmpty == Cardinality({p \in 1..Len(shape) : shape[p] = "E"}) < HOLES /\ Place("E")
PutQuad == Place("Q")
CutUp == Place("A")
CutDown == Place("B")
Next == LeaveEmpty \/ PutQuad \/ CutUp \/ CutDown
Spec == Init /\ [][Next]_<<shape, cells>>

Complete == Len(shape) = W * H
\* the partial mesh is always conforming, and Euler's relation counts its parts
AlwaysConforming == LET om == OwnerMap(cells) IN Conforming(om)
EdgeCount == LET om == OwnerMap(cells) IN
  Cardinality(BoundaryEdges(om)) + 2 * Cardinality(InteriorEdges(om)) = Sum([i \in 1..Len(cells) |-> Len(cells[i])])
Valid == LET om == OwnerMap(cells) IN
  /\ Complete /\ Len(cells) >= MINCELLS
  /\ Connected(cells, om) /\ Manifold(cells, om)
Emit == (EMIT /\ Complete /\ Valid) => PrintT("MESH " \o ToJson(cells))
=============================================================================
