------------------------------- MODULE FanGen -------------------------------
(* Meshes around a point: sectors placed one after another around a centre, each a  *)
(* triangle (T), a quadrilateral (Q), or a triangle with a quadrilateral behind it   *)
(* (S); the fan is closed or open, and as many cells as there are sectors meet at    *)
(* the centre. Vertex 0 is the centre; spoke k has vertices 3k+1 and 3k+2, sector k  *)
(* the corner 3k+3.                                                                  *)
EXTENDS MeshDefs, TLC, Json
CONSTANTS MINN, MAXN, EMIT
VARIABLES sect, closed
Spoke(n, k) == IF closed THEN k % n ELSE k
In(n, k) == 3 * Spoke(n, k) + 1
Out(n, k) == 3 * Spoke(n, k) + 2
Corner(k) == 3 * k + 3
Sector(n, k, t) == CASE t = "T" -> << <<0, In(n, k), In(n, k+1)>> >>
                     [] t = "Q" -> << <<0, In(n, k), Corner(k), In(n, k+1)>> >>
                     [] t = "S" -> << <<0, In(n, k), In(n, k+1)>>, <<In(n, k), Out(n, k), Out(n, k+1), In(n, k+1)>> >>
RECURSIVE Cells(_)
Cells(k) == IF k = 0 THEN << >> ELSE Cells(k - 1) \o Sector(Len(sect), k - 1, sect[k])
Init == sect = << >> /\ closed \in BOOLEAN
Next == Len(sect) < MAXN /\ \E t \in {"T", "Q", "S"} : sect' = Append(sect, t) /\ UNCHANGED closed
Spec == Init /\ [][Next]_<<sect, closed>>
Complete == Len(sect) >= MINN
Valid == Complete => LET c == Cells(Len(sect)) IN LET om == OwnerMap(c) IN Conforming(om) /\ Connected(c, om) /\ Manifold(c, om)
\* every sector's cell meets the centre
Valence == Complete => Cardinality({i \in 1..Len(Cells(Len(sect))) : 0 \in Range(Cells(Len(sect))[i])}) = Len(sect)
Emit == (EMIT /\ Complete) => PrintT("FAN " \o ToJson([n |-> Len(sect), closed |-> closed, cells |-> Cells(Len(sect))]))
=============================================================================
