------------------------------ MODULE MeshTrace -----------------------------
(* The life of a mesh object: it is read, its boundary oriented, its connectivity  *)
(* and geometry derived, its cells renumbered, its periodic faces paired, lines    *)
(* and levels extracted and it is written out. The state `mesh' is the abstract    *)
(* mesh; every recorded event must be explained by the action of the same name.    *)
EXTENDS MeshDefs, TraceBase
VARIABLES ci, pos, mesh, lines, bad
vars == <<ci, pos, mesh, lines, bad>>

Case == Cases[ci]
Has(r, f) == f \in DOMAIN r
On(p) == Prop = p \/ Prop = "ALL"
Cl(p, name, b) == <<p \o "." \o name, b>>

NE == Len(mesh.cells)
Scale(s, k) == [i \in 1..Len(s) |-> [d \in 1..Len(s[i]) |-> k * s[i][d]]]
PtsMatch(obs) == Len(obs) = Len(mesh.pts) /\ \A i \in 1..Len(obs) : \A d \in {1,2} : Near(obs[i][d], 1000*mesh.pts[i][d], 1)
\* same boundary edges up to direction
BfUndirected(obs, ref) == /\ Len(obs) = Len(ref)
                          /\ \A i \in 1..Len(obs) : /\ Len(obs[i]) = Len(ref[i])
                                                    /\ {obs[i][1], obs[i][2]} = {ref[i][1], ref[i][2]}
                                                    /\ \A k \in 3..Len(ref[i]) : obs[i][k] = ref[i][k]
OwnerDir(om, e) == \* the directed edge as its (unique) owner sees it
  LET i == CHOOSE i \in om[e] : TRUE
      k == CHOOSE k \in 1..Len(mesh.cells[i]) : Undir(DEdge(mesh.cells[i], k)) = e
  IN DEdge(mesh.cells[i], k)

(* ------------------------------------------------------------------ Read ------ *)
\* tags that the file does not give are left open where another element has more
Padded(a, b) == Len(b) >= Len(a) /\ SubSeq(b, 1, Len(a)) = a
AllPadded(a, b) == Len(b) = Len(a) /\ \A i \in 1..Len(a) : Padded(a[i], b[i])
Longest(s) == CHOOSE n \in {Len(s[i]) : i \in 1..Len(s)} : \A i \in 1..Len(s) : Len(s[i]) <= n
ReadData(e) == Failed({
  Cl("M04", "counts", e.npoin = Len(mesh.pts) /\ e.nelem = NE /\ e.nbface = Len(mesh.bf)),
  Cl("M04", "facetags", Len(mesh.bf) > 0 => e.nbtag = Longest(mesh.bf) - 2),
  Cl("M04", "regions", AllPadded(mesh.reg, e.regions)),
  Cl("M04", "celltags", e.ndtag = Longest(mesh.reg)),
  Cl("M04", "coordinates", Has(e, "fine") => Len(e.fine) = Len(mesh.pts) /\ \A i \in 1..Len(e.fine) : \A d \in {1,2} : Near(e.fine[i][d], 1000000*mesh.pts[i][d], 1)),
  Cl("M04", "widths", e.nnofa = 2 /\ e.maxnnode >= e.maxnfael /\ e.maxnfael <= 4
                      /\ \A i \in 1..NE : Len(mesh.cells[i]) <= e.maxnfael)})
SameMesh(p, e) == {
  Cl(p, "cells", e.cells = mesh.cells),
  Cl(p, "boundary", e.bfaces = mesh.bf),
  Cl(p, "coords", PtsMatch(e.coords)),
  Cl(p, "counts", e.nelem = NE /\ e.npoin = Len(mesh.pts) /\ e.nbface = Len(mesh.bf))}
Read(e) == Failed({c \in SameMesh("M04", e) : c[1] # "M04.boundary"} \cup {Cl("M04", "boundary", AllPadded(mesh.bf, e.bfaces))})
(* -------------------------------------------------------- Write and re-read ---- *)
\* the writer pads tags to at least two
Reread(e) == Failed({
  Cl("M04", "rt_cells", e.cells = mesh.cells),
  Cl("M04", "rt_boundary", AllPadded(mesh.bf, e.bfaces)),
  Cl("M04", "rt_coords", PtsMatch(e.coords) /\ e.drift <= 1),
  Cl("M04", "rt_regions", AllPadded(mesh.reg, e.regions))})
(* ---------------------------------------------------------------- Orient ------ *)
Orient(e, om) == Failed({
  Cl("M01", "orient_same_edges", BfUndirected(e.bfaces, mesh.bf)),
  Cl("M01", "orient_left", \A i \in 1..Len(e.bfaces) : LET b == e.bfaces[i] IN
       {b[1], b[2]} \in DOMAIN om => <<b[1], b[2]>> = OwnerDir(om, {b[1], b[2]})),
  Cl("M01", "orient_cells", e.cells = mesh.cells /\ PtsMatch(e.coords))})
(* -------------------------------------------------------- single restriction --- *)
Restrict(e) == Failed(SameMesh("P01", e) \cup { Cl("P01", "regions", e.regions = mesh.reg) })
(* -------------------------------------------------------------- Topology ------ *)
TopoShape(e) == /\ Len(e.intfac) = e.naface /\ Len(e.elemface) = NE /\ Len(e.esuel) = NE
                /\ Len(e.esup) = Len(mesh.pts) /\ Len(e.btags) = e.nbface
                /\ \A i \in 1..NE : Len(e.elemface[i]) = Len(mesh.cells[i]) /\ Len(e.esuel[i]) = Len(mesh.cells[i])
TopoCounts(e, be, ie) == /\ e.nelem = NE /\ e.nbface = Cardinality(be) /\ e.ninface = Cardinality(ie) /\ e.nconn = 0
                     /\ e.naface = e.nbface + e.ninface
                     /\ e.ranges = <<0, e.naface, 0, e.nbface, e.nbface, e.naface, e.naface, e.naface, e.nbface, e.naface>>
                     /\ \A i \in 1..NE : Len(mesh.cells[i]) <= e.maxnfael
Topology(e, om) ==
  LET be == BoundaryEdges(om) ie == InteriorEdges(om) F == e.intfac nb == Cardinality(be) na == nb + Cardinality(ie) IN
  IF ~ (TopoCounts(e, be, ie)) THEN {"M01.counts"} ELSE IF ~TopoShape(e) THEN {"M01.shape"} ELSE
  LET ue(f) == {F[f][3], F[f][4]}
      okrow(f) == ue(f) \in DOMAIN om /\ F[f][1] \in 0..NE-1
      BF == 1..nb  IF_ == (nb+1)..na IN
  IF ~ (\A f \in 1..na : okrow(f)) THEN {"M01.faces"} ELSE
  IF ~ (\A f \in IF_ : F[f][2] \in 0..NE-1) THEN {"M01.interior"} ELSE
  Failed({
    Cl("M01", "each_edge_once", {ue(f) : f \in BF} = be /\ {ue(f) : f \in IF_} = ie),
    Cl("M01", "boundary_owner", \A f \in BF : om[ue(f)] = {F[f][1] + 1}),
    Cl("M01", "ghost_index", \A f \in BF : F[f][2] = NE + f - 1),
    Cl("M01", "interior_owners", \A f \in IF_ : om[ue(f)] = {F[f][1] + 1, F[f][2] + 1}),
    Cl("M01", "left_lower", \A f \in IF_ : F[f][1] < F[f][2]),
    Cl("M01", "direction", \A f \in 1..na : \E k \in 1..Len(mesh.cells[F[f][1]+1]) : DEdge(mesh.cells[F[f][1]+1], k) = <<F[f][3], F[f][4]>>),
    Cl("M01", "markers", \A f \in BF : \A b \in 1..Len(mesh.bf) :
          {mesh.bf[b][1], mesh.bf[b][2]} = ue(f) => e.btags[f] = SubSeq(mesh.bf[b], 3, Len(mesh.bf[b]))),
    Cl("M01", "cell_faces", \A i \in 1..NE : \A k \in 1..Len(mesh.cells[i]) :
          e.elemface[i][k] \in 0..na-1 /\ ue(e.elemface[i][k] + 1) = Undir(DEdge(mesh.cells[i], k))),
    Cl("M01", "cell_neighbours", \A i \in 1..NE : \A k \in 1..Len(mesh.cells[i]) :
          LET g == Undir(DEdge(mesh.cells[i], k)) IN
          IF g \in be THEN \E f \in BF : ue(f) = g /\ e.esuel[i][k] = F[f][2]
          ELSE e.esuel[i][k] + 1 \in om[g] \ {i}),
    Cl("M01", "point_cells", \A v \in 1..Len(mesh.pts) : LET s == e.esup[v] IN
          /\ Range(s) = {i - 1 : i \in {i \in 1..NE : (v-1) \in Range(mesh.cells[i])}}
          /\ Len(s) = Cardinality(Range(s))),
    Cl("M01", "face_query", \A f \in 1..na :
          /\ LET c == mesh.cells[F[f][1]+1] k == e.qface[f][1] IN k \in 0..Len(c)-1 /\ Undir(DEdge(c, k+1)) = ue(f)
          /\ f \in IF_ => LET c == mesh.cells[F[f][2]+1] k == e.qface[f][2] IN k \in 0..Len(c)-1 /\ Undir(DEdge(c, k+1)) = ue(f)),
    Cl("M01", "bface_query", \A b \in 1..Len(mesh.bf) : \A i \in 1..NE :
          LET g == {mesh.bf[b][1], mesh.bf[b][2]} k == e.qbface[b][i] c == mesh.cells[i] IN
          IF i \in om[g] THEN k \in 0..Len(c)-1 /\ Undir(DEdge(c, k+1)) = g ELSE k < 0),
    Cl("M01", "node_query", \A i \in 1..NE : \A k \in 1..Len(mesh.cells[i]) :
          <<e.qnode[i][2*k-1], e.qnode[i][2*k]>> = DEdge(mesh.cells[i], k))})
\* event needs the faces for later actions
(* -------------------------------------------------------------- Geometry ------ *)
Geometry(e, fac) ==
  IF Len(e.area2) # NE \/ Len(e.metric) # Len(fac) \/ Len(e.centre) # NE THEN {"M02.shape"} ELSE Failed({
    Cl("M02", "areas", \A i \in 1..NE : Near(e.area2[i], 1000 * Area2(mesh.pts, mesh.cells[i]), 1)),
    Cl("M02", "centres", \A i \in 1..NE : LET c == Centre12(mesh.pts, mesh.cells[i]) IN
         Near(e.centre[i][1], 1000*c[1], 1) /\ Near(e.centre[i][2], 1000*c[2], 1)
         /\ Near(e.kcentre[i][1], 1000*c[1], 1) /\ Near(e.kcentre[i][2], 1000*c[2], 1)),
    Cl("M02", "normals", \A f \in 1..Len(fac) : LET n == NormalOf(mesh.pts, fac[f][3], fac[f][4]) IN
         Near(e.metric[f][1], 1000*n[1], 1) /\ Near(e.metric[f][2], 1000*n[2], 1)),
    Cl("M02", "lengths", \A f \in 1..Len(fac) : LET n == NormalOf(mesh.pts, fac[f][3], fac[f][4]) IN
         Near(e.metric[f][3], 1000*(Sq(n[1]) + Sq(n[2])), 1)),
    Cl("M02", "unit", \A f \in 1..Len(fac) : Near(e.metric[f][4], 1000000, 1) /\ Near(e.metric[f][5], 0, 1) /\ Near(e.metric[f][6], 0, 1)),
    Cl("M02", "outward", \A f \in 1..Len(fac) : \E k \in 1..Len(mesh.cells[fac[f][1]+1]) :
         DEdge(mesh.cells[fac[f][1]+1], k) = <<fac[f][3], fac[f][4]>>),
    Cl("M02", "closed", \A i \in 1..NE : \A d \in {1,2} :
         Near(Sum([f \in 1..Len(fac) |-> IF fac[f][1] = i-1 THEN e.metric[f][d] ELSE IF fac[f][2] = i-1 THEN 0 - e.metric[f][d] ELSE 0]), 0, 8)),
    Cl("M02", "total", Near(Sum(e.area2), 1000 * Case.mesh.area2, NE))})
(* ------------------------------------------------------------ Renumbering ----- *)
IsPerm(p, n) == Len(p) = n /\ Range(p) = 0..n-1
Permuted(m, p) == [m EXCEPT !.cells = [i \in 1..Len(p) |-> m.cells[p[i]+1]], !.reg = [i \in 1..Len(p) |-> m.reg[p[i]+1]]]
Renum(p, e, m2) == {
  Cl(p, "cells", e.cells = m2.cells),
  Cl(p, "regions", e.regions = m2.reg),
  Cl(p, "boundary", e.bfaces = m2.bf),
  Cl(p, "coords", PtsMatch(e.coords)),
  Cl(p, "counts", e.nelem = NE /\ e.npoin = Len(mesh.pts) /\ e.nbface = Len(mesh.bf))}
\* the permutation an unnamed ordering must have applied (cells are distinct sequences)
Inferred(e) == IF Len(e.cells) = NE /\ Range(e.cells) = Range(mesh.cells)
               THEN [i \in 1..NE |-> (CHOOSE j \in 1..NE : mesh.cells[j] = e.cells[i]) - 1]
               ELSE << >>
(* --------------------------------------------------------------- Periodic ----- *)
Mid2(f, fac, d) == P(mesh.pts, fac[f][3])[d] + P(mesh.pts, fac[f][4])[d]
Periodic(e, fac, tags) ==
  LET nb == Len(mesh.bf) ax == 2 - e.axis        \* 1-based coordinate compared
      per(f) == tags[f][1] = e.marker
      partner(f) == {g \in 1..nb : g # f /\ per(g) /\ Mid2(g, fac, ax) = Mid2(f, fac, ax)} IN
  IF Len(e.after) # nb THEN {"M03.shape"} ELSE Failed({
    Cl("M03", "others_untouched", \A f \in 1..nb : ~per(f) => e.after[f] = e.before[f]),
    Cl("M03", "paired", \A f \in 1..nb : per(f) => \E g \in partner(f) : e.after[f] = fac[g][1]),
    Cl("M03", "no_ghost_left", \A f \in 1..nb : per(f) => e.after[f] \in 0..NE-1),
    \* (the inputs have exactly one partner per face, so being paired with the partner's cell is an involution)
    Cl("M03", "input_wellformed", \A f \in 1..nb : per(f) => Cardinality(partner(f)) = 1)})
(* ------------------------------------------------------------------ Levels ----- *)
Levels(e, om) ==
  LET L == e.levels nbr(i) == {j - 1 : j \in Neighbours(mesh.cells, om, i + 1)} IN
  IF Len(L) < 2 THEN {"R03.shape"} ELSE Failed({
    Cl("R03", "ends", L[1] = 0 /\ L[Len(L)] = NE),
    Cl("R03", "increasing", \A k \in 1..Len(L)-1 : L[k] < L[k+1]),
    Cl("R03", "independent", \A k \in 1..Len(L)-1 : \A i \in L[k]..L[k+1]-1 : nbr(i) \cap (L[k]..L[k+1]-1) = {}),
    Cl("R03", "greedy", \A k \in 2..Len(L)-1 : nbr(L[k]) \cap (L[k-1]..L[k]-1) # {})})
(* ------------------------------------------------------------------- Lines ----- *)
\* squared distance of cell centres, in (1/12)^2 units
D2(i, j) == LET a == Centre12(mesh.pts, mesh.cells[i]) b == Centre12(mesh.pts, mesh.cells[j]) IN Sq(a[1]-b[1]) + Sq(a[2]-b[2])
\* anisotropy of i towards j exceeds the threshold: (max_k d(i,k) / d(i,j)) > thr, thr^2 = num/den
\* equality is left open (the implementation works in floating point): lo = certainly, hi = possibly
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Over(om, i, j) == LET m == Max({D2(i,k) : k \in Neighbours(mesh.cells, om, i)}) IN m * Case.thrden > D2(i,j) * Case.thrnum
OverOrEq(om, i, j) == LET m == Max({D2(i,k) : k \in Neighbours(mesh.cells, om, i)}) IN m * Case.thrden >= D2(i,j) * Case.thrnum
Aniso(om, i) == \E j \in Neighbours(mesh.cells, om, i) : Over(om, i, j)
AnisoPoss(om, i) == \E j \in Neighbours(mesh.cells, om, i) : OverOrEq(om, i, j)
\* replay of line building: cells already used when line l starts its k-th cell
UsedBefore(L, l, k) == UNION {Range(L[x]) : x \in 1..l-1} \cup {L[l][x] : x \in 1..k}
Lines(e, om, fac) ==
  LET L == e.lines n == Len(L) nb == Len(mesh.bf)
      bc == [f \in 1..nb |-> fac[f][1]]           \* boundary cells in face order (0-based)
      inline == UNION {Range(L[l]) : l \in 1..n} IN
  IF ~ (Len(e.celline) = NE /\ \A l \in 1..n : \A k \in 1..Len(L[l]) : L[l][k] \in 0..NE-1) THEN {"R02.shape"} ELSE Failed({
    Cl("R02", "disjoint", \A l \in 1..n : Len(L[l]) = Cardinality(Range(L[l])) /\ \A m \in l+1..n : Range(L[l]) \cap Range(L[m]) = {}),
    Cl("R02", "nontrivial", \A l \in 1..n : Len(L[l]) >= 2),
    Cl("R02", "starts_at_boundary", \A l \in 1..n : L[l][1] \in Range(bc)),
    Cl("R02", "chain", \A l \in 1..n : \A k \in 1..Len(L[l])-1 : (L[l][k+1] + 1) \in Neighbours(mesh.cells, om, L[l][k] + 1)),
    Cl("R02", "anisotropic_cells", \A l \in 1..n : \A k \in 1..Len(L[l]) : AnisoPoss(om, L[l][k] + 1)),
    Cl("R02", "strong_links", \A l \in 1..n : \A k \in 1..Len(L[l])-1 :
          (L[l][k+1]+1) \in Neighbours(mesh.cells, om, L[l][k]+1) => OverOrEq(om, L[l][k]+1, L[l][k+1]+1)),
    Cl("R02", "strongest_free", \A l \in 1..n : \A k \in 1..Len(L[l])-1 :
          \A j \in Neighbours(mesh.cells, om, L[l][k]+1) : (j-1) \notin UsedBefore(L, l, k)
               => D2(L[l][k]+1, j) >= D2(L[l][k]+1, L[l][k+1]+1)),
    Cl("R02", "maximal", \A l \in 1..n : LET z == L[l][Len(L[l])] + 1
              used == UsedBefore(L, l, Len(L[l]))
              free == {j \in Neighbours(mesh.cells, om, z) : (j-1) \notin used}
              strong == {j \in free : Over(om, z, j)} IN
          strong # {} => \E b \in free : ~Aniso(om, b) /\ \A j \in strong : D2(z, b) <= D2(z, j)),
    Cl("R02", "complete", \A f \in 1..nb : (bc[f] \notin inline /\ Aniso(om, bc[f]+1)) =>
          LET z == bc[f] + 1
              free == {j \in Neighbours(mesh.cells, om, z) : (j-1) \notin inline}
              strong == {j \in free : Over(om, z, j)} IN
          strong # {} => \E b \in free : ~Aniso(om, b) /\ \A j \in strong : D2(z, b) <= D2(z, j)),
    Cl("R02", "map", \A i \in 1..NE : \A l \in 1..n : (e.celline[i] = l-1) <=> ((i-1) \in Range(L[l]))),
    Cl("R02", "map_free", \A i \in 1..NE : (i-1) \notin inline => e.celline[i] = 0 - 1)})
\* cells outside lines, in order
Points(L) == SelectSeq([i \in 1..NE |-> i-1], LAMBDA c : \A l \in 1..Len(L) : c \notin Range(L[l]))
RECURSIVE Flat(_, _)
Flat(L, l) == IF l = 0 THEN << >> ELSE Flat(L, l-1) \o L[l]
NaturalLineOrder(L) == Flat(L, Len(L)) \o Points(L)
Contiguous(p, L) == \A l \in 1..Len(L) : \E s \in 1..Len(p) : s + Len(L[l]) - 1 <= Len(p) /\ SubSeq(p, s, s + Len(L[l]) - 1) = L[l]
HybridOK(p, gorder) == /\ IsPerm(p, NE) /\ Contiguous(p, lines) /\ (gorder = "natural" => p = NaturalLineOrder(lines))

(* ------------------------------------------------------------ Comparison ------ *)
\* the answers, in order: number of cells, of points, of boundary edges; vertices per cell, faces per cell, cells, boundary, coordinates
Common(a, b) == 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b))
Alike(f(_), a, b) == \A i \in Common(a, b) : f(a[i]) = f(b[i])
Same(x) == x
CompareOK(ans, a, b) ==
  LET counts == <<Len(a.cells) = Len(b.cells), Len(a.pts) = Len(b.pts), Len(a.bf) = Len(b.bf)>>
      lists == <<Alike(Len, a.cells, b.cells), Alike(Len, a.cells, b.cells), Alike(Same, a.cells, b.cells),
                 Alike(Same, a.bf, b.bf), Alike(Same, a.pts, b.pts)>>
      equal == counts = <<TRUE, TRUE, TRUE>> IN
  /\ Len(ans) = 8 /\ \A k \in 1..3 : ans[k] = counts[k]
  /\ \A k \in 1..5 : ~lists[k] => ~ans[k+3]       \* a difference in what both have is always reported
  /\ (counts[1] => \A k \in 1..3 : lists[k] => ans[k+3])
  /\ (counts[3] /\ lists[4] => ans[7]) /\ (counts[2] /\ lists[5] => ans[8])
Compare(e) == Failed({
  Cl("M05", "first_with_second", CompareOK(e.ab, mesh, Case.other)),
  Cl("M05", "second_with_first", CompareOK(e.ba, Case.other, mesh)),
  Cl("M05", "with_itself", e.aa = <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>)})

(* ------------------------------------------------------------ the machine ------ *)
Fresh == [cells |-> Case.mesh.cells, pts |-> Case.mesh.pts, bf |-> Case.mesh.bf, reg |-> Case.mesh.reg, fac |-> << >>, tags |-> << >>]
Init == /\ ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ lines = << >>
        /\ mesh = [cells |-> Cases[ci].mesh.cells, pts |-> Cases[ci].mesh.pts, bf |-> Cases[ci].mesh.bf,
                   reg |-> Cases[ci].mesh.reg, fac |-> << >>, tags |-> << >>]
E == Case.ev[pos + 1]
Is(name) == bad = {} /\ pos < Len(Case.ev) /\ E.event = name
Only(S) == IF Prop = "ALL" THEN S ELSE {c \in S : SubSeq(c, 1, 3) = Prop}
Step(S, m2, l2) == /\ pos' = pos + 1 /\ UNCHANGED ci
                   /\ bad' = Only(S) /\ mesh' = m2 /\ lines' = l2 /\ Report(Case.id, pos, bad')

AReadData == Is("ReadData") /\ Step(ReadData(E), IF AllPadded(mesh.reg, E.regions) THEN [mesh EXCEPT !.reg = E.regions] ELSE mesh, lines)
ARead == Is("Read") /\ Step(Read(E), IF AllPadded(mesh.bf, E.bfaces) THEN [mesh EXCEPT !.bf = E.bfaces] ELSE mesh, lines)
AReread == Is("Reread") /\ Step(Reread(E), mesh, lines)
AOrient == Is("Orient") /\ Step(Orient(E, OwnerMap(mesh.cells)),
               [mesh EXCEPT !.bf = IF BfUndirected(E.bfaces, mesh.bf) THEN E.bfaces ELSE @], lines)
ARestrict == Is("Restrict") /\ Step(Restrict(E), mesh, lines)
\* what is derived after a renumbering must be what the renumbered mesh gives
Renumbered == \E k \in 1..pos : Case.ev[k].event \in {"Renumber", "Order"}
Derived(S) == S \cup (IF S # {} /\ Renumbered THEN {"R01.derived"} ELSE {})
ATopology == Is("Topology") /\ Step(Derived(Topology(E, OwnerMap(mesh.cells))), [mesh EXCEPT !.fac = E.intfac, !.tags = E.btags], lines)
AGeometry == Is("Geometry") /\ Step(Derived(Geometry(E, mesh.fac)), mesh, lines)
ARenumber == Is("Renumber") /\ LET m2 == Permuted(mesh, E.perm) IN Step(Failed(Renum("R01", E, m2)), m2, lines)
AOrder == Is("Order") /\ LET p == Inferred(E) IN
            IF p = << >> THEN Step({"R01.permutation"}, mesh, lines)
            ELSE LET m2 == Permuted(mesh, p) IN Step(Failed(Renum("R01", E, m2)), m2, lines)
APeriodic == Is("Periodic") /\ Step(Periodic(E, mesh.fac, mesh.tags), mesh, lines)
ACompare == Is("Compare") /\ Step(Compare(E), mesh, lines)
ALevels == Is("Levels") /\ Step(Levels(E, OwnerMap(mesh.cells)), mesh, lines)
ALines == Is("Lines") /\ Step(Lines(E, OwnerMap(mesh.cells), mesh.fac), mesh, E.lines)
AHybrid == Is("Hybrid") /\ Step(IF HybridOK(E.perm, E.gorder) THEN {} ELSE {"R02.hybrid"}, mesh, lines)
ALineReorder == Is("LineReorder") /\ LET m2 == Permuted(mesh, NaturalLineOrder(lines)) IN
            Step(Failed({c \in Renum("R02", E, m2) : c[1] # "R02.regions"}), m2, lines)
AHybridReorder == Is("HybridReorder") /\ LET p == Inferred(E) IN
            IF p = << >> \/ ~HybridOK(p, E.gorder) THEN Step({"R02.hybrid_reorder"}, mesh, lines)
            ELSE LET m2 == Permuted(mesh, p) IN Step(Failed({c \in Renum("R02", E, m2) : c[1] # "R02.regions"}), m2, lines)
\* anything else (a crash, an exception, an unknown event) is explained by no action
Known == {"ReadData","Read","Reread","Orient","Restrict","Topology","Geometry","Renumber","Order","Periodic","Levels","Lines","Hybrid","LineReorder","HybridReorder","Compare"}
AUnexplained == /\ bad = {} /\ pos < Len(Case.ev) /\ E.event \notin Known
                /\ pos' = pos + 1 /\ bad' = {Prop \o ".unexplained_" \o E.event} /\ Report(Case.id, pos, bad') /\ UNCHANGED <<ci, mesh, lines>>
Next == AReadData \/ ARead \/ AReread \/ AOrient \/ ARestrict \/ ATopology \/ AGeometry \/ ARenumber \/ AOrder \/ APeriodic
        \/ ALevels \/ ALines \/ AHybrid \/ ALineReorder \/ AHybridReorder \/ ACompare \/ AUnexplained
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
