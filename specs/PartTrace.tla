----------------------------- MODULE PartTrace ------------------------------
(* A mesh distributed over processes. The state is the global mesh, the map from   *)
(* cells to owners, and what every process holds (its subdomain, expressed in      *)
(* global terms). Events are collective: field r holds one observation per rank.   *)
EXTENDS MeshDefs, TraceBase
VARIABLES ci, pos, own, subs, bad
vars == <<ci, pos, own, subs, bad>>
Case == Cases[ci]
G == Case.mesh
NE == Len(G.cells)
NR == Case.nranks
Ranks == 1..NR                          \* 1-based; rank r-1 in the program
Cl(p, name, b) == <<p \o "." \o name, b>>
E == Case.ev[pos + 1]
\* global (0-based) vertex at a coordinate, -1 if there is none
VAt(xy) == LET S == {v \in 1..Len(G.pts) : G.pts[v] = xy} IN IF S = {} THEN -1 ELSE (CHOOSE v \in S : TRUE) - 1
Rot(c, d) == Len(c) = Len(d) /\ \E k \in 0..Len(c)-1 : \A j \in 1..Len(c) : c[j] = d[((j + k - 1) % Len(c)) + 1]
OwnedBy(o, r) == {i \in 1..NE : o[i] = r - 1}

(* ------------------------------------------------------------- Distribute ------ *)
ValidOwner(o) == Len(o) = NE /\ Range(o) = 0..NR-1
Abstract(o) == [gid |-> [p \in 1..Len(o.coords) |-> VAt(o.coords[p])], gindex |-> o.gindex, cells |-> o.cells, conn |-> o.conn, bfaces |-> o.bfaces, fac |-> << >>]
SubShape(o) == /\ Len(o.cells) = o.nelem /\ Len(o.gindex) = o.nelem /\ Len(o.coords) = o.npoin /\ Len(o.bfaces) = o.nbface /\ Len(o.regions) = o.nelem
               /\ \A i \in 1..o.nelem : Range(o.cells[i]) \subseteq 0..o.npoin-1 /\ o.gindex[i] \in 0..NE-1 /\ Len(o.cells[i]) \in {3, 4}
               /\ \A b \in 1..o.nbface : {o.bfaces[b][1], o.bfaces[b][2]} \subseteq 0..o.npoin-1
GCell(s, i) == [k \in 1..Len(s.cells[i]) |-> s.gid[s.cells[i][k] + 1]]
Bag(seq) == [x \in Range(seq) |-> Cardinality({i \in 1..Len(seq) : seq[i] = x})]
Distribution(o, R, S) ==
  LET om == OwnerMap(G.cells) IN
  Failed({
    Cl("P01", "owner_given", Len(Case.own) > 0 => o = Case.own),
    Cl("P01", "agreed", \A r \in Ranks : R[r].dist = o),
    Cl("P01", "contiguous", Case.part = "trivial" => \A i \in 1..NE-1 : o[i] <= o[i+1]),
    Cl("P01", "counts", \A r \in Ranks : R[r].nelem = Cardinality(OwnedBy(o, r)) /\ R[r].nelemglobal = NE /\ R[r].npoinglobal = Len(G.pts)),
    Cl("P01", "cover", \A r \in Ranks : {R[r].gindex[i] + 1 : i \in 1..R[r].nelem} = OwnedBy(o, r)),
    Cl("P01", "cells", \A r \in Ranks : \A i \in 1..R[r].nelem : Rot(GCell(S[r], i), G.cells[R[r].gindex[i] + 1])),
    Cl("P01", "points", \A r \in Ranks : /\ Range(S[r].gid) = UNION {Range(G.cells[i]) : i \in OwnedBy(o, r)}
                                         /\ Cardinality(Range(S[r].gid)) = R[r].npoin),
    Cl("P01", "regions", \A r \in Ranks : \A i \in 1..R[r].nelem : R[r].regions[i] = G.reg[R[r].gindex[i] + 1]),
    Cl("P01", "boundary", \A r \in Ranks :
        Bag([b \in 1..R[r].nbface |-> <<{S[r].gid[R[r].bfaces[b][1]+1], S[r].gid[R[r].bfaces[b][2]+1]}, SubSeq(R[r].bfaces[b], 3, Len(R[r].bfaces[b]))>>])
        = [x \in {<<{G.bf[b][1], G.bf[b][2]}, SubSeq(G.bf[b], 3, Len(G.bf[b]))>> :
                     b \in {b \in 1..Len(G.bf) : o[CHOOSE i \in om[{G.bf[b][1], G.bf[b][2]}] : TRUE] = r - 1}} |-> 1])})
\* the edge (global vertices) of an inter-process face row and what is across it
RowEdge(s, row) == LET c == GCell(s, row[1] + 1) IN Undir(DEdge(c, row[2] + 1))
RowOK(s, row) == Len(row) = 5 /\ row[1] \in 0..Len(s.cells)-1 /\ row[2] \in 0..Len(s.cells[row[1]+1])-1
CutEdges(o, om, r) == {e \in DOMAIN om : Cardinality(om[e]) = 2 /\ \E i, j \in om[e] : o[i] = r - 1 /\ o[j] # r - 1}
Interfaces(o, R, S) ==
  LET om == OwnerMap(G.cells) IN
  IF ~(\A r \in Ranks : \A k \in 1..Len(S[r].conn) : RowOK(S[r], S[r].conn[k])) THEN {"P02.rows"} ELSE Failed({
    Cl("P02", "exactly_cut_edges", \A r \in Ranks : /\ {RowEdge(S[r], S[r].conn[k]) : k \in 1..Len(S[r].conn)} = CutEdges(o, om, r)
                                                    /\ Len(S[r].conn) = Cardinality(CutEdges(o, om, r))),
    Cl("P02", "names_other_side", \A r \in Ranks : \A k \in 1..Len(S[r].conn) :
        LET w == S[r].conn[k] e == RowEdge(S[r], w) g == S[r].gindex[w[1]+1] + 1 IN
        e \in DOMAIN om /\ g \in om[e] /\ (om[e] \ {g} = {w[4] + 1}) /\ o[w[4] + 1] = w[3]),
    Cl("P02", "global_indices", \A r \in Ranks : R[r].conng = [k \in 1..Len(S[r].conn) |-> S[r].conn[k][4]]),
    Cl("P02", "same_face_number", \A r, q \in Ranks : \A k \in 1..Len(S[r].conn) : \A l \in 1..Len(S[q].conn) :
        (RowEdge(S[r], S[r].conn[k]) = RowEdge(S[q], S[q].conn[l])) <=> (S[r].conn[k][5] = S[q].conn[l][5]))})

(* --------------------------------------------------------------- Topology ------ *)
LocalTopology(o, om, s, t, r) ==
  LET nc == Len(s.conn) F == t.intfac
      ue(f) == {s.gid[F[f][3]+1], s.gid[F[f][4]+1]}
      phys == {e \in DOMAIN om : Cardinality(om[e]) = 1 /\ \E i \in om[e] : o[i] = r - 1}
      inner == {e \in DOMAIN om : Cardinality(om[e]) = 2 /\ \A i \in om[e] : o[i] = r - 1}
      nb == Cardinality(phys) ni == Cardinality(inner) na == nb + ni + nc nl == Len(s.cells)
      gl(i) == s.gindex[i + 1] + 1
      edgeOf(i, k) == Undir(DEdge(GCell(s, i), k)) IN
  IF ~(/\ t.nelem = nl /\ t.nbface = nb /\ t.ninface = ni /\ t.nconn = nc /\ t.naface = na
       /\ t.ranges = <<0, na, 0, nb, nb, nb + ni, nb + ni, na, nb, na>>) THEN {"P02.counts"} ELSE
  IF ~(/\ Len(F) = na /\ Len(t.metric) = na /\ Len(t.btags) = nb /\ Len(t.elemface) = nl /\ Len(t.esuel) = nl
       /\ \A i \in 1..nl : Len(t.elemface[i]) = Len(s.cells[i]) /\ Len(t.esuel[i]) = Len(s.cells[i])
       /\ \A f \in 1..na : F[f][1] \in 0..nl-1 /\ {F[f][3], F[f][4]} \subseteq 0..Len(s.gid)-1) THEN {"P02.shape"} ELSE Failed({
    Cl("P02", "physical_faces", {ue(f) : f \in 1..nb} = phys /\ \A f \in 1..nb : om[ue(f)] = {gl(F[f][1])} /\ F[f][2] = nl + nc + f - 1),
    Cl("P02", "inner_faces", {ue(f) : f \in nb+1..nb+ni} = inner
         /\ \A f \in nb+1..nb+ni : F[f][2] \in 0..nl-1 /\ F[f][1] < F[f][2] /\ om[ue(f)] = {gl(F[f][1]), gl(F[f][2])}),
    Cl("P02", "interface_faces", \A k \in 1..nc : LET f == nb + ni + k IN
         F[f][1] = s.conn[k][1] /\ F[f][2] = nl + k - 1 /\ ue(f) = RowEdge(s, s.conn[k])),
    Cl("P02", "direction", \A f \in 1..na : LET c == s.cells[F[f][1]+1] IN \E k \in 1..Len(c) : DEdge(c, k) = <<F[f][3], F[f][4]>>),
    Cl("P02", "outward_normals", \A f \in 1..na : LET n == NormalOf(G.pts, s.gid[F[f][3]+1], s.gid[F[f][4]+1]) IN
         Near(t.metric[f][1], 1000*n[1], 1) /\ Near(t.metric[f][2], 1000*n[2], 1)),
    Cl("P02", "cell_faces", \A i \in 1..nl : \A k \in 1..Len(s.cells[i]) :
         t.elemface[i][k] \in 0..na-1 /\ ue(t.elemface[i][k] + 1) = edgeOf(i, k)),
    Cl("P02", "cell_neighbours", \A i \in 1..nl : \A k \in 1..Len(s.cells[i]) : LET e == edgeOf(i, k) IN
         \E f \in 1..na : ue(f) = e /\ t.esuel[i][k] = (IF F[f][1] = i - 1 THEN F[f][2] ELSE F[f][1])),
    Cl("P01", "markers", \A f \in 1..nb : \E b \in 1..Len(G.bf) : {G.bf[b][1], G.bf[b][2]} = ue(f) /\ t.btags[f] = SubSeq(G.bf[b], 3, Len(G.bf[b])))})
Opposite(R, S) ==
  LET f(r, k) == R[r].nbface + R[r].ninface + k IN
  \A r, q \in Ranks : r < q => \A k \in 1..Len(S[r].conn) : \A l \in 1..Len(S[q].conn) :
     (S[r].conn[k][3] = q - 1 /\ S[q].conn[l][3] = r - 1 /\ RowEdge(S[r], S[r].conn[k]) = RowEdge(S[q], S[q].conn[l])) =>
        \A d \in {1, 2} : Near(R[r].metric[f(r, k)][d] + R[q].metric[f(q, l)][d], 0, 1)
Topology(o, R, S) == LET om == OwnerMap(G.cells) bads == UNION {LocalTopology(o, om, S[r], R[r], r) : r \in Ranks} IN
  IF {"P02.counts", "P02.shape"} \cap bads # {} THEN bads ELSE bads \cup (IF Opposite(R, S) THEN {} ELSE {"P02.opposite_normals"})

(* --------------------------------------------------------------- Exchange ------ *)
\* what rank q writes on the near side of its face at position p (0-based) before round k
Code(q, p, k, v, w) == (((q * 400 + p) * 16 + k) * 8 + v) * 2 + w
ExchangeOK(R, S, side, mine, w) ==
  \A r \in Ranks : LET s == S[r] n == s.nface f0 == n - Len(s.conn) nv == R[r].nv k == R[r].round IN
    /\ Len(R[r][mine]) = n /\ Len(R[r][side]) = n
    \* local data is as written
    /\ \A f \in 1..n : R[r][mine][f] = [v \in 1..nv |-> Code(r - 1, f - 1, k, v - 1, w)]
    \* only the far sides of interfaces change
    /\ \A f \in 1..f0 : R[r][side][f] = [v \in 1..nv |-> 0 - 1 - Code(r - 1, f - 1, k, v - 1, w)]
    /\ \A j \in 1..Len(s.conn) : \E q \in Ranks \ {r} : \E l \in 1..Len(S[q].conn) :
         /\ s.conn[j][3] = q - 1 /\ RowEdge(S[q], S[q].conn[l]) = RowEdge(s, s.conn[j])
         /\ R[r][side][f0 + j] = [v \in 1..nv |-> Code(q - 1, S[q].nface - Len(S[q].conn) + l - 1, k, v - 1, w)]
Exchange(R, S) == Failed({
    Cl("P03", "delivered", ExchangeOK(R, S, "right", "left", 0)),
    Cl("P03", "delivered_second", R[1].two = 1 => ExchangeOK(R, S, "right2", "left2", 1)),
    Cl("P03", "same_round", \A r \in Ranks : R[r].round = R[1].round)})

(* ----------------------------------------------------------------- Ghosts ------ *)
First(o, r) == Cardinality({i \in 1..NE : o[i] < r - 1})
Ghosts(o, R, S) == Failed({
    Cl("P04", "ranges", \A r \in Ranks : LET nv == R[r].nv n == Len(S[r].cells) IN
        /\ R[r].range = <<nv * First(o, r), nv * (First(o, r) + n), nv * n, nv * NE>>
        /\ R[r].srange = R[r].range
        /\ R[r].mrange = <<nv * First(o, r), nv * (First(o, r) + n), nv * NE, nv * NE, nv>>),
    Cl("P04", "row_of_cell", \A r \in Ranks : \A i \in 1..Len(S[r].cells) : First(o, r) + i - 1 = S[r].gindex[i]),
    Cl("P04", "own_values", \A r \in Ranks : R[r].own = [i \in 1..Len(S[r].cells) |-> [k \in 1..R[r].nv |-> 1000 + 10 * S[r].gindex[i] + k - 1]]),
    Cl("P04", "ghost_values", \A r \in Ranks : R[r].ghost = [j \in 1..Len(S[r].conn) |-> [k \in 1..R[r].nv |-> 1000 + 10 * S[r].conn[j][4] + k - 1]]),
    Cl("P04", "ghost_sums", \A r \in Ranks : R[r].acc = [i \in 1..Len(S[r].cells) |-> [k \in 1..R[r].nv |->
          k * Cardinality({<<q, l>> \in Ranks \X (1..NE*4) : l <= Len(S[q].conn) /\ S[q].conn[l][4] = S[r].gindex[i]})]])})

(* ------------------------------------------------------------ the machine ------ *)
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ own = << >> /\ subs = << >> /\ bad = {}
Is(name) == bad = {} /\ pos < Len(Case.ev) /\ E.event = name
Only(T) == IF Prop = "ALL" THEN T ELSE {c \in T : SubSeq(c, 1, 3) = Prop}
Step(T, o2, s2) == pos' = pos + 1 /\ bad' = Only(T) /\ own' = o2 /\ subs' = s2 /\ UNCHANGED ci /\ Report(Case.id, pos, bad')
ADistribute == Is("Distribute") /\ LET R == E.r o == R[1].dist IN
   IF ~ValidOwner(o) \/ ~(\A r \in Ranks : SubShape(R[r])) THEN Step({Prop \o ".shape"}, own, subs)
   ELSE LET S == [r \in Ranks |-> Abstract(R[r])] IN Step(Distribution(o, R, S) \cup Interfaces(o, R, S), o, S)
ATopology == Is("Topology") /\ Step(Topology(own, E.r, subs), own, [r \in Ranks |-> [gid |-> subs[r].gid, gindex |-> subs[r].gindex, cells |-> subs[r].cells,
                                          conn |-> subs[r].conn, nface |-> Len(E.r[r].intfac)]])
\* the actions below refer to faces by edges; if those are wrong there is nothing to say about what is carried on them
Meaningful == \A r \in Ranks : \A k \in 1..Len(subs[r].conn) : RowOK(subs[r], subs[r].conn[k])
AExchange == Is("Exchange") /\ Step(IF Meaningful THEN Exchange(E.r, subs) ELSE {Prop \o ".interfaces"}, own, subs)
AGhosts == Is("Ghosts") /\ Step(IF Meaningful THEN Ghosts(own, E.r, subs) ELSE {Prop \o ".interfaces"}, own, subs)
AUnexplained == /\ bad = {} /\ pos < Len(Case.ev) /\ E.event \notin {"Distribute", "Topology", "Exchange", "Ghosts"}
                /\ pos' = pos + 1 /\ bad' = {Prop \o ".unexplained_" \o E.event} /\ Report(Case.id, pos, bad') /\ UNCHANGED <<ci, own, subs>>
Next == ADistribute \/ ATopology \/ AExchange \/ AGhosts \/ AUnexplained
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
