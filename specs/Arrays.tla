-------------------------------- MODULE Arrays --------------------------------
(* Two-dimensional arrays as values. A history creates, copies, moves, assigns, resizes, *)
(* fills, prints and reads back up to SLOTS arrays; every array has a shape and entries   *)
(* of its own, so that an operation on one changes no other (except that moving empties  *)
(* the source). U stands for an entry that has not been given a value.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS SLOTS, DEPTH, EMIT
U == -123456789
Sizes == 0..3
Dead == [live |-> FALSE, r |-> 0, c |-> 0, e |-> << >>]
Arr(r, c, e) == [live |-> TRUE, r |-> r, c |-> c, e |-> e]
Const(n, x) == [i \in 1..n |-> x]
Count(n, x) == [i \in 1..n |-> x + i - 1]
Start == [k \in 1..SLOTS |-> Dead]
Op(o, k, l, i, j, x, r, c) == [op |-> o, k |-> k, l |-> l, i |-> i, j |-> j, x |-> x, r |-> r, c |-> c]
Live(s) == {k \in 1..SLOTS : s[k].live}
Given(a) == \A i \in 1..Len(a.e) : a.e[i] # U
\* the operations that make sense in state s; x is a fresh value
Ops(s, x) ==
  LET L == Live(s) IN LET D == (1..SLOTS) \ L IN
  {Op("new", k, 0, 0, 0, 0, r, c) : k \in D, r \in Sizes, c \in Sizes}
  \cup {Op("empty", k, 0, 0, 0, 0, 0, 0) : k \in D}
  \cup {Op(o, k, l, 0, 0, 0, 0, 0) : o \in {"copy", "move"}, k \in D, l \in L}
  \cup {Op("assign", k, l, 0, 0, 0, 0, 0) : k \in L, l \in L}
  \cup {Op("trip", k, l, 0, 0, 0, 0, 0) : k \in L, l \in {m \in L : Given(s[m])}}
  \cup {Op("resize", k, 0, 0, 0, 0, r, c) : k \in L, r \in Sizes, c \in Sizes}
  \cup {Op(o, k, 0, 0, 0, x, 0, 0) : o \in {"zeros", "ones", "data", "del"}, k \in L}
  \cup UNION {{Op("set", k, 0, i, j, x, 0, 0) : i \in 1..s[k].r, j \in 1..s[k].c} : k \in L}
  \cup UNION {{Op("row", k, 0, i, 0, x, 0, 0) : i \in 1..s[k].r} : k \in L}
Do(s, o) ==
  LET a == s[o.k] n == Len(a.e) IN
  CASE o.op \in {"new", "resize"} -> [s EXCEPT ![o.k] = Arr(o.r, o.c, Const(o.r * o.c, U))]
    [] o.op = "empty" -> [s EXCEPT ![o.k] = Arr(0, 0, << >>)]
    [] o.op \in {"copy", "assign", "trip"} -> [s EXCEPT ![o.k] = s[o.l]]
    [] o.op = "move" -> [s EXCEPT ![o.k] = s[o.l], ![o.l] = Arr(0, 0, << >>)]
    [] o.op = "zeros" -> [s EXCEPT ![o.k].e = Const(n, 0)]
    [] o.op = "ones" -> [s EXCEPT ![o.k].e = Const(n, 1)]
    [] o.op = "data" -> [s EXCEPT ![o.k].e = Count(n, o.x)]
    [] o.op = "set" -> [s EXCEPT ![o.k].e[(o.i - 1) * a.c + o.j] = o.x]
    [] o.op = "row" -> [s EXCEPT ![o.k].e = [q \in 1..n |-> IF ((q - 1) \div a.c) + 1 = o.i THEN o.x + ((q - 1) % a.c) ELSE a.e[q]]]
    [] o.op = "del" -> [s EXCEPT ![o.k] = Dead]
---------------------------------------------------------------------------
VARIABLES st, hist
Init == st = Start /\ hist = << >>
Next == /\ Len(hist) < DEPTH
        /\ \E o \in Ops(st, 10 * (Len(hist) + 1)) : st' = Do(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<st, hist>>
Shapes == \A k \in 1..SLOTS : Len(st[k].e) = st[k].r * st[k].c
\* an operation changes its own array only, but for the source of a move
Separate == [][\A k \in 1..SLOTS : st'[k] # st[k] => LET o == hist'[Len(hist')] IN k = o.k \/ (o.op = "move" /\ k = o.l)]_<<st, hist>>
Emit == Len(hist) < DEPTH \/ ~EMIT \/ PrintT("OPS " \o ToJson(hist))
=============================================================================
