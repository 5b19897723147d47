-------------------------------- MODULE Handles --------------------------------
(* Scoped access to distributed vectors: objects that take a vector's array (with or  *)
(* without the copies of neighbours' values, for reading or for writing) and give it   *)
(* back exactly once, when told to or when they cease to exist. Every process carries  *)
(* out the same operations on its own part of two vectors; the first has a copy of the *)
(* first value of the next process. Do(s, o) is the effect of operation o.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, SLOTS, DEPTH, EMIT
N == 3                                   \* values per process
Vecs == 1..2
Kinds == {"M", "C", "GM", "GC"}          \* mutable, const; ghosted or not
Ghosted(k) == k \in {"GM", "GC"}
Mutable(k) == k \in {"M", "GM"}
Len0(v) == IF v = 1 /\ NP > 1 THEN N + 1 ELSE N
Seen(k, v) == IF Ghosted(k) THEN Len0(v) ELSE N
None == [kind |-> "none", vec |-> 0]
Start == [obj |-> [s \in 1..SLOTS |-> None], out |-> [v \in Vecs |-> 0],
          val |-> [p \in 1..NP |-> [v \in Vecs |-> [i \in 1..Len0(v) |-> IF i > N THEN 10 * (p % NP) + 100 * v + 1 ELSE 10 * (p - 1) + 100 * v + i]]]]
Next0(p) == (p % NP) + 1
Fits(k, v) == Ghosted(k) => v = 1
Attached(s, x) == s.obj[x].vec # 0
Held(s, v) == {x \in 1..SLOTS : s.obj[x].vec = v}
Written(s, v) == \E x \in Held(s, v) : Mutable(s.obj[x].kind)
\* what process p writes
Val(p, x) == x + 1000 * p
Ops(s, t) ==
  UNION {{[op |-> "new", s |-> x, kind |-> k, v |-> 0, i |-> 0, x |-> 0] : k \in Kinds} : x \in {x \in 1..SLOTS : s.obj[x] = None}}
  \cup UNION {UNION {{[op |-> "newv", s |-> x, kind |-> k, v |-> v, i |-> 0, x |-> 0] : k \in {k \in Kinds : Fits(k, v)}} : v \in Vecs} : x \in {x \in 1..SLOTS : s.obj[x] = None}}
  \cup UNION {{[op |-> "set", s |-> x, kind |-> s.obj[x].kind, v |-> v, i |-> 0, x |-> 0] : v \in {v \in Vecs : Fits(s.obj[x].kind, v)}} : x \in {x \in 1..SLOTS : s.obj[x] # None}}
  \cup UNION {{[op |-> "write", s |-> x, kind |-> s.obj[x].kind, v |-> 0, i |-> i, x |-> t] : i \in {1, Seen(s.obj[x].kind, s.obj[x].vec)}} : x \in {x \in 1..SLOTS : Attached(s, x) /\ Mutable(s.obj[x].kind)}}
  \cup UNION {{[op |-> o, s |-> x, kind |-> s.obj[x].kind, v |-> 0, i |-> 0, x |-> 0] : o \in {"read", "restore", "del"}} : x \in {x \in 1..SLOTS : s.obj[x] # None}}
  \cup {[op |-> o, s |-> 0, kind |-> "", v |-> v, i |-> 0, x |-> 0] : o \in {"norm", "update"}, v \in {v \in Vecs : ~Written(s, v)}}
Release(s, x, o) == IF Attached(s, x) THEN [s EXCEPT !.obj[x] = o, !.out[s.obj[x].vec] = @ - 1] ELSE [s EXCEPT !.obj[x] = o]
Do(s, o) ==
  CASE o.op = "new" -> [s EXCEPT !.obj[o.s] = [kind |-> o.kind, vec |-> 0]]
    [] o.op = "newv" -> [s EXCEPT !.obj[o.s] = [kind |-> o.kind, vec |-> o.v], !.out[o.v] = @ + 1]
    [] o.op = "set" -> IF Attached(s, o.s) THEN s ELSE [s EXCEPT !.obj[o.s].vec = o.v, !.out[o.v] = @ + 1]
    [] o.op = "write" -> [s EXCEPT !.val = [p \in 1..NP |-> [s.val[p] EXCEPT ![s.obj[o.s].vec][o.i] = Val(p, o.x)]]]
    [] o.op = "restore" -> Release(s, o.s, [s.obj[o.s] EXCEPT !.vec = 0])
    [] o.op = "del" -> Release(s, o.s, None)
    [] o.op = "update" -> IF Len0(o.v) = N THEN s ELSE [s EXCEPT !.val = [p \in 1..NP |-> [s.val[p] EXCEPT ![o.v][N + 1] = s.val[Next0(p)][o.v][1]]]]
    [] OTHER -> s
\* a second vector is refused while one is attached
Refused(s, o) == o.op = "set" /\ Attached(s, o.s)
---------------------------------------------------------------------------
VARIABLES st, hist
Init == st = Start /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E o \in Ops(st, Len(hist) + 1) : st' = Do(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<st, hist>>
\* every access taken and not yet given back belongs to exactly one object
Balanced == \A v \in Vecs : st.out[v] = Cardinality(Held(st, v))
\* only writes through an object and updates change values
Stable == [][st'.val # st.val => hist'[Len(hist')].op \in {"write", "update"}]_<<st, hist>>
Emit == Len(hist) < DEPTH \/ ~EMIT \/ PrintT("OPS " \o ToJson(hist))
=============================================================================
