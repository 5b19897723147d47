------------------------------- MODULE FaceLoop -------------------------------
(* The threaded face loop: every thread walks its share of the faces and adds each  *)
(* face's flux to one cell and subtracts it from the other. With atomic updates     *)
(* every interleaving and every division of the faces among threads ends with the   *)
(* same residual; with separate reads and writes it does not.                       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NT, NC, ATOMIC
\* faces of a ring of NC cells plus a boundary face of every cell; right = 0: boundary
Faces == {<<c, (c % NC) + 1>> : c \in 1..NC} \cup {<<c, 0>> : c \in 1..NC}
Flux(f) == f[1] * 7 + f[2] * 3 + 1
Total(c) == LET RECURSIVE S(_)
                S(T) == IF T = {} THEN 0 ELSE LET f == CHOOSE f \in T : TRUE IN
                        (IF f[1] = c THEN -Flux(f) ELSE 0) + (IF f[2] = c THEN Flux(f) ELSE 0) + S(T \ {f}) IN S(Faces)
\* work: updates not yet begun, per thread; reg: value read by a thread (0-1 pending update)
VARIABLES owner, work, pend, r
vars == <<owner, work, pend, r>>
Updates(f) == {<<f, f[1], -1>>} \cup IF f[2] = 0 THEN {} ELSE {<<f, f[2], 1>>}
None == <<>>
Init == /\ owner \in [Faces -> 1..NT]
        /\ work = [t \in 1..NT |-> UNION {Updates(f) : f \in {f \in Faces : owner[f] = t}}]
        /\ pend = [t \in 1..NT |-> None] /\ r = [c \in 1..NC |-> 0]
Amount(u) == u[3] * Flux(u[1])
AtomicUpdate(t) == /\ ATOMIC /\ \E u \in work[t] : /\ r' = [r EXCEPT ![u[2]] = @ + Amount(u)] /\ work' = [work EXCEPT ![t] = @ \ {u}]
                   /\ UNCHANGED <<owner, pend>>
Read(t) == /\ ~ATOMIC /\ pend[t] = None
           /\ \E u \in work[t] : pend' = [pend EXCEPT ![t] = <<u[2], r[u[2]] + Amount(u)>>] /\ work' = [work EXCEPT ![t] = @ \ {u}]
           /\ UNCHANGED <<owner, r>>
Write(t) == /\ ~ATOMIC /\ pend[t] # None
            /\ r' = [r EXCEPT ![pend[t][1]] = pend[t][2]] /\ pend' = [pend EXCEPT ![t] = None] /\ UNCHANGED <<owner, work>>
Done == \A t \in 1..NT : work[t] = {} /\ pend[t] = None
Next == \E t \in 1..NT : AtomicUpdate(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars
Deterministic == Done => \A c \in 1..NC : r[c] = Total(c)
\* nothing is lost on the way: what an interior face gives to one cell it takes from the other
Conserving == Done => LET RECURSIVE S(_) S(c) == IF c = 0 THEN 0 ELSE r[c] + S(c - 1) IN
                      LET RECURSIVE B(_) B(T) == IF T = {} THEN 0 ELSE LET f == CHOOSE f \in T : TRUE IN Flux(f) + B(T \ {f}) IN
                      S(NC) = -B({f \in Faces : f[2] = 0})
=============================================================================
