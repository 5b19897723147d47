-------------------------------- MODULE Halo --------------------------------
(* Design of the trace-vector exchange: every process repeatedly writes the near   *)
(* sides of its faces, packs one message per neighbouring process, starts the      *)
(* sends, starts the receives, waits for its sends, then waits for and unpacks     *)
(* one receive per neighbour. Messages between two processes are delivered in      *)
(* order (MPI's non-overtaking rule) after any delay; a send may complete late.    *)
(* The faces two processes share are listed by each in its own order; the setup    *)
(* exchange of global face numbers yields the map used when unpacking.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, ROUNDS, G
\* shared faces <<face, p, q>>
GRAPH == CASE G = 1 -> {<<1,0,1>>, <<2,0,1>>}
           [] G = 2 -> {<<1,0,1>>, <<2,1,2>>, <<3,0,2>>}
           [] G = 3 -> {<<1,0,1>>, <<2,0,1>>, <<3,1,2>>}
           [] G = 4 -> {<<1,0,1>>, <<2,1,2>>, <<3,2,3>>, <<4,3,0>>}
Procs == 0..NP-1
FacesOf(p) == {g \in GRAPH : p = g[2] \/ p = g[3]}
Other(g, p) == IF g[2] = p THEN g[3] ELSE g[2]
Nbrs(p) == {Other(g, p) : g \in FacesOf(p)}
Shared(p, q) == {g[1] : g \in {g \in FacesOf(p) : Other(g, p) = q}}
\* each process has its own order of the shared faces: ascending if p < q, descending otherwise
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Order(p, q) == IF p < q THEN Asc(Shared(p, q)) ELSE Rev(Asc(Shared(p, q)))

VARIABLES pc, round, left, right, chan, buf, sendpending, map, todo
vars == <<pc, round, left, right, chan, buf, sendpending, map, todo>>
Pairs == {<<p, q>> \in Procs \X Procs : q \in Nbrs(p)}
Val(p, f, k) == <<p, f, k>>
Init == /\ pc = [p \in Procs |-> "setup"] /\ round = [p \in Procs |-> 0]
        /\ left = [p \in Procs |-> [f \in {g[1] : g \in FacesOf(p)} |-> Val(p, f, 0)]]
        /\ right = [p \in Procs |-> [f \in {g[1] : g \in FacesOf(p)} |-> << >>]]
        /\ chan = [x \in Pairs |-> << >>] /\ buf = [x \in Pairs |-> << >>] /\ sendpending = {}
        /\ map = [x \in Pairs |-> << >>] /\ todo = [p \in Procs |-> {}]
\* ---- setup: tell each neighbour the order of my faces
SetupSend(p) == /\ pc[p] = "setup"
                /\ chan' = [x \in Pairs |-> IF x[1] = p THEN Append(chan[x], Order(p, x[2])) ELSE chan[x]]
                /\ pc' = [pc EXCEPT ![p] = "setuprecv"] /\ todo' = [todo EXCEPT ![p] = Nbrs(p)]
                /\ UNCHANGED <<round, left, right, buf, sendpending, map>>
SetupRecv(p) == /\ pc[p] = "setuprecv"
                /\ IF todo[p] = {} THEN pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<chan, map, todo>>
                   ELSE \E q \in todo[p] : /\ chan[<<q, p>>] # << >>
                                           /\ map' = [map EXCEPT ![<<p, q>>] = Head(chan[<<q, p>>])]
                                           /\ chan' = [chan EXCEPT ![<<q, p>>] = Tail(@)]
                                           /\ todo' = [todo EXCEPT ![p] = @ \ {q}] /\ UNCHANGED pc
                /\ UNCHANGED <<round, left, right, buf, sendpending>>
\* ---- one exchange
Write(p) == /\ pc[p] = "write" /\ round[p] < ROUNDS
            /\ round' = [round EXCEPT ![p] = @ + 1]
            /\ left' = [left EXCEPT ![p] = [f \in DOMAIN @ |-> Val(p, f, round[p] + 1)]]
            /\ pc' = [pc EXCEPT ![p] = "begin"] /\ UNCHANGED <<right, chan, buf, sendpending, map, todo>>
Begin(p) == /\ pc[p] = "begin"
            /\ buf' = [x \in Pairs |-> IF x[1] = p THEN [i \in 1..Len(Order(p, x[2])) |-> left[p][Order(p, x[2])[i]]] ELSE buf[x]]
            /\ sendpending' = sendpending \cup {x \in Pairs : x[1] = p}
            /\ pc' = [pc EXCEPT ![p] = "end"] /\ UNCHANGED <<round, left, right, chan, map, todo>>
\* the network reads the send buffer at some time before the send completes
Transmit(x) == /\ x \in sendpending /\ chan' = [chan EXCEPT ![x] = Append(@, buf[x])] /\ sendpending' = sendpending \ {x}
               /\ UNCHANGED <<pc, round, left, right, buf, map, todo>>
\* between Begin and End the owner may already write new near-side values
Compute(p) == /\ pc[p] = "end" /\ left[p] # [f \in DOMAIN left[p] |-> Val(p, f, -1)]
              /\ left' = [left EXCEPT ![p] = [f \in DOMAIN @ |-> Val(p, f, -1)]]
              /\ UNCHANGED <<pc, round, right, chan, buf, sendpending, map, todo>>
WaitSends(p) == /\ pc[p] = "end" /\ \A x \in sendpending : x[1] # p
                /\ buf' = [x \in Pairs |-> IF x[1] = p THEN << >> ELSE buf[x]]
                /\ pc' = [pc EXCEPT ![p] = "unpack"] /\ todo' = [todo EXCEPT ![p] = Nbrs(p)]
                /\ UNCHANGED <<round, left, right, chan, sendpending, map>>
Unpack(p) == /\ pc[p] = "unpack"
             /\ IF todo[p] = {} THEN pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<chan, right, todo>>
                ELSE \E q \in todo[p] : /\ chan[<<q, p>>] # << >>
                       /\ LET m == Head(chan[<<q, p>>]) IN
                          right' = [right EXCEPT ![p] = [f \in DOMAIN @ |-> IF \E i \in 1..Len(m) : map[<<p, q>>][i] = f
                                        THEN m[CHOOSE i \in 1..Len(m) : map[<<p, q>>][i] = f] ELSE @[f]]]
                       /\ chan' = [chan EXCEPT ![<<q, p>>] = Tail(@)] /\ todo' = [todo EXCEPT ![p] = @ \ {q}] /\ UNCHANGED pc
             /\ UNCHANGED <<round, left, buf, sendpending, map>>
Done == /\ \A p \in Procs : pc[p] = "write" /\ round[p] = ROUNDS
        /\ UNCHANGED vars
Next == (\E p \in Procs : SetupSend(p) \/ SetupRecv(p) \/ Write(p) \/ Begin(p) \/ Compute(p) \/ WaitSends(p) \/ Unpack(p)) \/ (\E x \in Pairs : Transmit(x)) \/ Done
Fair == /\ \A p \in Procs : WF_vars(SetupSend(p) \/ SetupRecv(p) \/ Write(p) \/ Begin(p) \/ WaitSends(p) \/ Unpack(p))
        /\ \A x \in Pairs : WF_vars(Transmit(x))
Spec == Init /\ [][Next]_vars /\ Fair
\* P03: when an exchange is complete the far side is what the neighbour wrote before that exchange
Delivered == \A p \in Procs : (pc[p] = "write" /\ round[p] > 0) => \A g \in FacesOf(p) : right[p][g[1]] = Val(Other(g, p), g[1], round[p])
MapRight == \A x \in Pairs : map[x] # << >> => map[x] = Order(x[2], x[1])
NeverAhead == \A x \in Pairs : Len(chan[x]) <= 2
Terminates == <>(\A p \in Procs : round[p] = ROUNDS /\ pc[p] = "write")
=============================================================================
