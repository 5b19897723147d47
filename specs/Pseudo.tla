-------------------------------- MODULE Pseudo --------------------------------
(* Pseudo-time iteration, abstractly. Residual norms and CFL numbers are on a      *)
(* logarithmic scale of 20 units per decade; NF stands for a non-finite norm and Z   *)
(* for a norm of zero. Every behaviour is a residual history with a configuration;  *)
(* the finished ones are carried out by the implementation (check O01, O02).        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXIT, EMIT
NF == 9999
Z == -9999
Levels == {Z, -60, -20, 0, 20, NF}
Tols == {-10, -50, -9000}        \* -9000: tolerance zero, reached by a zero norm only
Spans == {0, 8, 100}             \* final over initial CFL number
VARIABLES tol, max, span, hist, cfls, status
vars == <<tol, max, span, hist, cfls, status>>
Clip(x) == IF x < 0 THEN 0 ELSE IF x > span THEN span ELSE x
\* the norm before the first one is one
Norm(k) == IF k <= 0 THEN 0 ELSE hist[k]
\* CFL number of step k (from 1): grows with the fourth root of a fall of the residual, falls with the 0.3 power of a rise
Ramp(k, prev) == LET d == Norm(k - 2) - Norm(k - 1) IN
  IF k = 1 THEN 0 ELSE Clip(prev + (IF d > 0 THEN d \div 4 ELSE (3 * d) \div 10))
Small(x, first) == x = Z \/ (x # NF /\ first # Z /\ x - first <= tol)
Verdict(h) ==
  IF h # <<>> /\ h[Len(h)] = NF THEN "numerical"
  ELSE IF h # <<>> /\ Small(h[Len(h)], h[1]) THEN "ok"
  ELSE IF Len(h) >= max THEN (IF h = <<>> THEN "ok" ELSE "tolerance") ELSE "run"
Init == /\ tol \in Tols /\ max \in 0..MAXIT /\ span \in Spans
        /\ hist = <<>> /\ cfls = <<>> /\ status = (IF max = 0 THEN "ok" ELSE "run")
Step == /\ status = "run"
        /\ \E l \in Levels : hist' = Append(hist, l)
        /\ cfls' = Append(cfls, Ramp(Len(hist) + 1, IF cfls = <<>> THEN 0 ELSE cfls[Len(cfls)]))
        /\ status' = Verdict(hist')
        /\ UNCHANGED <<tol, max, span>>
Next == Step
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Bounded == Len(hist) <= max /\ Len(cfls) = Len(hist)
\* stops exactly at the first step that meets the tolerance, is not finite, or is the last permitted
Exact == \A k \in 1..Len(hist) - 1 : hist[k] # NF /\ ~Small(hist[k], hist[1]) /\ k < max
Truth == /\ status = "ok" => (max = 0 \/ Small(hist[Len(hist)], hist[1]))
         /\ status = "numerical" <=> (hist # <<>> /\ hist[Len(hist)] = NF)
         /\ status = "tolerance" => (Len(hist) = max /\ ~Small(hist[Len(hist)], hist[1]))
CFLBounds == \A k \in 1..Len(cfls) : cfls[k] \in 0..span
CFLRule == \A k \in 3..Len(cfls) : /\ hist[k-1] < hist[k-2] => cfls[k] >= cfls[k-1]
                                   /\ hist[k-1] > hist[k-2] => cfls[k] <= cfls[k-1]
                                   /\ hist[k-1] = hist[k-2] => cfls[k] = cfls[k-1]
Emit == (status = "run") \/ ~EMIT \/ PrintT("RUN " \o ToJson([tol |-> tol, max |-> max, span |-> span, hist |-> hist, cfls |-> cfls, out |-> status]))
Terminates == <>(status # "run")
Live == Spec /\ WF_vars(Next)
=============================================================================
