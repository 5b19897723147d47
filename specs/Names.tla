--------------------------------- MODULE Names ---------------------------------
(* The documented names of the interchangeable parts of a discretisation, by slot. A  *)
(* name outside the slot's set is unknown and has to be refused.                      *)
EXTENDS Naturals, Sequences
Documented == [flux |-> {"LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"},
               jflux |-> {"LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"},
               grad |-> {"GREENGAUSS", "LEASTSQUARES", "NONE"},
               recon |-> {"NONE", "WENO", "VANALBADA", "BARTHJESPERSEN", "VENKATAKRISHNAN"},
               update |-> {"FULL", "ROBUST_FLOW"},
               bc |-> {"slipwall", "farfield", "inflowoutflow", "subsonic_inflow", "extrapolation", "isothermalwall", "adiabaticwall"}]
Slots == DOMAIN Documented
\* names: a sequence of pairs <<slot, name>>
Known(names) == \A k \in 1..Len(names) : names[k][1] \in Slots /\ names[k][2] \in Documented[names[k][1]]
=============================================================================
