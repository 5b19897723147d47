------------------------------- MODULE ConfigGen -------------------------------
(* Control files: from a complete one, keys are given other values, invalid ones, or   *)
(* left out, in the order of the table. With SWEEP every key is visited once and takes  *)
(* any of its valid values.                                                             *)
EXTENDS Config, Json
CONSTANTS DEV, SWEEP, EMIT
E(p, good, bad) == [p |-> p, good |-> good, bad |-> bad]
A == <<>>
Num(p, a, b) == E(p, <<<<a>>, <<b>>>>, <<A, <<"abc">>>>)
\* further boundary conditions, given all or not at all
Wide == [j \in 1..18 |-> LET i == 4 + (j - 1) \div 2 IN
  IF j % 2 = 1 THEN E(BC(i, "type"), <<<<IF i % 3 = 0 THEN "slipwall" ELSE "farfield">>, <<"extrapolation">>, <<"inflowoutflow">>>>, <<A, <<"outlet">>>>) ELSE E(BC(i, "marker"), <<<<ToString(60 + i)>>, <<ToString(100 - i)>>>>, <<<<"abc">>>>)]
Table == <<
  E("io.mesh_file", <<<<"a.msh">>, <<"grids/b.su2">>, <<"Grids/My Mesh.MSH">>>>, <<A>>), E("io.solution_output_file", <<<<"sol.vtu">>, <<"x/y.vtu">>, <<"Out Dir/Sol.vtu">>>>, <<A>>), E("io.log_file_prefix", <<<<"log1">>, <<"logs/l2">>, <<"Logs/Run A">>>>, <<A>>),
  E("io.convergence_history_required", <<<<"true">>, <<"false">>>>, <<A, <<"maybe">>>>),
  E("flow_conditions.flow_type", <<<<"navierstokes">>, <<"euler">>, <<"NavierStokes">>, <<"EULER">>>>, <<A, <<"rans">>, <<"potential">>>>),
  Num("flow_conditions.adiabatic_index", "1.4", "1.3"), Num("flow_conditions.angle_of_attack", "2.5", "-30"), Num("flow_conditions.freestream_Mach_number", "0.5", "1.75"),
  Num("flow_conditions.freestream_Reynolds_number", "5000.0", "120"), Num("flow_conditions.freestream_temperature", "290.0", "211.5"), Num("flow_conditions.Prandtl_number", "0.72", "0.9"),
  E("flow_conditions.use_constant_viscosity", <<A, <<"true">>, <<"false">>>>, <<<<"maybe">>>>),
  E("bc.bc0.type", <<<<"farfield">>, <<"FarField">>, <<"slipwall">>, <<"inflowoutflow">>>>, <<A, <<"outlet">>>>), E("bc.bc0.marker", <<<<"4">>, <<"40">>>>, <<A, <<"abc">>, <<"2.5">>>>),
  E("bc.bc1.type", <<<<"subsonic_inflow">>, <<"Subsonic_Inflow">>, <<"isothermalwall">>, <<"IsothermalWall">>>>, <<A, <<"wall">>>>), E("bc.bc1.marker", <<<<"3">>, <<"-3">>>>, <<A, <<"x">>>>),
  E("bc.bc1.boundary_values", <<<<"2.0", "373.0">>, <<"-1.25", "401">>, <<"1e-2", "300.5", "7.25">>>>, <<A, <<"2.0">>, <<"2.0", "abc">>, <<"x", "1.0">>>>),
  E("bc.bc2.type", <<<<"adiabaticwall">>, <<"AdiabaticWall">>, <<"extrapolation">>, <<"SLIPWALL">>>>, <<<<"nowall">>>>), E("bc.bc2.marker", <<<<"5">>, <<"55">>>>, <<<<"1.5x">>>>),
  E("bc.bc2.boundary_values", <<<<"20.0">>, <<"0.5">>>>, <<A, <<"abc">>>>),
  E("bc.bc3.type", <<A, <<"periodic">>>>, <<>>), E("bc.bc3.marker", <<A, <<"9">>>>, <<>>), E("bc.bc3.options", <<A, <<"9", "1">>, <<"8", "0">>>>, <<<<"9">>, <<"9", "x">>>>),
  E("bc.listof_output_wall_boundaries", <<<<"5", "3">>, <<"5">>, A, <<"3", "5", "12", "-7">>>>, <<<<"5", "x">>, <<"7.25">>>>), E("bc.listof_output_other_boundaries", <<<<"4">>, A, <<"4", "11">>>>, <<<<"x">>>>),
  E("bc.surface_output_file_prefix", <<<<"surf">>, <<"out/s">>, <<"Out/My Surf">>>>, <<A>>), E("bc.volume_output_file_prefix", <<A, <<"volume">>, <<"Vol/My V">>>>, <<>>),
  E("time.simulation_type", <<<<"steady">>, <<"Steady">>, <<"unsteady">>, <<"UnSteady">>>>, <<A, <<"periodic">>>>), Num("time.final_time", "3.5", "0.25"), E("time.time_integrator", <<<<"tvdrk">>, <<"TVDRK">>, <<"bdf">>>>, <<A>>),
  E("time.temporal_order", <<<<"2">>, <<"3">>>>, <<A, <<"abc">>>>), Num("time.physical_cfl", "0.65", "0.15"), Num("time.physical_time_step", "0.015", "0.035"),
  E("spatial_discretization.inviscid_flux", <<<<"Roe">>, <<"hllc">>, <<"VanLeer">>, <<"llf">>>>, <<A>>), E("spatial_discretization.gradient_method", <<<<"leastsquares">>, <<"greenGauss">>, <<"none">>, <<"NONE">>, <<"leastSquares">>>>, <<A>>),
  E("spatial_discretization.limiter", <<<<"WENO">>, <<"none">>, <<"VanAlbada">>, <<"Venkatakrishnan">>, <<"weno">>>>, <<A>>), E("spatial_discretization.limiter_parameter", <<<<"20.5">>, <<"0.75">>>>, <<<<"abc">>>>),
  E("pseudotime.pseudotime_stepping_type", <<<<"implicit">>, <<"explicit">>, <<"IMPLICIT">>, <<"Explicit">>>>, <<A, <<"semi">>>>),
  Num("pseudotime.main.cfl_min", "100.0", "0.25"), Num("pseudotime.main.cfl_max", "2000.0", "1e4"), Num("pseudotime.main.tolerance", "1e-5", "1e-7"), E("pseudotime.main.max_timesteps", <<<<"500">>, <<"17">>>>, <<A, <<"abc">>, <<"2.5">>>>),
  E("pseudotime.initialization.cfl_min", <<<<"50.0">>, <<"0.5">>>>, <<A, <<"abc">>>>), E("pseudotime.initialization.cfl_max", <<<<"510.0">>, <<"21">>>>, <<A, <<"abc">>>>), E("pseudotime.initialization.tolerance", <<<<"1e-1">>, <<"0.03">>>>, <<A, <<"abc">>>>),
  E("pseudotime.initialization.max_timesteps", <<<<"52">>, <<"7">>>>, <<A, <<"abc">>>>),
  E("pseudotime.nonlinear_update_scheme", <<<<"robust_flow">>, <<"full">>, <<"Full">>>>, <<A>>), E("pseudotime.min_nonlinear_relaxation_factor", <<<<"0.3">>, A, <<"0.05">>>>, <<<<"abc">>>>),
  E("Jacobian_inviscid_flux", <<<<"consistent">>, <<"Roe">>, <<"hllc">>, <<"Consistent">>, <<"AUSM">>>>, <<A>>),
  E("cmd.mesh_file", <<A, <<"cmd.msh">>>>, <<>>), E("cmd.write_final_linear_system", <<A, <<"true">>, <<"false">>>>, <<<<"maybe">>>>), E("petsc.-fvens_log_file_prefix", <<A, <<"plog">>>>, <<>>) >> \o Wide
N == Len(Table)
IsWide(k) == k > N - Len(Wide)
At(p) == CHOOSE k \in 1..N : Table[k].p = p
Full == [k \in 1..N |-> Table[k].good[1]]
Whole == [k \in 1..N |-> IF IsWide(k) THEN A ELSE Full[k]]
Set2(f, p, w) == [f EXCEPT ![At(p)] = w]
\* Euler, explicit, no start-up
Second0 == [k \in 1..N |-> IF Table[k].p \in InitKeys \cup {"Jacobian_inviscid_flux", "pseudotime.nonlinear_update_scheme", "pseudotime.min_nonlinear_relaxation_factor"} \/ Table[k].p \in {"flow_conditions." \o x : x \in {"freestream_Reynolds_number", "freestream_temperature", "Prandtl_number"}}
  THEN A ELSE Whole[k]]
Bases == <<Whole, Set2(Set2(Second0, "flow_conditions.flow_type", <<"euler">>), "pseudotime.pseudotime_stepping_type", <<"explicit">>),
  Set2(Set2(Whole, "time.simulation_type", <<"unsteady">>), "bc.volume_output_file_prefix", <<"vol">>), Set2(Set2(Set2(Set2(Whole, "bc.bc3.type", <<"periodic">>), "bc.bc3.marker", <<"9">>), "bc.bc3.options", <<"9", "1">>), "time.time_integrator", <<"bdf">>),
  Set2(Set2(Set2(Full, "bc.bc3.type", <<"periodic">>), "bc.bc3.marker", <<"9">>), "bc.bc3.options", <<"9", "1">>)>>
VARIABLES base, words, last, n
vars == <<base, words, last, n>>
Init == base \in 1..Len(Bases) /\ words = Bases[base] /\ last = 0 /\ n = 0
Vals(k) == IF IsWide(k) /\ words[k] = A THEN {} ELSE {Table[k].good[i] : i \in 1..Len(Table[k].good)} \cup (IF SWEEP THEN {} ELSE {Table[k].bad[i] : i \in 1..Len(Table[k].bad)})
Deviate == ~SWEEP /\ n < DEV /\ \E k \in last + 1..N : \E w \in Vals(k) \ {words[k]} : words' = [words EXCEPT ![k] = w] /\ last' = k /\ n' = n + 1 /\ UNCHANGED base
Sweep == SWEEP /\ last < N /\ \E w \in Vals(last + 1) \cup {words[last + 1]} : words' = [words EXCEPT ![last + 1] = w] /\ last' = last + 1 /\ n' = n + 1 /\ UNCHANGED base
Next == Deviate \/ Sweep
Spec == Init /\ [][Next]_vars
Doc == [p \in {Table[k].p : k \in 1..N} |-> words[At(p)]]
\* a rejection always names a key that is missing or invalid; the complete files are accepted
Ready == ~SWEEP \/ last = N
Sound == Ready =>
         /\ n = 0 => ~Rejected(Doc)
         /\ \A p \in Faults(Doc) : \E k \in 1..N : Table[k].p = p
\* what is not needed does not matter: without start-up, implicit solver or viscosity their settings are not looked at
Indifferent == (Ready /\ ~Rejected(Doc) /\ ~Implicit(Doc)) => ~Rejected([Doc EXCEPT !["Jacobian_inviscid_flux"] = <<>>, !["pseudotime.nonlinear_update_scheme"] = <<>>])
Overrides == Ready =>
             /\ Has(Doc, "cmd.mesh_file") => MeshFile(Doc) = W(Doc, "cmd.mesh_file")
             /\ (Has(Doc, "io.log_file_prefix") /\ ~Has(Doc, "petsc.-fvens_log_file_prefix")) => LogFile(Doc) = W(Doc, "io.log_file_prefix")
Emit == ~EMIT \/ ~Ready \/ PrintT("DOC " \o ToJson([k \in 1..N |-> <<Table[k].p, words[k]>>]))
=============================================================================
