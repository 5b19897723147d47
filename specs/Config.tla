-------------------------------- MODULE Config --------------------------------
(* What a control file, the command line and the options database mean: a document is *)
(* a function from the documented keys to the words given for them (none if the key is *)
(* left out). Rejected(d) says whether it must be refused, the other operators what the *)
(* settings are otherwise. The command line and the options database are further keys. *)
EXTENDS FReal
Canon == "navierstokes" :> "NAVIERSTOKES" @@ "NavierStokes" :> "NAVIERSTOKES" @@ "euler" :> "EULER" @@ "EULER" :> "EULER" @@ "rans" :> "RANS"
  @@ "steady" :> "STEADY" @@ "Steady" :> "STEADY" @@ "unsteady" :> "UNSTEADY" @@ "UnSteady" :> "UNSTEADY" @@ "tvdrk" :> "TVDRK" @@ "TVDRK" :> "TVDRK" @@ "bdf" :> "BDF"
  @@ "Roe" :> "ROE" @@ "roe" :> "ROE" @@ "hllc" :> "HLLC" @@ "HLLC" :> "HLLC" @@ "VanLeer" :> "VANLEER" @@ "AUSM" :> "AUSM" @@ "llf" :> "LLF" @@ "consistent" :> "CONSISTENT" @@ "Consistent" :> "CONSISTENT"
  @@ "leastsquares" :> "LEASTSQUARES" @@ "leastSquares" :> "LEASTSQUARES" @@ "greenGauss" :> "GREENGAUSS" @@ "none" :> "NONE" @@ "NONE" :> "NONE"
  @@ "WENO" :> "WENO" @@ "VanAlbada" :> "VANALBADA" @@ "Venkatakrishnan" :> "VENKATAKRISHNAN" @@ "weno" :> "WENO"
  @@ "implicit" :> "IMPLICIT" @@ "IMPLICIT" :> "IMPLICIT" @@ "explicit" :> "EXPLICIT" @@ "Explicit" :> "EXPLICIT"
  @@ "robust_flow" :> "ROBUST_FLOW" @@ "full" :> "FULL" @@ "Full" :> "FULL"
Lower == "farfield" :> "farfield" @@ "FarField" :> "farfield" @@ "slipwall" :> "slipwall" @@ "SLIPWALL" :> "slipwall" @@ "inflowoutflow" :> "inflowoutflow" @@ "extrapolation" :> "extrapolation"
  @@ "subsonic_inflow" :> "subsonic_inflow" @@ "Subsonic_Inflow" :> "subsonic_inflow" @@ "adiabaticwall" :> "adiabaticwall" @@ "AdiabaticWall" :> "adiabaticwall" @@ "isothermalwall" :> "isothermalwall"
  @@ "IsothermalWall" :> "isothermalwall" @@ "periodic" :> "periodic"
\* words that are no number, no integer, no truth value
NotReal == {"abc", "x", "maybe", "1.5x", "true"}
NotInt == NotReal \cup {"2.5", "7.25"}
Truth == "true" :> TRUE @@ "false" :> FALSE @@ "1" :> TRUE @@ "0" :> FALSE
Has(d, p) == p \in DOMAIN d /\ d[p] # <<>>
W(d, p) == d[p][1]
Up(d, p) == IF W(d, p) \in DOMAIN Canon THEN Canon[W(d, p)] ELSE "?"
BC(i, f) == "bc.bc" \o ToString(i) \o "." \o f
BCFields == {"type", "marker", "boundary_values", "options"}
MaxBC == 16
RECURSIVE NB(_, _)
NB(d, i) == IF i < MaxBC /\ \E f \in BCFields : Has(d, BC(i, f)) THEN NB(d, i + 1) ELSE i
\* how many boundary conditions there are: numbered consecutively from 0
Count(d) == NB(d, 0)
InitKeys == {"pseudotime.initialization." \o k : k \in {"cfl_min", "cfl_max", "tolerance", "max_timesteps"}}
MainKeys == {"pseudotime.main." \o k : k \in {"cfl_min", "cfl_max", "tolerance", "max_timesteps"}}
Start(d) == \E p \in InitKeys : Has(d, p)
NS(d) == Has(d, "flow_conditions.flow_type") /\ Up(d, "flow_conditions.flow_type") = "NAVIERSTOKES"
Unsteady(d) == Has(d, "time.simulation_type") /\ Up(d, "time.simulation_type") = "UNSTEADY"
RK(d) == Has(d, "time.time_integrator") /\ Up(d, "time.time_integrator") = "TVDRK"
Implicit(d) == Has(d, "pseudotime.pseudotime_stepping_type") /\ Up(d, "pseudotime.pseudotime_stepping_type") = "IMPLICIT"
BCType(d, i) == IF Has(d, BC(i, "type")) /\ W(d, BC(i, "type")) \in DOMAIN Lower THEN Lower[W(d, BC(i, "type"))] ELSE "?"
NVals(t) == CASE t \in {"isothermalwall", "subsonic_inflow"} -> 2 [] t = "adiabaticwall" -> 1 [] OTHER -> 0
Surface(d) == Has(d, "bc.listof_output_wall_boundaries") \/ Has(d, "bc.listof_output_other_boundaries")
Steps == {"pseudotime.main.max_timesteps", "pseudotime.initialization.max_timesteps"}
\* what must be given, with its type
Required(d) ==
  {<<p, "text">> : p \in {"io.mesh_file", "io.solution_output_file", "io.log_file_prefix"}}
  \cup {<<"io.convergence_history_required", "bool">>, <<"flow_conditions.flow_type", "flow">>, <<"time.simulation_type", "sim">>, <<"pseudotime.pseudotime_stepping_type", "ptype">>}
  \cup {<<"flow_conditions." \o k, "real">> : k \in {"adiabatic_index", "angle_of_attack", "freestream_Mach_number"} \cup (IF NS(d) THEN {"freestream_temperature", "freestream_Reynolds_number", "Prandtl_number"} ELSE {})}
  \cup {<<"spatial_discretization." \o k, "word">> : k \in {"inviscid_flux", "gradient_method", "limiter"}}
  \cup {<<p, IF p \in Steps THEN "int" ELSE "real">> : p \in MainKeys \cup (IF Start(d) THEN InitKeys ELSE {})}
  \cup (IF Unsteady(d) THEN {<<"time.final_time", "real">>, <<"time.time_integrator", "word">>, <<"time.temporal_order", "int">>, <<IF RK(d) THEN "time.physical_cfl" ELSE "time.physical_time_step", "real">>} ELSE {})
  \cup (IF Implicit(d) THEN {<<"Jacobian_inviscid_flux", "word">>, <<"pseudotime.nonlinear_update_scheme", "word">>} ELSE {})
  \cup (IF Surface(d) THEN {<<"bc.surface_output_file_prefix", "text">>} ELSE {})
  \cup UNION {{<<BC(i, "type"), "bctype">>, <<BC(i, "marker"), "int">>}
              \cup (CASE NVals(BCType(d, i)) = 2 -> {<<BC(i, "boundary_values"), "reals2">>} [] NVals(BCType(d, i)) = 1 -> {<<BC(i, "boundary_values"), "reals1">>}
                      [] BCType(d, i) = "periodic" -> {<<BC(i, "options"), "ints2">>} [] OTHER -> {}) : i \in 0..Count(d) - 1}
Optional(d) == {<<"bc.listof_output_wall_boundaries", "ints">>, <<"bc.listof_output_other_boundaries", "ints">>, <<"cmd.write_final_linear_system", "bool">>}
  \cup (IF NS(d) THEN {<<"flow_conditions.use_constant_viscosity", "bool">>} ELSE {})
  \cup (IF Implicit(d) THEN {<<"pseudotime.min_nonlinear_relaxation_factor", "real">>} ELSE {})
Valid(ws, t) ==
  CASE t = "text" -> TRUE [] t = "word" -> ws[1] \in DOMAIN Canon
    [] t = "real" -> ws[1] \notin NotReal [] t = "int" -> ws[1] \notin NotInt [] t = "bool" -> ws[1] \in DOMAIN Truth
    [] t = "flow" -> ws[1] \in DOMAIN Canon /\ Canon[ws[1]] \in {"EULER", "NAVIERSTOKES"}
    [] t = "sim" -> ws[1] \in DOMAIN Canon /\ Canon[ws[1]] \in {"STEADY", "UNSTEADY"}
    [] t = "ptype" -> ws[1] \in DOMAIN Canon /\ Canon[ws[1]] \in {"IMPLICIT", "EXPLICIT"}
    [] t = "bctype" -> ws[1] \in DOMAIN Lower
    [] t \in {"reals1", "reals2"} -> Len(ws) >= (IF t = "reals1" THEN 1 ELSE 2) /\ \A k \in 1..Len(ws) : ws[k] \notin NotReal
    [] t \in {"ints", "ints2"} -> Len(ws) >= (IF t = "ints" THEN 1 ELSE 2) /\ \A k \in 1..Len(ws) : ws[k] \notin NotInt
Faults(d) == {r[1] : r \in {r \in Required(d) : ~(Has(d, r[1]) /\ Valid(d[r[1]], r[2]))}} \cup {r[1] : r \in {r \in Optional(d) : Has(d, r[1]) /\ ~Valid(d[r[1]], r[2])}}
Rejected(d) == Faults(d) # {}
\* (known finding: this key has no effect)
Limiter == "spatial_discretization.limiter_parameter"
LimiterFault(d) == Has(d, Limiter) /\ ~Valid(d[Limiter], "real")
\* ---- settings ----
Or(d, p, dflt) == IF Has(d, p) THEN W(d, p) ELSE dflt
MeshFile(d) == Or(d, "cmd.mesh_file", Or(d, "io.mesh_file", "?"))
LogFile(d) == Or(d, "petsc.-fvens_log_file_prefix", Or(d, "io.log_file_prefix", "?"))
WriteSystem(d) == Truth[Or(d, "cmd.write_final_linear_system", "false")]
ConstVisc(d) == NS(d) /\ Truth[Or(d, "flow_conditions.use_constant_viscosity", "false")]
Flux(d) == Up(d, "spatial_discretization.inviscid_flux")
JFlux(d) == IF Up(d, "Jacobian_inviscid_flux") = "CONSISTENT" THEN Flux(d) ELSE Up(d, "Jacobian_inviscid_flux")
Second(d) == Up(d, "spatial_discretization.gradient_method") # "NONE"
Real(d, p) == RStr(W(d, p))
Radians(x) == (RStr("3.14159265358979323846") \otimes x) \oslash RInt(180)
Words(d, p) == IF Has(d, p) THEN d[p] ELSE <<>>
=============================================================================
