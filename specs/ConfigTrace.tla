------------------------------ MODULE ConfigTrace ------------------------------
(* Conformance of the control-file and option parsers (C01) to Config.tla. *)
EXTENDS TraceBase, Config
VARIABLES ci, pos, bad
vars == <<ci, pos, bad>>
C == Cases[ci]
Ev == C.ev[pos + 1]
D == C.doc
Eq(a, b) == RNear(RStr(a), b, R1 \oplus RAbs(b), RStr("1e-14"))
EqW(a, p) == Eq(a, Real(D, p))
IntOf(w) == RStr(w)
EqI(i, w) == RInt(i) = IntOf(w)
EqIs(s, ws) == Len(s) = Len(ws) /\ \A k \in 1..Len(s) : EqI(s[k], ws[k])
EqRs(s, ws) == Len(s) = Len(ws) /\ \A k \in 1..Len(s) : Eq(s[k], RStr(ws[k]))
BCsOk(b) == Len(b) = Count(D) /\ \A i \in 1..Len(b) :
  LET t == BCType(D, i - 1) IN
  /\ b[i].type = t /\ EqI(b[i].marker, W(D, BC(i - 1, "marker")))
  /\ NVals(t) > 0 => EqRs(b[i].vals, D[BC(i - 1, "boundary_values")])
  /\ t = "periodic" => EqIs(b[i].opts, D[BC(i - 1, "options")])
Param(x) == Has(D, Limiter) => (~LimiterFault(D) /\ EqW(x, Limiter))
Gas(o) == /\ EqW(o.gamma, "flow_conditions.adiabatic_index") /\ EqW(o.M, "flow_conditions.freestream_Mach_number")
          /\ NS(D) => EqW(o.T, "flow_conditions.freestream_temperature") /\ EqW(o.Re, "flow_conditions.freestream_Reynolds_number") /\ EqW(o.Pr, "flow_conditions.Prandtl_number")
Aoa(x) == Eq(x, Radians(Real(D, "flow_conditions.angle_of_attack")))
Phase(s, steps, sec) == /\ Len(s) = 3 /\ EqW(s[1], sec \o "cfl_min") /\ EqW(s[2], sec \o "cfl_max") /\ EqW(s[3], sec \o "tolerance") /\ EqI(steps, W(D, sec \o "max_timesteps"))
Clauses(e) ==
  IF e.event = "Rejected" THEN {<<"C01.rejects_only_faulty", Rejected(D) \/ LimiterFault(D)>>}
  ELSE IF e.event # "Parsed" THEN {<<"C01.unexplained_" \o e.event, FALSE>>}
  ELSE IF Rejected(D) THEN {<<"C01.fault_reported_" \o (CHOOSE p \in Faults(D) : TRUE), FALSE>>}
  ELSE {<<"C01.mesh_file", e.mesh = MeshFile(D)>>, <<"C01.log_file", e.log = LogFile(D)>>, <<"C01.solution_file", e.vtu = W(D, "io.solution_output_file")>>,
    <<"C01.history", e.history = Truth[W(D, "io.convergence_history_required")]>>, <<"C01.write_system", e.write = WriteSystem(D)>>,
    <<"C01.flow_type", e.flow = Up(D, "flow_conditions.flow_type") /\ e.visc = NS(D)>>, <<"C01.gas", Gas(e)>>, <<"C01.angle", Aoa(e.alpha)>>, <<"C01.constant_viscosity", e.cvisc = ConstVisc(D)>>,
    <<"C01.boundary_conditions", BCsOk(e.bcs)>>,
    <<"C01.wall_outputs", EqIs(e.walls, Words(D, "bc.listof_output_wall_boundaries")) /\ e.nwalls = Len(e.walls)>>, <<"C01.other_outputs", EqIs(e.others, Words(D, "bc.listof_output_other_boundaries")) /\ e.nothers = Len(e.others)>>,
    <<"C01.surface_prefix", Surface(D) => e.surf = W(D, "bc.surface_output_file_prefix")>>,
    <<"C01.volume_prefix", IF Has(D, "bc.volume_output_file_prefix") THEN e.volreq = "YES" /\ e.vol = W(D, "bc.volume_output_file_prefix") ELSE e.volreq # "YES">>,
    <<"C01.simulation_type", e.sim = Up(D, "time.simulation_type")>>,
    <<"C01.time", Unsteady(D) => (EqW(e.tfinal, "time.final_time") /\ e.integrator = Up(D, "time.time_integrator") /\ EqI(e.torder, W(D, "time.temporal_order"))
       /\ (IF RK(D) THEN EqW(e.pcfl, "time.physical_cfl") ELSE EqW(e.pdt, "time.physical_time_step")))>>,
    <<"C01.flux", e.flux = Flux(D)>>, <<"C01.gradient", e.grad = Up(D, "spatial_discretization.gradient_method")>>, <<"C01.limiter", e.rec = Up(D, "spatial_discretization.limiter")>>, <<"C01.known_limiter_parameter", Param(e.param)>>, <<"C01.limiter_parameter", Param(e.param) \/ RStr(e.param) = R0>>, <<"C01.limiter_parameter_settings", e.num.param = e.param>>,
    <<"C01.order", e.second = Second(D)>>,
    <<"C01.stepping_type", e.ptype = Up(D, "pseudotime.pseudotime_stepping_type")>>, <<"C01.main_solver", Phase(e.main, e.mainsteps, "pseudotime.main.")>>,
    <<"C01.starter", e.starter = Start(D) /\ (Start(D) => Phase(e.init, e.initsteps, "pseudotime.initialization."))>>,
    <<"C01.jacobian_flux", Implicit(D) => e.jflux = JFlux(D)>>, <<"C01.update_scheme", Implicit(D) => (e.update = Up(D, "pseudotime.nonlinear_update_scheme") /\ Eq(e.minupdate, RStr(Or(D, "pseudotime.min_nonlinear_relaxation_factor", "0.2"))))>>,
    <<"C01.physics_settings", Gas(e.phys) /\ Aoa(e.phys.aoa) /\ e.phys.visc = NS(D) /\ e.phys.cvisc = ConstVisc(D) /\ BCsOk(e.phys.bcs)>>,
    <<"C01.scheme_settings", e.num.flux = Flux(D) /\ e.num.grad = Up(D, "spatial_discretization.gradient_method") /\ e.num.rec = Up(D, "spatial_discretization.limiter") /\ e.num.second = Second(D) /\ (Implicit(D) => e.num.jflux = JFlux(D))>>,
    <<"C01.first_order_settings", e.first.flux = Flux(D) /\ e.first.grad = "NONE" /\ e.first.rec = "NONE" /\ e.first.second = FALSE /\ (Implicit(D) => e.first.jflux = JFlux(D))>>}
\* ---- single options: C.opts lists the ones set, with their values (none for a bare option) ----
Q == C.queries[pos + 1]
IsSet(n) == \E i \in 1..Len(C.opts) : C.opts[i].name = n
Val(n) == C.opts[CHOOSE i \in 1..Len(C.opts) : C.opts[i].name = n].val
Bools == "true" :> "true" @@ "yes" :> "true" @@ "1" :> "true" @@ "on" :> "true" @@ "false" :> "false" @@ "no" :> "false" @@ "0" :> "false" @@ "off" :> "false"
Fails == (Q.kind \in {"int", "bool", "string", "array"} /\ ~IsSet(Q.name)) \/ (IsSet(Q.name) /\ CASE Q.kind = "int" -> Val(Q.name)[1] \in NotInt [] Q.kind = "real" -> Val(Q.name)[1] \in NotReal
  [] Q.kind \in {"bool", "optbool"} -> Val(Q.name) # <<>> /\ Val(Q.name)[1] \notin DOMAIN Bools [] OTHER -> FALSE)
QClauses(e) ==
  IF e.event # "Query" \/ e.kind # Q.kind THEN {<<"C01.unexplained_" \o e.event, FALSE>>}
  ELSE IF Fails THEN {<<"C01.option_error_" \o Q.kind, ~e.ok>>}
  ELSE {<<"C01.option_" \o Q.kind, e.ok /\
     (CASE Q.kind = "defined" -> e.val = <<IF IsSet(Q.name) THEN "true" ELSE "false">>
        [] Q.kind = "real" -> Len(e.val) = 1 /\ Eq(e.val[1], RStr(IF IsSet(Q.name) THEN Val(Q.name)[1] ELSE Q.arg))
        [] Q.kind = "optbool" /\ ~IsSet(Q.name) -> e.val = <<"false">>
        [] Q.kind \in {"bool", "optbool"} -> e.val = <<IF Val(Q.name) = <<>> THEN "true" ELSE Bools[Val(Q.name)[1]]>>
        [] Q.kind = "optarray" /\ ~IsSet(Q.name) -> e.val = <<>>
        [] OTHER -> e.val = Val(Q.name))>>}
Init == ci \in 1..Len(Cases) /\ pos = 0 /\ bad = {}
Step1 == /\ bad = {} /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ UNCHANGED ci
         /\ bad' = Failed(IF C.kind = "doc" THEN Clauses(Ev) ELSE QClauses(Ev))
Spec == Init /\ [][Step1]_vars
Conforms == bad = {} \/ ~Report(C.id, pos, bad)
=============================================================================
