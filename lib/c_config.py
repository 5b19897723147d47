"""Checks of configuration and of the course of a run (C properties)."""
import json, os, re
import vlib

LISTS = ("boundary_values", "options", "listof_output_wall_boundaries", "listof_output_other_boundaries")

def render(rng, doc):
    """A control file with the given contents: random order, spacing, comments and quoting."""
    tree = {}
    for path, ws in doc:
        if not ws or path.startswith(("cmd.", "petsc.")): continue
        t = tree
        for s in path.split(".")[:-1]: t = t.setdefault(s, {})
        t[path.split(".")[-1]] = ws
    out = []
    def note(ind):
        while rng.random() < .15: out.append(ind + rng.choice(["; note", ";; cfl_min 1e9", "", ";  { unbalanced", "; tolerance \"x"]))
    def walk(t, ind):
        ks = list(t); rng.shuffle(ks)
        for k in ks:
            note(ind)
            if isinstance(t[k], dict):
                if rng.random() < .5: out.append(ind + k + " {")
                else: out.extend([ind + k, ind + "{"])
                walk(t[k], ind + "\t"); out.append(ind + "}")
            else:
                ws = t[k]; num = all(re.fullmatch(r"[-+.0-9e]+", w) for w in ws)
                gap = rng.choice([" ", "\t", "     "])
                if len(ws) > 1: v = gap.join(ws) if num and rng.random() < .5 else '"' + rng.choice([" ", "  "]).join(ws) + '"'
                else: v = '"%s"' % ws[0] if rng.random() < .3 or re.search(r"[^-\w.+]", ws[0]) else ws[0]
                out.append(ind + k + gap + v + rng.choice(["", "", "   ; note"]))
    walk(tree, "")
    return "\n".join(out) + "\n"

def documents(ck):
    """Documents of ConfigGen.tla: all with one deviation, sampled ones with two and three, and sweeps through the valid values."""
    cfg = "CONSTANTS DEV = %d SWEEP = %s EMIT = %s\nSPECIFICATION Spec\nINVARIANTS Sound Indifferent Overrides Emit\nCHECK_DEADLOCK FALSE\n"
    one = ck.model("ConfigGen", cfg % (1, "FALSE", "TRUE"), prefix="DOC")
    more = ck.model("ConfigGen", cfg % (3, "FALSE", "TRUE"), prefix="DOC", workers=1, extra=["-simulate", "num=%d" % ck.pick(12, 400), "-depth", "4", "-seed", str(ck.seed), "-aril", "0"])
    sweep = ck.model("ConfigGen", cfg % (0, "TRUE", "TRUE"), prefix="DOC", workers=1, extra=["-simulate", "num=%d" % ck.pick(400, 6000), "-depth", "80", "-seed", str(ck.seed), "-aril", "0"])
    more = sorted(set(more)); ck.rng.shuffle(more)
    return [json.loads(x) for x in sorted(set(one + sweep)) + more[:ck.pick(2000, 40000)]]

def check_C01(ck):
    docs = documents(ck)
    ck.build(["vh_ctrl"], ["ens_gasdynamics"])
    rng = ck.rng; jobs, meta = [], {}
    for i, d in enumerate(docs):
        fn = os.path.join(ck.work, "d%d.ctrl" % i); open(fn, "w").write(render(rng, d))
        v = {p: w for p, w in d if w}
        args = [a for p in ("cmd.mesh_file", "cmd.write_final_linear_system") if p in v for a in rng.choice([["--" + p[4:] + "=" + v[p][0]], ["--" + p[4:], v[p][0]]])]
        j = {"id": i, "ctrl": fn, "args": "|".join(args)}
        if "petsc.-fvens_log_file_prefix" in v: j["petsc"] = "-fvens_log_file_prefix~" + v["petsc.-fvens_log_file_prefix"][0]
        jobs.append(j); meta[i] = {"kind": "doc", "doc": v, "key": {"kind": "doc"}, "file": open(fn).read()}
    # single options
    names = ["-alpha", "-b_two", "-list3", "-flag", "-n"]
    vals = {"int": ["5", "-12", "0", "abc", "2.5"], "real": ["2.5", "-1e-3", "7", "abc"], "bool": ["true", "no", "1", "off", "maybe", ""], "string": ["line_rcm", "q", "abcdefgh"], "array": ["1,2,3", "4", "-7,0"], "any": ["3", ""]}
    for i in range(len(docs), len(docs) + ck.pick(150, 1500)):
        opts, kinds = [], {}
        for n in names:
            kinds[n] = rng.choice(["int", "real", "bool", "optbool", "string", "array", "optarray", "defined"])
            if rng.random() < .65:
                v = rng.choice(vals.get(kinds[n].replace("opt", ""), vals["any"])); opts.append({"name": n, "val": ([v] if "array" not in kinds[n] else v.split(",")) if v else []})
        qs = [{"kind": kinds[n], "name": n, "arg": {"real": rng.choice(["1.5", "0.1"]), "string": str(rng.choice([8, 40])), "array": "3", "optarray": "5"}.get(kinds[n], "0")} for n in names]
        rng.shuffle(qs)
        jobs.append({"id": i, "petsc": "|".join(o["name"] + ("~" + ",".join(o["val"]) if o["val"] else "") for o in opts), "queries": "|".join("%s~%s~%s" % (q["kind"], q["name"], q["arg"]) for q in qs)})
        meta[i] = {"kind": "opts", "opts": opts, "queries": qs, "key": {"kind": "opts"}}
    ck.conform("ConfigTrace", "vh_ctrl", jobs, meta)

# ------------------------------------------------------------------ names
UNKNOWN = {"flux": ["OSHER", "HLLE", "AUSM+", "roe", "VANLEER1", "Hllc", ""], "jflux": ["OSHER", "HLLEM", "llf", "RUSANOV"],
           "grad": ["LSQ", "WEIGHTEDLEASTSQUARES", "leastsquares", "GREEN-GAUSS", "NULL", ""], "recon": ["SUPERBEE", "MINMOD", "weno", "BARTH", "VENKAT", "VANLEER", ""],
           "update": ["PARTIAL", "full", "ROBUST", "NONE", ""], "bc": ["wall", "periodic", "symmetry", "Farfield", "outflow"]}
BCNAMES = ["slipwall", "farfield", "inflowoutflow", "subsonic_inflow", "extrapolation", "periodic", "isothermalwall", "adiabaticwall"]

def check_C03(ck):
    """Every documented name, by the behaviour of what it yields, and unknown names in every slot."""
    import c_spatial as cs
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = cs.shapes_for(ck, 2)
    rng = ck.rng; b = cs.Bench(ck)
    shapes = [s for s in small if len(s[2]) <= 5] + big[:10]; rng.shuffle(shapes)
    it = iter(range(10 ** 6)); shape = lambda: shapes[next(it) % len(shapes)]
    def flow(num, ops, bcs=None, bad=None):
        names = [[s, num[s]] for s in ("flux", "jflux", "grad", "recon")]
        job, key = {}, {}
        if bcs is not None:
            nm = [BCNAMES[t] for t in bcs]
            if bad and bad[0] == "bc": nm[rng.randrange(len(nm))] = bad[1]
            names += [["bc", x] for x in nm]; job["bcnames"] = ",".join(nm)
            key["bc"] = "+".join(sorted(nm))
        if bad: key["unknown"] = bad[0] + ":" + bad[1]
        cs.flow_case(ck, b, shape(), ops=ops, ns=2, num=num, bcs=bcs, extra=job, xmeta={"names": names}, key=key)
    for rep in range(ck.pick(3, 25)):
        for f in cs.FLUXES: flow(cs.numerics(rng, order2=False, flux=f), "r0")
        for g in cs.GRADS + ["NONE"]:
            num = cs.numerics(rng, order2=True); num["grad"] = g; flow(num, "g0,r0")
        for r in cs.RECONS:
            num = cs.numerics(rng, order2=True, recon=r); num["grad"] = rng.choice(cs.GRADS); flow(num, "r0,r1")
        for j in cs.JFLUX:
            num = cs.numerics(rng, order2=False, visc=False, jflux=j); flow(num, "j0")
        for t in (cs.SLIP, cs.FAR, cs.INOUT, cs.SUBIN, cs.EXTRAP):
            if t == cs.SUBIN: continue
            flow(cs.numerics(rng, order2=False, visc=False), "r0", bcs=[t] if rng.random() < .5 else [t, cs.FAR])
        for t in (cs.ISO, cs.ADIA, cs.EXTRAP): flow(cs.numerics(rng, order2=False, visc=True), "r0", bcs=[t, cs.FAR])
        for slot in ("flux", "jflux", "grad", "recon", "bc"):
            for x in UNKNOWN[slot]:
                num = cs.numerics(rng, order2=True)
                if slot != "bc": num[slot] = x
                flow(num, rng.choice(["r0", "g0", "r0,r1"]), bcs=[cs.FAR, cs.EXTRAP] if slot == "bc" else None, bad=(slot, x))
        for nv in (1, 4):
            for g in cs.GRADS + ["NONE"] + UNKNOWN["grad"]: names_scheme(cs, ck, b, shape(), "g", "grad", g, nv)
            for r in cs.RECONS + UNKNOWN["recon"]: names_scheme(cs, ck, b, shape(), "r", "recon", r, nv)
        for x in ["FULL", "ROBUST_FLOW"] * 3 + UNKNOWN["update"]: update_case(cs, ck, b, shape(), x)
    b.run()

def names_scheme(cs, ck, b, shape, op, slot, name, nv):
    cs.scheme_case(ck, b, shape, op + ":" + name, "any", nv)
    m = b.meta[b.n - 1]; m["names"] = [[slot, name]]; m["key"][slot] = name

def update_case(cs, ck, b, shape, name):
    import meshgen as mg
    from c_point import gas, f17, strs, vec
    rng = ck.rng; G = gas(rng); w0 = cs.freestream(G, .2)
    u = cs.cons(G, [w0[0] * rng.uniform(.8, 1.2), w0[1], w0[2], w0[3]]); du = [x * rng.uniform(-.4, .4) for x in u]; minf = rng.choice([.1, .3, .6])
    du = rng.choice([[0.0] * 4, [-.95 * u[0], 0.0, 0.0, -.5 * u[3]], [-.95 * u[0], 0.0, .1, 0.0]])
    job = {"update": name, "minf": f17(minf), "uu": vec(u), "duu": vec(du)}; job.update({k: f17(x) for k, x in G.items()})
    b.add(mg.dress(rng, shape), .1, "update", job, {"gas": {k: f17(x) for k, x in G.items()}, "minf": f17(minf), "uu": strs(u), "duu": strs(du), "names": [["update", name]]}, None, {"update": name})

# ------------------------------------------------------------------ whole runs
def run_case(ck, i, b):
    """A control file that asks for the course b of a run on a small mesh."""
    import meshgen as mg, c_spatial as cs
    from c_point import gas, f17
    rng = ck.rng
    n = rng.choice([2, 3]); shape = rng.choice(ck.run_shapes)
    walls, others = [1, 2][:b["walls"]], [3][:b["others"]]
    order = iter([1, 2, 3, 3]); m = mg.dress(rng, shape, mode=rng.choice(["jitter", "regular", "affine"]), markers=lambda p, q: next(order, None) or rng.choice([1, 2, 3, 3]))
    d = os.path.join(ck.work, "run%d" % i); mesh = d + ".msh"; mg.write_gmsh(m, mesh, scale=1.0)
    G = gas(rng); G["M"] = rng.choice([.3, .5, .8]) if not (b["implicit"] and "numerical" in (b["so"], b["mo"])) else 30.0; aoa = rng.choice([0.0, 3.0, -10.0])
    visc = rng.random() < .3
    num = cs.numerics(rng, order2=rng.random() < .6, visc=visc)
    flux = rng.choice(["Roe", "HLLC", "LLF", "AUSM", "HLL"]); jflux = rng.choice(["consistent", "LLF", "HLL"])
    grad = rng.choice(["leastsquares", "greengauss"]) if num["order2"] else "none"
    recon = rng.choice(["none", "WENO", "VanAlbada", "Venkatakrishnan"]); par = rng.choice([1.0, 5.0])
    imp = b["implicit"]; mf = imp and rng.random() < .3
    def settings(o):
        cfl = rng.choice([.3, .5]) if not imp else rng.choice([2.0, 20.0]); end = cfl * rng.choice([1, 5])
        if o == "ok": return cfl, end, rng.choice([.8, .5, .3]), 200
        if o == "idle": return cfl, end, 1e-3, 0
        if o == "tolerance": return cfl, end, 1e-30, rng.choice([1, 2, 5])
        return (1e12, 1e12, 1e-30, 60) if not imp else (1e6, 1e6, 1e-30, 60)
    s, mn = settings(b["so"]), settings(b["mo"])
    def sec(name, v): return [("pseudotime.%s.%s" % (name, k), [repr(x)]) for k, x in zip(("cfl_min", "cfl_max", "tolerance", "max_timesteps"), v)]
    out = d + "/out.d/"
    doc = [("io.mesh_file", [mesh]), ("io.solution_output_file", [out + "sol.vtu"]), ("io.log_file_prefix", [out + "log"]), ("io.convergence_history_required", [str(b["hist"]).lower()]),
           ("flow_conditions.flow_type", ["navierstokes" if visc else "euler"]), ("flow_conditions.adiabatic_index", [repr(G["g"])]), ("flow_conditions.angle_of_attack", [repr(aoa)]), ("flow_conditions.freestream_Mach_number", [repr(G["M"])]),
           ("time.simulation_type", ["steady"]), ("spatial_discretization.inviscid_flux", [flux]), ("spatial_discretization.gradient_method", [grad]), ("spatial_discretization.limiter", [recon]), ("spatial_discretization.limiter_parameter", [repr(par)]),
           ("pseudotime.pseudotime_stepping_type", ["implicit" if imp else "explicit"])]
    if visc:
        doc += [("flow_conditions.freestream_Reynolds_number", ["50.0"]), ("flow_conditions.freestream_temperature", [repr(G["Tinf"])]), ("flow_conditions.Prandtl_number", [repr(G["Pr"])]), ("flow_conditions.use_constant_viscosity", [rng.choice(["true", "false"])])]
    wall = "adiabaticwall" if visc else "slipwall"
    for k, (t, mk) in enumerate([(wall, 1), (wall, 2), ("farfield", 3)]):
        doc += [("bc.bc%d.type" % k, [t]), ("bc.bc%d.marker" % k, [str(mk)])]
        if t == "adiabaticwall": doc.append(("bc.bc%d.boundary_values" % k, ["0.0"]))
    if walls: doc.append(("bc.listof_output_wall_boundaries", [str(w) for w in walls]))
    if others: doc.append(("bc.listof_output_other_boundaries", [str(w) for w in others]))
    if walls or others: doc.append(("bc.surface_output_file_prefix", [out + "surf"]))
    if b["vol"]: doc.append(("bc.volume_output_file_prefix", [out + "volume"]))
    doc += sec("main", mn) + (sec("initialization", s) if b["starter"] else [])
    if imp: doc += [("Jacobian_inviscid_flux", [jflux]), ("pseudotime.nonlinear_update_scheme", [rng.choice(["full", "robust_flow"])]), ("pseudotime.min_nonlinear_relaxation_factor", ["0.3"])]
    ctrl = d + ".ctrl"; open(ctrl, "w").write(render(rng, doc))
    F = flux.upper(); J = F if jflux == "consistent" else jflux
    job = {"id": i, "ctrl": ctrl, "dir": d, "flux": F, "jflux": J if imp else "", "grad": grad.upper(), "recon": recon.upper(), "par": f17(par), "order2": int(num["order2"]), "mf": int(mf), "rtol": "1e-8"}
    for k in ("starter", "output", "implicit", "system", "hist", "surface", "vtu", "vol"): job[k] = int(b[k])
    for p, v in (("m", mn), ("s", s)): job.update({p + "cfl": f17(v[0]), p + "cflend": f17(v[1]), p + "tol": f17(v[2]), p + "max": v[3]})
    job["walls"] = ",".join(map(str, walls)); job["others"] = ",".join(map(str, others))
    meta = {"n": len(m["cells"]), "gas": {k: f17(v) for k, v in G.items()}, "aoa": f17(aoa * 3.14159265358979323846 / 180), "walls": walls, "others": others, "mf": mf, "file": open(ctrl).read(),
            "key": {k: b[k] for k in ("starter", "output", "procs", "implicit", "so", "mo")}}
    for k in ("starter", "output", "implicit", "system", "hist", "surface", "vtu", "vol", "procs"): meta[k] = b[k]
    return job, meta

def check_C02(ck):
    import meshgen as mg
    from c_part import zip_ranks
    cfg = "CONSTANT EMIT = %s\nSPECIFICATION Spec\nINVARIANTS StarterOnlyIfAsked Reported FilesLast Functional Emit\n%sCHECK_DEADLOCK FALSE\n"
    ck.model("RunGen", cfg % ("FALSE", "PROPERTY Terminates\n"))
    courses = [json.loads(x) for x in sorted(set(ck.model("RunGen", cfg % ("TRUE", ""), prefix="RUN")))]
    ck.rng.shuffle(courses)
    ck.build(["vh_run"], ["ens_gasdynamics"])
    ck.run_shapes = [s for s in mg.gen_shapes(ck, 3, 2) + mg.gen_shapes(ck, 4, 4, mincells=7, simulate=40) if len(s[2]) >= 4]
    seen, jobs, meta, i = {}, {}, {}, 0
    for b in courses:            # every combination of phases and outcomes, the rest sampled
        k = tuple(b[x] for x in ("starter", "output", "procs", "implicit", "so", "mo"))
        if seen.get(k, 0) >= ck.pick(2, 12): continue
        seen[k] = seen.get(k, 0) + 1
        job, m = run_case(ck, i, b); jobs.setdefault(b["procs"], []).append(job); meta[i] = m; i += 1
    one = lambda i, ev: {"ev": [e if e.get("event") in ("Crash", "Hang", "Exception") else {"event": e["event"], "r": [e]} for e in ev]}
    for nr in sorted(jobs):
        ck.conform("RunTrace", "vh_run", jobs[nr], meta, ranks=nr, assemble=zip_ranks if nr > 1 else one)
    ck.assumptions += ["what a numerically failed main solve leaves in the state is not specified"]
