"""Checks of the programs as they are run by a user (E properties)."""
import math, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import meshgen as mg
import vlib
import c_spatial as cs
from c_config import render, BCNAMES
from c_output import table, grid, surfaces
from c_point import gas, f17

PI = 3.14159265358979323846

def launch(ck, exe, args, ranks, cwd, limit=60.0, refusal=False, threads=1):
    """Runs a program; returns its exit status, or None if it does not end (twice)."""
    e = dict(os.environ); e.update(vlib.mpi_env())
    if ranks == 1: e["OMPI_MCA_ess_singleton_isolated"] = "1"
    e["TMPDIR"] = ck.work; e["OMP_NUM_THREADS"] = str(threads)
    cmd = (["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(ranks)] if ranks > 1 else []) + [exe] + args
    for k in (1, 4):
        shutil.rmtree(cwd + "/out", ignore_errors=True); os.makedirs(cwd + "/out")
        p = subprocess.Popen(cmd, stdout=open(cwd + "/stdout", "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
        try: p.wait(timeout=limit * k)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait(); rc = None; continue
        rc = p.returncode
        if rc == 0 or refusal: return rc      # anything else has to happen twice
    return rc

def results(d):
    out = d + "/out"; fs = sorted(os.listdir(out)); o = {"files": fs, "hist": [], "vol": [], "walls": [], "others": []}
    if "log-residual_history.log" in fs: o["hist"] = [[r[0], r[1], r[2], r[-1]] if len(r) >= 7 else r for r in table(out + "/log-residual_history.log")[0]]
    if "volume-vol.out" in fs: o["vol"] = table(out + "/volume-vol.out")[0]
    o["walls"], o["others"] = surfaces(out + "/surf", "w"), surfaces(out + "/surf", "o")
    if "sol.vtu" in fs: o["grid"] = grid(out + "/sol.vtu")
    return o

def runner(ck, exe):
    def fvens_steady(jobs, ranks=1, **kw):
        def one(j):
            d = j["dir"]
            rc = launch(ck, exe, j["args"], ranks, d, refusal="why" in j, threads=j["threads"])
            if rc is None: return j["id"], [{"event": "Hang"}]
            try: o = results(d)
            except Exception as x: return j["id"], [{"event": "Unreadable", "what": repr(x)}]
            o["rc"] = rc
            if "why" in j: return j["id"], [{"event": "Refusal", "why": j["why"], "rc": rc, "files": o["files"]}]
            o["event"] = "Program"
            return j["id"], [{"event": "Step"}] * j["steps"] + [o]
        with ThreadPoolExecutor(max(1, 6 // ranks)) as ex: return dict(ex.map(one, jobs))
    return fvens_steady

def case(ck, i, shape, ranks=1, implicit=False, why=None):
    rng = ck.rng
    visc = rng.random() < .45
    num = cs.numerics(rng, visc=visc, recon=rng.choice(["NONE", "VANALBADA", "BARTHJESPERSEN"]), jflux=rng.choice(["LLF", "HLL", "HLLC", "AUSM"]))
    if implicit:
        num["cvisc"] = True                         # the Jacobians with Sutherland's law and Roe's scheme are known to deviate (S08)
        if rng.random() < .3 and num["flux"] in ("LLF", "HLL", "HLLC", "AUSM"): num["jflux"] = "CONSISTENT"
    if not num["order2"]: num["grad"] = "NONE"
    types = rng.choice([[cs.ISO, cs.ADIA, cs.FAR], [cs.ADIA, cs.FAR, cs.EXTRAP], [cs.ISO, cs.INOUT], [cs.ADIA, cs.INOUT, cs.EXTRAP]]) if visc else rng.choice([[cs.SLIP, cs.FAR], [cs.SLIP, cs.INOUT, cs.EXTRAP], [cs.SLIP, cs.FAR, cs.EXTRAP]])
    tags = rng.sample(range(1, 30), len(types)); it = iter(tags)
    m = mg.dress(rng, shape, markers=lambda p, q: next(it, None) or rng.choice(tags)); scale = rng.choice([.05, .1, .02])
    G = gas(rng); G["M"] = rng.choice([.3, .5, .8, 1.2]); aoa = rng.choice([0.0, 3.0, -10.0, 45.0])
    if visc: G["Re"] = rng.choice([50.0, 500.0])
    d = os.path.join(ck.work, "e%d" % i); os.makedirs(d, exist_ok=True); os.makedirs(d + "/out", exist_ok=True)
    m["_scale"] = scale
    if rng.random() < .3: mesh = d + "/m.su2"; pub = mg.write_su2(m, mesh)
    else: mesh = d + "/m.msh"; mg.write_gmsh(m, mesh, scale=scale); pub = m
    vals = [(rng.choice([0.0, 0.0, .3]), rng.uniform(.9, 1.1)) if t == cs.ISO else (rng.choice([0.0, 0.0, .4]), 0.0) for t in types]
    def steps():
        c = rng.choice([.2, .5]) if not implicit else rng.choice([.8, 3.0])
        return c, c * rng.choice([1, 4]), rng.choice([.9, .7, .5, .2]), rng.choice([1, 2, 3, 4, 5] if not implicit else [1, 2, 3])
    s, mn = steps(), steps(); starter = rng.random() < .5
    if starter and rng.random() < .15: s = s[:3] + (0,)
    if ranks > 1: mn = mn[:2] + (rng.choice([.97, .9, .999]), 6); hist = True
    else: hist = rng.random() < .7
    if ranks == 1 and rng.random() < .4: mn = mn[:2] + (rng.choice([.95, .99]), mn[3])
    vol = rng.random() < .7
    walls = [t for t, ty in zip(tags, types) if ty in (cs.SLIP, cs.ISO, cs.ADIA) and rng.random() < .7]; others = [t for t in tags if t not in walls and rng.random() < .5]
    out = d + "/out/"; logp = out + "log"
    case_ = lambda w: rng.choice([w.lower(), w.upper(), w])
    doc = [("io.mesh_file", [mesh]), ("io.solution_output_file", [out + "sol.vtu"]), ("io.log_file_prefix", [logp]), ("io.convergence_history_required", [str(hist).lower()]),
           ("flow_conditions.flow_type", [case_("navierstokes" if visc else "euler")]), ("flow_conditions.adiabatic_index", [repr(G["g"])]), ("flow_conditions.angle_of_attack", [repr(aoa)]), ("flow_conditions.freestream_Mach_number", [repr(G["M"])]),
           ("time.simulation_type", ["steady"]), ("spatial_discretization.inviscid_flux", [case_(num["flux"])]), ("spatial_discretization.gradient_method", [case_(num["grad"])]), ("spatial_discretization.limiter", [case_(num["recon"])]), ("spatial_discretization.limiter_parameter", ["1.0"]),
           ("pseudotime.pseudotime_stepping_type", [case_("implicit" if implicit else "explicit")])]
    if visc: doc += [("flow_conditions.freestream_Reynolds_number", [repr(G["Re"])]), ("flow_conditions.freestream_temperature", [repr(G["Tinf"])]), ("flow_conditions.Prandtl_number", [repr(G["Pr"])]), ("flow_conditions.use_constant_viscosity", [str(num["cvisc"]).lower()])]
    for k, (t, mk, v) in enumerate(zip(types, tags, vals)):
        doc += [("bc.bc%d.type" % k, [case_(BCNAMES[t])]), ("bc.bc%d.marker" % k, [str(mk)])]
        if t == cs.ISO: doc.append(("bc.bc%d.boundary_values" % k, [repr(v[0]), repr(v[1])]))
        if t == cs.ADIA: doc.append(("bc.bc%d.boundary_values" % k, [repr(v[0])]))
    if walls: doc.append(("bc.listof_output_wall_boundaries", [str(w) for w in walls]))
    if others: doc.append(("bc.listof_output_other_boundaries", [str(w) for w in others]))
    if walls or others: doc.append(("bc.surface_output_file_prefix", [out + "surf"]))
    if vol: doc.append(("bc.volume_output_file_prefix", [out + "volume"]))
    for name, v in [("main", mn)] + ([("initialization", s)] if starter else []): doc += [("pseudotime.%s.%s" % (name, k), [repr(x)]) for k, x in zip(("cfl_min", "cfl_max", "tolerance", "max_timesteps"), v)]
    if implicit: doc += [("Jacobian_inviscid_flux", [case_(num["jflux"])]), ("pseudotime.nonlinear_update_scheme", ["full"])]
    ctrl = d + "/c.ctrl"; args = [ctrl]
    if rng.random() < .2:                            # the mesh may be named on the command line instead
        doc = [(k, [d + "/other.msh"]) if k == "io.mesh_file" else (k, v) for k, v in doc]; args.append("--mesh_file=" + mesh)
    if implicit: args += ["-ksp_type", "preonly", "-pc_type", "lu"] if ranks == 1 else ["-ksp_type", "gmres", "-pc_type", "bjacobi", "-ksp_rtol", "1e-13", "-ksp_max_it", "500"]
    reorder = ranks == 1 and rng.random() < .4
    if reorder:
        o = rng.choice(["rcm", "nd", "qmd", "1wd", "line", "line_rcm"]); args += ["-mesh_reorder", o]
        if "line" in o: args += ["-mesh_anisotropy_threshold", rng.choice(["1.5", "3", "100"])]
    if why: doc, args = spoil(rng, why, doc, args, d)
    open(ctrl, "w").write(render(rng, doc))
    if why == "control_missing": os.remove(ctrl)
    if num["jflux"] == "CONSISTENT": num["jflux"] = num["flux"]
    job = {"id": i, "dir": d, "args": args, "threads": rng.choice([1, 1, 1, 3]), "steps": (s[3] if starter else 0) + mn[3]}
    if why: job["why"] = why
    sec = lambda v: {"cfl": f17(v[0]), "end": f17(v[1]), "tol": f17(v[2]), "max": v[3]}
    meta = {"kind": "steady", "mesh": mg.public(pub), "scale": f17(scale), "gas": {k: f17(v) for k, v in G.items()}, "aoa": f17(PI / 180.0 * aoa), "num": {k: (v if isinstance(v, bool) else str(v)) for k, v in num.items()},
            "bcs": [[t, ty, f17(v[0]), f17(v[1])] for t, ty, v in zip(tags, types, vals)], "u": [], "walls": walls, "others": others, "file": open(ctrl).read() if os.path.exists(ctrl) else "",
            "run": {"starter": starter, "implicit": implicit, "hist": hist, "vol": vol, "procs": ranks, "s": sec(s), "m": sec(mn)},
            "key": {"kind": "program", "ranks": ranks, "implicit": implicit, "starter": starter, "reorder": reorder, "flux": num["flux"], "order2": num["order2"], "visc": visc}}
    return job, meta

WHY = ["flux", "gradient", "limiter", "jacobian_flux", "update", "flow_type", "stepping", "simulation", "bc_type", "mesh_missing", "control_missing", "key_missing", "number", "orderin"]
def spoil(rng, why, doc, args, d):
    """Makes the control file one that cannot be carried out."""
    def put(k, v): return [(p, [v]) if p == k else (p, w) for p, w in doc]
    S = "spatial_discretization."
    if why == "flux": doc = put(S + "inviscid_flux", rng.choice(["osher", "hlle"]))
    if why == "gradient": doc = put(S + "gradient_method", rng.choice(["lsq", "green-gauss"]))
    if why == "limiter": doc = put(S + "limiter", "superbee"); doc = [(p, ["leastsquares"]) if p == S + "gradient_method" else (p, w) for p, w in doc]
    if why == "jacobian_flux": doc = put("Jacobian_inviscid_flux", "rusanov")
    if why == "update": doc = put("pseudotime.nonlinear_update_scheme", "partial")
    if why == "flow_type": doc = put("flow_conditions.flow_type", rng.choice(["stokes", "rans"]))
    if why == "stepping": doc = put("pseudotime.pseudotime_stepping_type", "dual")
    if why == "simulation": doc = put("time.simulation_type", "periodic")
    if why == "bc_type": doc = put("bc.bc0.type", rng.choice(["wall", "symmetry"]))
    if why == "mesh_missing": doc = put("io.mesh_file", d + "/none.msh"); args = [a for a in args if not a.startswith("--mesh_file")]
    if why == "key_missing":
        k = rng.choice(["io.solution_output_file", "io.log_file_prefix", "flow_conditions.adiabatic_index", "flow_conditions.angle_of_attack", "flow_conditions.freestream_Mach_number", S + "inviscid_flux", S + "gradient_method", S + "limiter",
                        "pseudotime.main.cfl_min", "pseudotime.main.tolerance", "pseudotime.main.max_timesteps", "bc.bc0.marker", "bc.bc1.type"])
        doc = [(p, w) for p, w in doc if p != k]
    if why == "number": doc = put(rng.choice(["pseudotime.main.cfl_min", "flow_conditions.adiabatic_index", "flow_conditions.angle_of_attack"]), "fast")
    if why == "orderin": args = args + ["-mesh_reorder", rng.choice(["line", "line_rcm"])] if "-mesh_reorder" not in args else ["x"]      # no threshold given
    return doc, args

def check_E01(ck):
    ck.build([], ["fvens_steady"])
    exe = vlib.program(ck, "fvens_steady")
    small, big = cs.shapes_for(ck, 2)
    shapes = [s for s in small if 2 <= len(s[2]) <= 6] + big; ck.rng.shuffle(shapes)
    i = 0; jobs, meta = {}, {}
    def add(**kw):
        nonlocal i
        shape = shapes[i % len(shapes)]
        while len(shape[2]) < kw.get("ranks", 1): shape = ck.rng.choice(shapes)
        j, m = case(ck, i, shape, **kw); jobs.setdefault(kw.get("ranks", 1), []).append(j); meta[i] = m; i += 1
    for _ in range(ck.pick(60, 700)): add()
    for _ in range(ck.pick(24, 300)): add(implicit=True)
    for r in (2, 3):
        for k in range(ck.pick(9, 120)): add(ranks=r, implicit=k % 3 == 2)
    for why in WHY:
        for k in range(ck.pick(2, 12)): add(why=why, implicit=why in ("jacobian_flux", "update"))
    drive = runner(ck, exe)
    for nr in sorted(jobs): ck.conform("ProgramTrace", drive, jobs[nr], meta, ranks=nr, cfg="Program.cfg")
    ck.assumptions += ["the iterates are admissible and, with implicit stepping, off the kinks of the flux", "files of multi-process runs: only the history is written"]

# ------------------------------------------------------------------ the mesh converter
def parse_gmsh(fn):
    """A Gmsh 2.2 text file: points and elements, as written."""
    w = open(fn).read().split(); i = w.index("$Nodes"); n = int(w[i + 1]); pts = []
    for k in range(n):
        r = w[i + 2 + 4 * k:i + 6 + 4 * k]
        if int(r[0]) != k + 1: raise ValueError("node numbers")
        pts.append(r[1:])
    if w[i + 2 + 4 * n] != "$EndNodes": raise ValueError("nodes")
    i = w.index("$Elements"); m = int(w[i + 1]); i += 2; edges, cells, ids = [], [], []
    for k in range(m):
        num, ty, nt = map(int, w[i:i + 3]); tags = list(map(int, w[i + 3:i + 3 + nt])); nn = {1: 2, 2: 3, 3: 4}[ty]
        nodes = [int(x) - 1 for x in w[i + 3 + nt:i + 3 + nt + nn]]; i += 3 + nt + nn; ids.append(num)
        (edges if ty == 1 else cells).append({"type": ty, "tags": tags, "nodes": nodes})
    if w[i] != "$EndElements": raise ValueError("elements")
    return {"pts": pts, "cells": cells, "edges": edges, "ids": ids}

def converter(ck, exe):
    def convertformat(jobs, ranks=1, **kw):
        def one(j):
            d, f = j["dir"], j["format"]
            rc = launch(ck, exe, j["args"], ranks, d, refusal="why" in j, threads=j.get("threads", 1))
            if rc is None: return j["id"], [{"event": "Hang"}]
            if "why" in j: return j["id"], [{"event": "Refusal", "why": j["why"], "rc": rc, "files": os.listdir(d + "/out")}]
            if rc: return j["id"], [{"event": "Failed", "rc": rc}]
            try: o = {"grid": grid(d + "/out/m.vtu")} if f == "vtu" else parse_gmsh(d + "/out/m.msh")
            except Exception as x: return j["id"], [{"event": "Unreadable", "what": repr(x)}]
            o.update(event="Converted", rc=rc, format=f); return j["id"], [o]
        with ThreadPoolExecutor(6) as ex: return dict(ex.map(one, jobs))
    return convertformat

def check_E02(ck):
    ck.build([], ["convertformat"])
    exe = vlib.program(ck, "convertformat"); rng = ck.rng
    small, big = cs.shapes_for(ck, 1)
    jobs, meta = [], {}
    whys = ["format", "mesh_missing", "arguments", "format_case"]
    for i, shape in enumerate((small + big)[:ck.pick(110, 1500)]):
        m = mg.dress(rng, shape); scale = rng.choice([1, .1, .37, 1 / 3, 1e-3]); m["_scale"] = scale
        d = os.path.join(ck.work, "v%d" % i); os.makedirs(d + "/out", exist_ok=True)
        if rng.random() < .4: src = d + "/a.su2"; pub = mg.write_su2(m, src)
        else: src = d + "/a.msh"; mg.write_gmsh(m, src, scale=scale); pub = m
        f = rng.choice(["msh", "msh", "vtu"]); dst = d + "/out/m." + f
        j = {"id": i, "dir": d, "format": f, "args": [src, dst, f]}
        if i < 3 * len(whys):
            j["why"] = w = whys[i % len(whys)]
            if w == "format": j["args"][2] = rng.choice(["su2", "cgns", "ms"])
            if w == "format_case": j["args"][2] = f.upper()
            if w == "mesh_missing": j["args"][0] = d + "/b.msh"
            if w == "arguments": j["args"] = j["args"][:rng.choice([0, 1, 2])]
        jobs.append(j); meta[i] = {"kind": "convert", "mesh": mg.public(pub), "scale": f17(scale), "key": {"kind": "convert", "format": f, "source": src[-3:]}}
    ck.conform("ProgramTrace", converter(ck, exe), jobs, meta, cfg="Program.cfg")
