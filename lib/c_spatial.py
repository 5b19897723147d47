"""Checks of the spatial discretisation (S properties)."""
import math, os
import meshgen as mg
import vlib
from c_point import check_S04, check_S07, check_S09, point_S08, gas, f17, strs, vec
from c_part import zip_ranks

FLUXES = ["LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"]
JFLUX = ["LLF", "AUSM", "ROE", "HLL", "HLLC"]
GRADS = ["GREENGAUSS", "LEASTSQUARES"]
RECONS = ["NONE", "WENO", "VANALBADA", "BARTHJESPERSEN", "VENKATAKRISHNAN"]
SLIP, FAR, INOUT, SUBIN, EXTRAP, ISO, ADIA = 0, 1, 2, 3, 4, 6, 7

def scaled(m, s): return [[x * s for x in p] for p in m["pts"]]

class Bench:
    def __init__(self, ck): self.ck, self.n, self.jobs, self.meta = ck, 0, {}, {}
    def add(self, mesh, scale, kind, job, meta, own=None, key=None):
        i = self.n; self.n += 1
        fn = os.path.join(self.ck.work, "f%d.msh" % i)
        mg.write_gmsh(mesh, fn, scale=scale)
        nr = max(own) + 1 if own else 1
        j = {"id": i, "file": fn, "kind": kind}; j.update(job)
        if own: j["own"] = ",".join(map(str, own))
        self.jobs.setdefault(nr, []).append(j)
        k = {"kind": kind, "cells": len(mesh["cells"]), "nr": nr}; k.update(key or {})
        m = {"mesh": mg.public(mesh), "scale": f17(scale), "kind": kind, "own": own or [], "key": k}; m.update(meta)
        self.meta[i] = m
    def run(self, **kw):
        for nr in sorted(self.jobs):
            self.ck.conform("SpatialTrace", "vh_flow", self.jobs[nr], self.meta, ranks=nr, threads=3 if self.ck.omp == 1 else 1,
                            assemble=zip_ranks if nr > 1 else (lambda i, ev: {"ev": [e if e.get("event") in ("Gradients", "Recon", "Update", "Crash", "Hang", "Exception") else {"event": e["event"], "r": [e]} for e in ev]}), **kw)

def contiguous(rng, n, nr):
    # the numbering of the cells is random, so these are arbitrary parts of the mesh
    c = sorted(rng.sample(range(1, n), nr - 1)); return [sum(1 for x in c if x <= i) for i in range(n)]

# ------------------------------------------------------------------ flow cases
def freestream(G, aoa):
    p = 1 / (G["g"] * G["M"] ** 2)
    return [1.0, math.cos(aoa), math.sin(aoa), p]

def cons(G, w):
    return [w[0], w[0] * w[1], w[0] * w[2], w[3] / (G["g"] - 1) + .5 * w[0] * (w[1] ** 2 + w[2] ** 2)]

def flow_state(rng, G, aoa, n, amp):
    w0 = freestream(G, aoa); out = []
    for _ in range(n):
        out.append(cons(G, [w0[0] * (1 + rng.uniform(-amp, amp)), w0[1] + rng.uniform(-amp, amp), w0[2] + rng.uniform(-amp, amp), w0[3] * (1 + rng.uniform(-amp, amp))]))
    return out

def smooth_state(rng, G, aoa, m, amp):
    """A state that varies smoothly over the mesh, so that limited reconstructions stay admissible."""
    w0 = freestream(G, aoa); xs = [p[0] for p in m["pts"]]; ys = [p[1] for p in m["pts"]]
    sx, sy = max(xs) - min(xs), max(ys) - min(ys); out = []
    c = [[rng.uniform(-amp, amp) for _ in range(3)] for _ in range(4)]
    for cell in m["cells"]:
        x = sum(m["pts"][v][0] for v in cell) / len(cell); y = sum(m["pts"][v][1] for v in cell) / len(cell)
        x = (x - min(xs)) / sx - .5; y = (y - min(ys)) / sy - .5
        d = [k[0] + 2 * k[1] * x + 2 * k[2] * y + rng.uniform(-amp, amp) * .15 for k in c]
        out.append(cons(G, [w0[0] * (1 + d[0]), w0[1] + d[1], w0[2] + d[2], w0[3] * (1 + d[3])]))
    return out

def bc_pool(rng, visc):
    # ghost states of the viscous walls are well defined only with viscosity, slip walls only without
    return rng.choice([[ISO, ADIA, FAR], [ADIA, FAR, EXTRAP], [ISO, INOUT, ADIA]]) if visc else rng.choice([[SLIP, FAR], [SLIP, INOUT, EXTRAP], [FAR], [SLIP, FAR, INOUT, EXTRAP]])

def flow_case(ck, b, shape, own=None, ops="r0,g0", ns=1, num=None, mode=None, smooth=None, bcs=None, key=None, extra=None, vzero=False, xmeta=None):
    rng = ck.rng
    n = len(shape[2])
    types = bcs or bc_pool(rng, num["visc"])
    tags = rng.sample(range(1, 30), len(types))
    m = mg.dress(rng, shape, mode=mode, markers=lambda p, q: rng.choice(tags))
    scale = rng.choice([.05, .1, .02])
    G = gas(rng); aoa = 0.0 if vzero else rng.choice([0, .1, -.3, 1.2])
    if num["visc"]: G["Re"] = rng.choice([5.0, 50.0, 500.0])
    amp = num.get("amp", .06)
    us = [smooth_state(rng, G, aoa, m, amp) if smooth or (smooth is None and num["order2"]) else flow_state(rng, G, aoa, n, amp) for _ in range(ns)]
    if vzero:           # no velocity normal to the horizontal faces
        us = [[cons(G, [rng.uniform(.8, 1.2), 1.0, 0.0, freestream(G, 0)[3] * rng.uniform(.8, 1.2)]) for _ in range(n)] for _ in range(ns)]
    vals = []
    for t in types:
        if t == ISO: vals.append([rng.choice([0, 0, .3]), rng.uniform(.9, 1.1)])
        else: vals.append([rng.choice([0, 0, .4]), 0.0])
    job = {"bctypes": ",".join(map(str, types)), "bctags": ",".join(map(str, tags)), "bcvals": vec([x for v in vals for x in v]), "aoa": f17(aoa), "ns": ns, "ops": ops}
    job.update({k: f17(v) for k, v in G.items()})
    job.update({k: (int(v) if isinstance(v, bool) else v) for k, v in num.items() if k != "amp"})
    job.update(extra or {})
    for k, u in enumerate(us): job["u%d" % k] = vec([x for c in u for x in c])
    meta = {"gas": {k: f17(v) for k, v in G.items()}, "aoa": f17(aoa), "num": {k: (v if isinstance(v, bool) else str(v)) for k, v in num.items()},
            "bcs": [[t, ty, f17(v[0]), f17(v[1])] for t, ty, v in zip(tags, types, vals)], "u": [[strs(c) for c in u] for u in us]}
    meta.update(xmeta or {})
    k = {x: num[x] for x in ("flux", "jflux", "grad", "recon", "order2", "visc", "cvisc")}; k.update(key or {})
    b.add(m, scale, "flow", job, meta, own, k)

def numerics(rng, order2=None, visc=None, jac=False, recon=None, flux=None, jflux=None):
    o2 = rng.random() < .6 if order2 is None else order2
    v = rng.random() < .5 if visc is None else visc
    r = recon or rng.choice(RECONS)
    return {"flux": flux or rng.choice(FLUXES), "jflux": jflux or rng.choice(JFLUX), "grad": rng.choice(GRADS), "recon": r,
            "par": {"WENO": rng.choice([1, 20, 100]), "VENKATAKRISHNAN": rng.choice([.5, 2, 10])}.get(r, 1), "order2": o2, "visc": v, "cvisc": rng.random() < .5}

def shapes_for(ck, mincells=1):
    s = mg.gen_shapes(ck, 2, 2) + mg.gen_shapes(ck, 3, 2)
    big = mg.gen_shapes(ck, 4, 4, mincells=7, simulate=ck.pick(60, 400))
    s = [x for x in s if len(x[2]) >= mincells]
    ck.rng.shuffle(s); ck.rng.shuffle(big)
    return s, mg.gen_fans(ck, ck.pick(8, 60)) + mg.gen_large(ck, ck.pick(1, 3))[:1] + big

def check_S01(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck)
    b = Bench(ck)
    for k, s in enumerate(small[:ck.pick(90, 900)] + big[:ck.pick(25, 300)]):
        ops = ck.rng.choice(["r0", "r0,r1,r0", "n1,r0", "r0,g1,r0"])
        flow_case(ck, b, s, ops=ops, ns=2, num=numerics(ck.rng))
    b.run()
    # threads: every division of the faces and every interleaving, on the model; many repetitions on the code
    for nt, nc in [(2, 2)] + ck.pick([], [(3, 2)]):
        ck.model("FaceLoop", "CONSTANTS NT = %d NC = %d ATOMIC = TRUE\nSPECIFICATION Spec\nINVARIANTS Deterministic Conserving\nCHECK_DEADLOCK FALSE\n" % (nt, nc))
    out = ck.model("FaceLoop", "CONSTANTS NT = 2 NC = 2 ATOMIC = FALSE\nSPECIFICATION Spec\nINVARIANTS Deterministic\nCHECK_DEADLOCK FALSE\n", expect_ok=False)
    if "Deterministic is violated" not in out: raise vlib.CheckError("the face loop model does not distinguish atomic updates")
    b = Bench(ck)
    for k, s in enumerate(big[-ck.pick(8, 40):]):
        flow_case(ck, b, s, ops="w0", num=numerics(ck.rng, order2=bool(k % 2)), extra={"times": ck.pick(400, 3000)})
    threaded(ck, b)
    ck.assumptions += ["states and reconstructed states have positive density and pressure"]

def check_S02(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck, 2)
    b = Bench(ck)
    for nr in (2, 3, 4):
        pool = [s for s in small if len(s[2]) >= nr]
        for s in pool[:ck.pick({2: 45, 3: 35, 4: 25}[nr], 400)] + big[:ck.pick(12, 150)]:
            n = len(s[2])
            own = contiguous(ck.rng, n, nr)
            if ck.rng.random() < .25: diff_case(ck, b, s, own=own, ops=ck.rng.choice(["r0,g0", "g0,r0,r1,r0", "g1"]))
            else: flow_case(ck, b, s, own=own, ops=ck.rng.choice(["r0", "r0,r1,r0", "g0,r0", "r1,g0"]), ns=2, num=numerics(ck.rng, order2=ck.rng.random() < .8))
    b.run()
    ck.assumptions += ["every process owns at least one cell; states and reconstructed states have positive density and pressure"]

def diff_case(ck, b, shape, own=None, ops="r0,g0", ns=2, grad=None, extra=None, meta=None):
    rng = ck.rng; n = len(shape[2])
    m = mg.dress(rng, shape); scale = rng.choice([.05, .1, .3])
    d = {"nu": f17(rng.choice([1.0, .01, 2.5])), "b": f17(rng.choice([0, 1.0, -2.3])), "c": strs([rng.uniform(-1, 1) for _ in range(3)])}
    us = [[[rng.uniform(-1, 2)] for _ in range(n)] for _ in range(ns)]
    g = grad or rng.choice(GRADS + ["NONE"])
    job = {"nu": d["nu"], "b": d["b"], "c": ",".join(d["c"]), "grad": g, "ns": ns, "ops": ops}
    job.update(extra or {})
    for k, u in enumerate(us): job["u%d" % k] = vec([x for c in u for x in c])
    b.add(m, scale, "diff", job, dict({"diff": d, "num": {"grad": g}, "u": [[strs(c) for c in u] for u in us]}, **(meta or {})), own, {"grad": g})

def check_S03(ck):
    """Free stream: boundaries are far field, extrapolation, inflow-outflow, or slip walls parallel to the stream."""
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck)
    b = Bench(ck)
    for k, s in enumerate(small[:ck.pick(110, 1200)] + big[:ck.pick(30, 300)]):
        rng = ck.rng; n = len(s[2])
        m = mg.dress(rng, s)
        e = rng.choice(m["bf"]); p, q = m["pts"][e[0]], m["pts"][e[1]]
        aoa = math.atan2(q[1] - p[1], q[0] - p[0]) if rng.random() < .7 else rng.uniform(-3, 3)
        t = (math.cos(aoa), math.sin(aoa))
        types = [FAR, INOUT, EXTRAP, SLIP]; tags = rng.sample(range(1, 30), 4)
        for f in m["bf"]:
            a, c = m["pts"][f[0]], m["pts"][f[1]]; l = math.hypot(c[0] - a[0], c[1] - a[1])
            par = abs(t[0] * (c[1] - a[1]) - t[1] * (c[0] - a[0])) < 1e-12 * l
            f[2] = tags[3] if par and rng.random() < .8 else tags[rng.randrange(3)]
        scale = rng.choice([.05, .1, 1.0]); G = gas(rng); num = numerics(rng); num["amp"] = 0
        num["flux"] = FLUXES[k % 7]
        if num["visc"]: G["Re"] = rng.choice([5.0, 500.0])
        u = cons(G, freestream(G, aoa))
        job = {"bctypes": ",".join(map(str, types)), "bctags": ",".join(map(str, tags)), "bcvals": vec([0] * 8), "aoa": f17(aoa), "ns": 1, "ops": "r0,r0", "u0": vec(u * n)}
        job.update({k: f17(v) for k, v in G.items()}); job.update({k: (int(v) if isinstance(v, bool) else v) for k, v in num.items() if k != "amp"})
        own = None
        if k % 4 == 3 and n >= 2: own = contiguous(rng, n, rng.choice([2, 3, 4]) if n >= 4 else 2)
        b.add(m, scale, "flow", job, {"gas": {k: f17(v) for k, v in G.items()}, "aoa": f17(aoa), "num": {k: (v if isinstance(v, bool) else str(v)) for k, v in num.items()},
              "bcs": [[x, y, "0", "0"] for x, y in zip(tags, types)], "u": [[strs(u)] * n]}, own, {"flux": num["flux"], "visc": num["visc"], "order2": num["order2"]})
    b.run()
    ck.assumptions += ["boundaries consistent with a uniform stream: far field, extrapolation, inflow-outflow, or slip wall parallel to the stream"]

# ------------------------------------------------------------------ schemes in isolation
def scheme_case(ck, b, shape, ops, field, nv, par=1.0, amp=1.0, gradk=None, extra=None):
    rng = ck.rng
    m = mg.dress(rng, shape, mode=rng.choice(["jitter", "affine", "stretch", "regular", "aniso"])); scale = rng.choice([.05, .1, .3])
    P = [[x * scale for x in p] for p in m["pts"]]
    cen = [[sum(P[v][d] for v in c) / len(c) for d in (0, 1)] for c in m["cells"]]
    bnd, _ = mg.boundary(m["cells"])
    lin = [[rng.uniform(-2, 2) * amp for _ in range(nv)] for _ in range(3)]
    if field == "constant": lin[1] = [0.0] * nv; lin[2] = [0.0] * nv
    at = lambda x: [lin[0][v] + x[0] * lin[1][v] + x[1] * lin[2][v] for v in range(nv)]
    w = [at(c) if field != "any" else [rng.choice([rng.uniform(-2, 2) * amp, rng.uniform(-2, 2) * amp, 1.0]) for _ in range(nv)] for c in cen]
    wg = []
    for (i, p, q) in bnd:
        g = [P[p][d] + P[q][d] - cen[i][d] for d in (0, 1)]
        wg.append([p, q, at(g) if field != "any" else [rng.uniform(-2, 2) * amp for _ in range(nv)]])
    gr = [[lin[1], lin[2]] if field != "any" else [[rng.uniform(-3, 3) * amp / scale / 10 for _ in range(nv)] for _ in (0, 1)] for _ in cen]
    job = {"nv": nv, "ops": ops, "par": f17(par), "w": vec([x for c in w for x in c]), "wge": ",".join("%d,%d" % (p, q) for p, q, _ in wg),
           "wgv": vec([x for _, _, v in wg for x in v]), "gr": vec([x for c in gr for d in c for x in d])}
    job.update(extra or {})
    b.add(m, scale, "scheme", job, {"nv": nv, "field": field, "lin": [strs(l) for l in lin], "w": [strs(x) for x in w], "wg": [[p, q, strs(v)] for p, q, v in wg],
          "gr": [[strs(d) for d in c] for c in gr], "num": {"par": f17(par)}}, None, {"ops": ops, "field": field, "nv": nv})

def threaded(ck, b):
    """Many repetitions with several threads; the most deviating one is recorded."""
    ck.omp = 8
    b.run(shards=1)
    ck.omp = 1

def check_S05(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck)
    b = Bench(ck)
    for k, s in enumerate(small[:ck.pick(150, 1500)] + big[:ck.pick(30, 300)]):
        scheme_case(ck, b, s, ck.rng.choice(["g:LEASTSQUARES,g:GREENGAUSS", "g:GREENGAUSS,g:LEASTSQUARES,g:NONE"]), ck.rng.choice(["linear", "linear", "constant", "any", "any"]), ck.rng.choice([1, 4]), amp=ck.rng.choice([1, 1, 100.0]))
    b.run()
    b = Bench(ck)
    for k, s in enumerate(big[-ck.pick(6, 40):]):
        scheme_case(ck, b, s, ["g:LEASTSQUARES", "g:GREENGAUSS"][k % 2], "any", 4, extra={"times": ck.pick(400, 3000)})
    threaded(ck, b)

def check_S06(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck)
    b = Bench(ck)
    for k, s in enumerate(small[:ck.pick(150, 1500)] + big[:ck.pick(30, 300)]):
        r = RECONS[:]; ck.rng.shuffle(r)
        scheme_case(ck, b, s, ",".join("r:" + x for x in r), ck.rng.choice(["linear", "constant", "any", "any"]), ck.rng.choice([1, 4]), par=ck.rng.choice([1, .5, 20.0, 5.0]), amp=ck.rng.choice([1, 1, 10.0]))
    b.run()
    b = Bench(ck)
    for k, s in enumerate(big[-ck.pick(5, 40):]):
        scheme_case(ck, b, s, ",".join("r:" + x for x in RECONS), "any", 4, par=5.0, extra={"times": ck.pick(200, 2000)})
    threaded(ck, b)

def matrix_S08(ck):
    small, big = shapes_for(ck)
    small = [s for s in small if len(s[2]) <= 6]
    b = Bench(ck)
    for k in range(ck.pick(70, 700)):
        s = small[k % len(small)]
        own = None
        if k % 4 == 3 and len(s[2]) >= 3:
            own = contiguous(ck.rng, len(s[2]), ck.rng.choice([2, 3]))
        if k % 3 == 2: diff_case(ck, b, s, own=own, ops="j0")
        else: flow_case(ck, b, s, own=own, ops=ck.rng.choice(["j0", "r1,j0", "j1,j0", "j02"]), ns=2, num=numerics(ck.rng, order2=bool(ck.rng.random() < .3), jflux=JFLUX[k % 5]), smooth=False)
    for s in [x for x in small if len(x[2]) == 4][:3]:          # horizontal faces: the middle wave of the Roe flux is inside its entropy fix
        flow_case(ck, b, s, ops="j0", num=numerics(ck.rng, order2=False, visc=False, jflux="ROE"), smooth=False, bcs=[FAR], mode="regular", vzero=True)
    b.run()
    b = Bench(ck)
    for k, s in enumerate([x for x in small if len(x[2]) >= 4][-ck.pick(4, 20):]):
        if k % 4 == 3: diff_case(ck, b, s, ops="j0", extra={"times": ck.pick(100, 1000)})
        else: flow_case(ck, b, s, ops="j0", num=numerics(ck.rng, order2=False, jflux=JFLUX[k % 5]), smooth=False, extra={"times": ck.pick(100, 1000)})
    threaded(ck, b)

def check_S08(ck):
    ck.build(["vh_flux", "vh_flow"], ["ens_gasdynamics"])
    point_S08(ck)
    matrix_S08(ck)
    ck.assumptions += ["the residual linearised is the first-order one with thin-layer viscous gradients; states away from upwind switches"]
