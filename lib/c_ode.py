"""Checks of the nonlinear solvers (O properties)."""
import json, math, os
import meshgen as mg
import vlib
from c_point import gas, state, normal, f17, strs, vec
from c_part import zip_ranks
from c_spatial import contiguous, cons, freestream

N, Z = 9999, -9999
CFG = "CONSTANTS MAXIT = %d EMIT = %s\nSPECIFICATION %s\nINVARIANTS Bounded Exact Truth CFLBounds CFLRule Emit\n%sCHECK_DEADLOCK FALSE\n"

def histories(ck):
    """Finished behaviours of Pseudo.tla: all short ones, and random long ones."""
    ck.model("Pseudo", CFG % (3, "FALSE", "Live", "PROPERTY Terminates\n"))
    short = ck.model("Pseudo", CFG % (ck.pick(3, 4), "TRUE", "Spec", ""), prefix="RUN")
    deep = ck.model("Pseudo", CFG % (12, "TRUE", "Spec", ""), prefix="RUN", workers=1, extra=["-simulate", "num=%d" % ck.pick(3000, 20000), "-depth", "14", "-seed", str(ck.seed), "-aril", "0"])
    s, d = [sorted(set(x)) for x in (short, deep)]
    s, d = [json.loads(x) for x in s], [x for x in map(json.loads, d) if len(x["hist"]) > 3]
    ck.rng.shuffle(s); ck.rng.shuffle(d)
    return s, d

class Bench:
    def __init__(self, ck): self.ck, self.n, self.jobs, self.meta, self.threaded = ck, 0, {}, {}, False
    def add(self, job, meta, key, mesh=None, scale=1.0, own=None):
        if self.threaded: job = dict(job, rep=self.ck.pick(40, 200), threads=vlib.NCPU)
        i = self.n; self.n += 1
        job = dict(job, id=i, log=os.path.join(self.ck.work, "log%d" % i))
        if mesh:
            fn = os.path.join(self.ck.work, "o%d.msh" % i); mg.write_gmsh(mesh, fn, scale=scale); job["file"] = fn
            job["own"] = ",".join(map(str, own)) if own else ""
        nr = max(own) + 1 if own else 1
        self.jobs.setdefault(nr, []).append(job)
        self.meta[i] = dict(meta, key=dict(key, kind=job["kind"], nr=nr))
    def run(self):
        one = lambda i, ev: {"ev": [e if e.get("event") in ("Omega", "Crash", "Hang", "Exception") else {"event": e["event"], "r": [e]} for e in ev]}
        for nr in sorted(self.jobs):
            rep = [j for j in self.jobs[nr] if j.get("rep")]; self.jobs[nr] = [j for j in self.jobs[nr] if not j.get("rep")]
            if rep: self.ck.conform("OdeTrace", "vh_ode", rep, self.meta, ranks=nr, assemble=zip_ranks if nr > 1 else one, shards=1)
            self.ck.conform("OdeTrace", "vh_ode", self.jobs[nr], self.meta, ranks=nr, assemble=zip_ranks if nr > 1 else one, threads=3)

def meshes(ck, n):
    s = mg.gen_shapes(ck, 2, 2) + mg.gen_shapes(ck, 3, 2) + mg.gen_shapes(ck, 4, 4, mincells=7, simulate=ck.pick(40, 300)) + mg.gen_fans(ck, ck.pick(20, 200))
    ck.rng.shuffle(s)
    return [s[i % len(s)] for i in range(n)]

def large(ck): return (mg.gen_large(ck, 3 * ck.pick(2, 6)) * 3)[:ck.pick(6, 18)]

GAS0 = {"g": 1.4, "M": .5, "Tinf": 288.15, "Re": 100.0, "Pr": .72}
def common(ck, shape, kind, nv, **kw):
    """Job and case fields all solver runs share; the residuals, steps and starting state come as lists by cell."""
    rng = ck.rng; n = len(shape[2])
    m = mg.dress(rng, shape); scale = rng.choice([1.0, .1, 3.0])
    nr = 1 if n < 2 or n >= 100 or rng.random() < .6 else rng.randint(2, min(3, n))
    own = contiguous(rng, n, nr) if nr > 1 else [0] * n if kind == "imp" or rng.random() < .5 else None     # systems need the global numbering a partition carries
    p = dict(kind=kind, nv=nv, kappa=0.0, bcoef=0.0, coupled=False, hist=True, cfl=1.0, cflend=1.0, tol=0.0, maxiter=0, mf=False, relax=False, minf=1.0, order=1, final=0.0, gas=GAS0)
    p.update(kw); R, D, u0 = p.pop("R"), p.pop("D"), p.pop("u0"); G = p.pop("gas")
    job = {k: (int(v) if isinstance(v, bool) else f17(v) if isinstance(v, float) else v) for k, v in p.items()}
    job.update({k: f17(v) for k, v in G.items()}); job.update(nr=len(R), nd=len(D), u0=vec([x for c in u0 for x in c]))
    for k, r in enumerate(R): job["r%d" % k] = vec([x for c in r for x in c])
    for k, d in enumerate(D): job["d%d" % k] = vec(d)
    meta = {k: (f17(v) if isinstance(v, float) else v) for k, v in p.items()}
    meta.update(n=n, gas={k: f17(v) for k, v in G.items()}, u0=[strs(c) for c in u0])
    return job, meta, m, scale, own

def pseudo_case(ck, b, shape, beh, kind=None, mf=None, free=False):
    """A behaviour of Pseudo.tla made concrete: residuals of any shape with the norms it asks for."""
    rng = ck.rng; n = len(shape[2]); nv = rng.choice([1, 4, 4])
    kind = kind or rng.choice(["exp", "imp"])
    base = [[rng.uniform(.2, 1) * rng.choice([-1, 1]) for _ in range(nv)] for _ in range(n)]
    mf = kind == "imp" and (rng.random() < .2 if mf is None else mf)
    s0 = 10 ** rng.uniform(-2, -1 if mf else 3); R = []         # finite differences need moderate values
    for l in beh["hist"]:
        if l == N:
            r = [list(c) for c in base]; r[rng.randrange(n)][nv - 1] = rng.choice([math.nan, math.inf, -math.inf])
            if rng.random() < .3: r = [[math.nan] * nv for _ in range(n)]
        else:
            s = 0.0 if l == Z else s0 * 10 ** (l / 20) * rng.choice([-1, 1])
            shape_k = [[rng.uniform(.2, 1) * rng.choice([-1, 1]) for _ in range(nv)] for _ in range(n)] if free else base
            r = [[s * x for x in c] for c in shape_k]
        R.append(r)
    # the script holds its last value, so a solver that does not stop is seen to go on
    R = R or [base]
    D = [[10 ** rng.uniform(-1, 1) for _ in range(n)] for _ in range(2)]
    imp = kind == "imp"; cfl = rng.choice([.3, 1.0, 20.0])
    coupled = imp and rng.random() < .8
    tol = 0.0 if beh["tol"] < -5000 else 10 ** (beh["tol"] / 20)
    u0 = [[rng.uniform(-1, 1) for _ in range(nv)] for _ in range(n)]
    j = common(ck, shape, kind, nv, R=R, D=D, u0=u0, kappa=rng.choice([.1, 1.0]), bcoef=rng.choice([0.0, .3]), coupled=coupled, hist=rng.random() < .8,
               cfl=cfl, cflend=cfl * 10 ** (beh["span"] / 20), tol=tol, maxiter=beh["max"], mf=mf)
    b.add(j[0], j[1], {"out": beh["out"], "steps": len(beh["hist"])}, *j[2:])

def check_pseudo(ck, ne, ni):
    ck.build(["vh_ode"], ["ens_gasdynamics"])
    s, d = histories(ck)
    pool = []
    # every outcome at every length, then anything
    seen = {}
    for x in s + d:
        k = (x["out"], len(x["hist"]), x["span"] > 0)
        if seen.get(k, 0) < 4: seen[k] = seen.get(k, 0) + 1; pool.append(x)
    ck.rng.shuffle(s); ck.rng.shuffle(d)
    pool += s[:ne + ni] + d[:(ne + ni) // 2]; ck.rng.shuffle(pool)
    return pool

def check_O01(ck):
    pool = check_pseudo(ck, 400, 400)[:ck.pick(420, 4000)]
    b = Bench(ck)
    for k, (x, sh) in enumerate(zip(pool, meshes(ck, len(pool)))): pseudo_case(ck, b, sh, x, kind=["exp", "imp"][k % 2], free=k % 5 == 0)
    b.threaded = True      # repeated with several threads
    for k, (x, sh) in enumerate(zip([x for x in pool if 2 < len(x["hist"]) < 6 and x["out"] != "numerical"], large(ck))): pseudo_case(ck, b, sh, x, kind=["exp", "imp"][k % 2])
    b.run()
    ck.notes["finished_behaviours_carried_out"] = len(pool)
    ck.assumptions += ["the tolerance is less than one", "in a run with several processes each owns at least one cell, contiguous in the global numbering"]

def check_O02(ck):
    pool = [x for x in check_pseudo(ck, 500, 500) if len(x["hist"]) > 1][:ck.pick(380, 3600)]
    b = Bench(ck)
    for k, (x, sh) in enumerate(zip(pool, meshes(ck, len(pool)))): pseudo_case(ck, b, sh, x, kind="imp" if k % 6 else "exp", mf=k % 4 == 1, free=k % 3 == 0)
    b.threaded = True
    for k, (x, sh) in enumerate(zip([x for x in pool if 2 < len(x["hist"]) < 6 and x["out"] != "numerical"], large(ck))): pseudo_case(ck, b, sh, x, kind="imp" if k % 3 else "exp", mf=k % 3 == 1)
    b.run()
    ck.notes["finished_behaviours_carried_out"] = len(pool)
    ck.assumptions += ["the linear solver reduces the residual of the system by 13 orders of magnitude (8 with the matrix-free operator)",
                       "the first comparison of the ramp takes the norm before the first as one"]

def physical(rng, n):
    G = gas(rng); 
    return G, [state(G, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(.5, 2), rng.uniform(.3, 3) / G["g"], normal(rng)) for _ in range(n)]

def check_O03(ck):
    ck.build(["vh_ode"], ["ens_gasdynamics"]); rng = ck.rng
    b = Bench(ck)
    for k in range(ck.pick(500, 6000)):
        G, u = physical(rng, 1); u = u[0]; amp = 10 ** rng.uniform(-4, .3)
        du = [x * amp * rng.uniform(-1, 1) for x in (u[0], max(abs(u[1]), .1), max(abs(u[2]), .1), u[3])]
        z = rng.random()
        if z < .1: du = [0.0] * 4
        elif z < .25: du = [c * amp for c in u] if rng.random() < .5 else [-c * min(amp, .9) for c in u]     # a uniform change of density
        elif z < .35: du[0] = 0.0
        elif z < .45: du = [0.0, 0.0, 0.0, u[3] * amp * rng.choice([-1, 1])]
        minf = rng.choice([.1, .01, .5, .9, 1.0, 1e-6] + ([0.0, -.2, 1.0000001, 2.0] if k % 4 == 0 else []))
        b.add(dict({"kind": "omega", "u": vec(u), "du": vec(du), "minf": f17(minf)}, **{k: f17(v) for k, v in G.items()}),
              {"kind": "omega", "n": 0, "nv": 4, "u": strs(u), "du": strs(du), "minf": f17(minf), "gas": {k: f17(v) for k, v in G.items()}}, {"u": "state"})
    pool = meshes(ck, ck.pick(120, 1200))
    for sh in pool + large(ck):
        n = len(sh[2]); b.threaded = n >= 100; G, u0 = physical(rng, n); amp = rng.choice([.02, .1, .25]); steps = rng.randint(2, 4)
        R = [[[x * amp * rng.uniform(-1, 1) for x in (u[0], max(abs(u[1]), .2), max(abs(u[2]), .2), u[3])] for u in u0] for _ in range(steps)]
        cfl = rng.choice([1.0, 5.0])
        j = common(ck, sh, "imp", 4, R=R, D=[[rng.uniform(.2, 1) for _ in range(n)]], u0=u0, bcoef=.3, cfl=cfl, cflend=cfl * rng.choice([1, 3]), tol=1e-6, maxiter=steps,
                   relax=True, minf=rng.choice([.05, .3, .8, 1.0]), gas=G)
        b.add(j[0], j[1], {"relax": 1}, *j[2:])
    b.run()
    ck.assumptions += ["states are physical", "implicit runs with relaxation: uncoupled linear systems, so that the full update is known exactly"]

def check_O04(ck):
    ck.build(["vh_ode"], ["ens_gasdynamics"]); rng = ck.rng
    b = Bench(ck)
    for k, sh in enumerate(meshes(ck, ck.pick(260, 2600)) + large(ck)):
        n = len(sh[2]); b.threaded = n >= 100; order = k % 3 + 1; steps = rng.choice([0, 1, 1, 2, 3, 5, 8]); cfl = rng.choice([.2, .8, 1.0])
        R = [[[rng.uniform(-1, 1) for _ in range(4)] for _ in range(n)] for _ in range((steps + 1) * order)]
        D = [[10 ** rng.uniform(-1.5, .5) for _ in range(n)] for _ in range((steps + 1) * order)]
        fail = rng.random() < .15
        times = [0.0]
        for s in range(steps): times.append(times[-1] + cfl * min(D[s * order]))
        # the last step begins before the final time, not at it
        final = 0.0 if steps == 0 else times[-2] + (times[-1] - times[-2]) * rng.uniform(.05, .95)
        if fail and steps:
            s = rng.randrange(steps); D = D[:s * order] + [[rng.choice([math.nan, math.inf])] * n]
        u0 = [[rng.uniform(-1, 1) for _ in range(4)] for _ in range(n)]
        j = common(ck, sh, "rk", 4, R=R, D=D, u0=u0, cfl=cfl, cflend=cfl, order=order, final=final)
        b.add(j[0], j[1], {"order": order, "steps": steps, "fail": fail}, *j[2:])
    b.run()
    ck.assumptions += ["the order is 1, 2 or 3 and the final time is not within rounding of a step's end", "local time steps are all finite or all not"]
