"""Point-wise checks: thermodynamics (S09), numerical fluxes (S04), boundary states (S07), their linearisations (S08)."""
import json, math
import vlib

def f17(x): return "%.17g" % x
def vec(v): return ",".join(f17(x) for x in v)
def strs(v): return [f17(x) for x in v]

def pairs(ck, check=True):
    """All pairs of regimes of FluxGen.tla; the specified fluxes are checked on each of them."""
    cfg = "CONSTANTS EMIT = TRUE CHECK = %s\nSPECIFICATION Spec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % "FALSE"
    lines = ck.model("FluxGen", cfg, prefix="PAIR", workers=1, extra=["-simulate", "num=%d" % ck.pick(2500, 12000), "-depth", "6", "-seed", str(ck.seed), "-aril", "0"])
    out = sorted(set(lines))
    if check:
        # the laws on the specification itself, on a sample of the same pairs
        ck.model("FluxGen", cfg.replace("CHECK = FALSE", "CHECK = TRUE").replace("EMIT = TRUE", "EMIT = FALSE").replace("INVARIANTS Emit", "INVARIANTS Lawful"),
                 workers=1, extra=["-simulate", "num=%d" % ck.pick(400, 4000), "-depth", "6", "-seed", str(ck.seed), "-aril", "0"])
    r = [json.loads(l) for l in out]
    ck.rng.shuffle(r)
    return r

def gas(rng):
    return dict(g=rng.choice([1.4, 1.4, 5 / 3, 1.3]), M=rng.choice([0.1, 0.38, 0.5, 0.8, 1.2, 2.0]), Tinf=rng.choice([288.15, 220.0, 400.0]),
                Re=rng.choice([50.0, 500.0, 5000.0]), Pr=rng.choice([0.72, 0.9, 1.0]))

def state(G, m, t, rho, p, n, jitter=None):
    """conserved state with normal/tangential Mach numbers m, t"""
    if jitter:
        m += jitter.uniform(-.04, .04); t += jitter.uniform(-.1, .1); rho *= jitter.uniform(.9, 1.1); p *= jitter.uniform(.9, 1.1)
    c = math.sqrt(G["g"] * p / rho)
    v = (m * c * n[0] - t * c * n[1], m * c * n[1] + t * c * n[0])
    return [rho, rho * v[0], rho * v[1], p / (G["g"] - 1) + 0.5 * rho * (v[0] ** 2 + v[1] ** 2)]

def normal(rng):
    a = rng.choice([0, math.pi / 2, math.pi, -math.pi / 2] + [rng.uniform(0, 2 * math.pi) for _ in range(6)])
    return [math.cos(a), math.sin(a)]

class Bench:
    def __init__(self, ck): self.ck, self.jobs, self.meta = ck, [], {}
    def add(self, kind, G, vecs, scal=None, extra=None, extra_meta=None):
        i = len(self.jobs)
        j = {"id": i, "kind": kind}
        j.update({k: f17(v) for k, v in G.items()})
        j.update({k: vec(v) for k, v in vecs.items()})
        j.update({k: f17(v) for k, v in (scal or {}).items()})
        j.update(extra or {})
        m = {"kind": kind, "gas": {k: f17(v) for k, v in G.items()}, "key": {"kind": kind}}
        m.update({k: strs(v) for k, v in vecs.items()}); m.update({k: f17(v) for k, v in (scal or {}).items()})
        m.update(extra_meta or {})
        self.jobs.append(j); self.meta[i] = m
    def run(self, driver="vh_flux"):
        self.ck.conform("GasTrace", driver, self.jobs, self.meta)

ALL = ["LLF", "VANLEER", "AUSM", "AUSMPLUS", "ROE", "HLL", "HLLC"]
EXACT = ["LLF", "ROE", "HLL", "HLLC", "AUSM"]

def flux_cases(ck, b, names, jac, n):
    ps = pairs(ck, check=not jac)
    for k, p in enumerate(ps[:n]):
        G = gas(ck.rng) if k % 3 else dict(g=1.4, M=0.5, Tinf=288.15, Re=100.0, Pr=0.72)
        nn = [p[8] / 100, p[9] / 100]
        jit = ck.rng if (k % 2 or jac) else None
        l = state(G, p[0] / 100, p[1] / 100, p[2] / 100, p[3] / 100, nn, jit)
        r = state(G, p[4] / 100, p[5] / 100, p[6] / 100, p[7] / 100, nn, jit)
        if p[:4] == p[4:8] and ck.rng.random() < 0.7: r = l
        if k % 11 == 5: r = list(l)
        if k % 11 == 3 and jac:               # an acoustic or convective wave at rest (inside the entropy fix)
            m = ck.rng.choice([0, 0, 1, -1]) + ck.rng.choice([0, 2e-5, -3e-5, 6e-5])
            l = state(G, m, .3, 1.0, .7, nn); r = state(G, m, -.2, 1.4 if abs(m) < .5 else 1.0, .7, nn)
        if k % 11 == 7:                       # neighbouring states, as in a resolved flow
            r = [x * (1 + ck.rng.uniform(-.02, .02)) for x in l]
        b.add("flux", G, dict(l=l, r=r, n=nn), dict(ang=ck.rng.uniform(0, 6.28)), dict(names=",".join(names), jac=",".join(names) if jac else ""))

def check_S04(ck):
    ck.build(["vh_flux"], ["ens_gasdynamics"])
    b = Bench(ck)
    flux_cases(ck, b, ALL, False, ck.pick(1200, 9000))
    b.run()
    ck.assumptions += ["states have positive density and pressure; normals are unit vectors"]

def phys_cases(ck, b, n):
    for k in range(n):
        G = gas(ck.rng); nn = normal(ck.rng)
        u = state(G, ck.rng.choice([-2, -.7, 0, .01, .5, 1.5]) , ck.rng.choice([-1, 0, .3, 2]), ck.rng.choice([.3, 1, 2.5]), ck.rng.choice([.2, 1, 3]) / (G["g"] * G["M"] ** 2), nn, ck.rng)
        u2 = state(G, ck.rng.uniform(-2, 2), ck.rng.uniform(-1, 1), ck.rng.uniform(.3, 2), ck.rng.uniform(.3, 2) / (G["g"] * G["M"] ** 2), nn)
        mode = k % 3
        du = [a - c for a, c in zip(u2, u)] if mode == 0 else [x * ck.rng.uniform(-.01, .01) for x in u] if mode == 1 else [0, u2[1], u2[2], 0]
        gx = [ck.rng.uniform(-1, 1) for _ in range(4)]; gy = [ck.rng.uniform(-1, 1) for _ in range(4)]
        b.add("phys", G, dict(u=u, n=nn, du=du, gx=gx, gy=gy), dict(aoa=ck.rng.uniform(-.5, .5)))
        l = state(G, .4, .2, 1, .9 / (G["g"] * G["M"] ** 2), nn, ck.rng); r = state(G, -.3, .6, .8, 1 / (G["g"] * G["M"] ** 2), nn, ck.rng)
        b.add("visc", G, dict(l=l, r=r, n=nn, gl=[ck.rng.uniform(-1, 1) for _ in range(8)], gr=[ck.rng.uniform(-1, 1) for _ in range(8)]))

def check_S09(ck):
    ck.build(["vh_flux"], ["ens_gasdynamics"])
    b = Bench(ck); phys_cases(ck, b, ck.pick(250, 4000)); b.run()
    ck.assumptions += ["states have positive density and pressure"]

# slipwall farfield inflowoutflow subsonic_inflow extrapolation isothermalwall adiabaticwall, by enum value
def bc_cases(ck, b, n):
    T = [0, 1, 2, 3, 4, 6, 7]
    for k in range(n):
        G = gas(ck.rng); nn = normal(ck.rng); pinf = 1 / (G["g"] * G["M"] ** 2)
        m = ck.rng.choice([-2.1, -.8, -.1, .02, .4, .95, 1.05, 1.7])
        u = state(G, m, ck.rng.choice([-.6, 0, .2, 1.1]), ck.rng.choice([.5, 1, 1.8]), pinf * ck.rng.choice([.5, 1, 1.6]), nn, ck.rng)
        types = T[:]; ck.rng.shuffle(types)
        types = types[:ck.rng.randint(2, 7)]
        if not -0.9 < m < -0.05: types = [t for t in types if t != 3]
        # several boundaries of one type, with their own values
        if ck.rng.random() < .5: types.append(ck.rng.choice([6, 7]))
        tags = ck.rng.sample(range(1, 40), len(types))
        vals = []
        for t in types:
            if t == 3: vals += [pinf * ck.rng.uniform(1.05, 1.6), ck.rng.uniform(1.0, 1.3)]
            elif t == 6: vals += [ck.rng.choice([0, 0, .3, -1.2]), ck.rng.uniform(.8, 1.4)]
            else: vals += [ck.rng.choice([0, .4, -1.5]), ck.rng.uniform(-1, 1)]
        b.add("bc", G, dict(u=u, n=nn, vals=vals), dict(aoa=ck.rng.uniform(-.4, .4)),
              dict(types=",".join(map(str, types)), tags=",".join(map(str, tags))), dict(types=types, tags=tags))

def check_S07(ck):
    ck.build(["vh_flux"], ["ens_gasdynamics"])
    b = Bench(ck); bc_cases(ck, b, ck.pick(500, 6000)); b.run()
    ck.assumptions += ["unit normals; subsonic inflow is exercised with subsonic interior states moving into the domain"]

def point_S08(ck):
    b = Bench(ck)
    flux_cases(ck, b, EXACT, True, ck.pick(500, 4000))
    bc_cases(ck, b, ck.pick(150, 2000))
    b.run()
