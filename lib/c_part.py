"""Checks of distribution and communication (P01-P04)."""
import os, itertools
import meshgen as mg

def surjections(n, k):
    return [a for a in itertools.product(range(k), repeat=n) if len(set(a)) == k]

class Bench:
    def __init__(self, ck): self.ck, self.n = ck, 0; self.jobs = {}; self.meta = {}
    def add(self, mesh, nr, own, ops="", part="given", **kw):
        i = self.n; self.n += 1
        fn = os.path.join(self.ck.work, "p%d.msh" % i)
        mg.write_gmsh(mesh, fn)
        j = {"id": i, "file": fn, "part": part, "ops": ops or "none", "seed": self.ck.rng.randrange(10**6)}
        if part == "given": j["own"] = ",".join(map(str, own))
        j.update(kw)
        self.jobs.setdefault(nr, []).append(j)
        self.meta[i] = {"mesh": mg.public(mesh), "own": list(own) if part == "given" else [], "part": part, "nranks": nr,
                        "key": {"cells": len(mesh["cells"]), "nr": nr, "own": list(own), "part": part}}
    def run(self, spec="PartTrace", driver="vh_part", **kw):
        for nr in sorted(self.jobs):
            self.ck.conform(spec, driver, self.jobs[nr], self.meta, ranks=nr, assemble=zip_ranks, **kw)

def zip_ranks(i, evs):
    """Per-rank event lists -> collective events."""
    n = max(len(e) for e in evs); out = []
    for k in range(n):
        obs = [e[k] if k < len(e) else {"event": "Missing"} for e in evs]
        names = {o.get("event") for o in obs}
        out.append({"event": names.pop() if len(names) == 1 else "Disagree:" + "/".join(sorted(map(str, names))), "r": obs})
    return {"ev": out}

def compact(rng, m, k):
    """A random assignment that grows connected parts (and so has realistic interfaces)."""
    n = len(m["cells"]); _, cnt = mg.boundary(m["cells"])
    adj = {i: set() for i in range(n)}
    for v in cnt.values():
        if len(v) == 2: adj[v[0][0]].add(v[1][0]); adj[v[1][0]].add(v[0][0])
    own = [-1] * n
    for r, s in enumerate(rng.sample(range(n), k)): own[s] = r
    while -1 in own:
        c = [i for i in range(n) if own[i] == -1 and any(own[j] >= 0 for j in adj[i])]
        i = rng.choice(c); own[i] = own[rng.choice([j for j in adj[i] if own[j] >= 0])]
    return own

def cases(ck, b, ops="", contiguous=False, scale=1.0, kw=lambda: {}):
    s22 = mg.gen_shapes(ck, 2, 2); s32 = mg.gen_shapes(ck, 3, 2)
    sim = mg.gen_shapes(ck, 4, 4, mincells=7, simulate=ck.pick(40, 300))
    ck.rng.shuffle(s22); ck.rng.shuffle(s32); ck.rng.shuffle(sim)
    fans = [s for s in mg.gen_fans(ck, ck.pick(30, 200)) if len(s[2]) >= 6]; large = mg.gen_large(ck, ck.pick(2, 6)); lnr = ck.rng.choice([2, 3, 4])
    def owns(m, nr):
        n = len(m["cells"])
        if contiguous:
            c = sorted(ck.rng.sample(range(1, n), nr - 1)); return [sum(1 for x in c if x <= i) for i in range(n)]
        return compact(ck.rng, m, nr) if ck.rng.random() < 0.5 else list(ck.rng.choice(surjections(n, nr)) if n <= 6 else rand_own(ck.rng, n, nr))
    for nr in ck.pick((6,), (5, 6, 8)):       # more processes than a cell has neighbours
        for s in [s for s in sim if len(s[2]) >= nr][:ck.pick(10, 40)]:
            m = mg.dress(ck.rng, s); b.add(m, nr, owns(m, nr), ops, **kw())
    for nr in (2, 3, 4):
        for s in fans[nr::3][:ck.pick(6, 60)] + large[:ck.pick(int(nr == lnr and not ops.startswith("xchg")), 6)]:
            m = mg.dress(ck.rng, s); b.add(m, nr, owns(m, nr), ops, **kw())
        # small meshes: every assignment
        pool = [s for s in s22 + s32 if len(s[2]) >= nr]
        small = [s for s in pool if len(s[2]) <= 4][:int(ck.pick(6, 40) * scale)]
        if nr == 2 or ck.thorough:
            for s in small:
                m = mg.dress(ck.rng, s)
                al = surjections(len(s[2]), nr)
                if contiguous: al = [a for a in al if list(a) == sorted(a)]
                for a in al: b.add(m, nr, a, ops, **kw())
        for s in pool[:int(ck.pick({2: 150, 3: 110, 4: 70}[nr], 1200) * scale)]:
            m = mg.dress(ck.rng, s); b.add(m, nr, owns(m, nr), ops, **kw())
        for s in sim[:int(ck.pick(40, 300) * scale)]:
            if len(s[2]) < nr: continue
            m = mg.dress(ck.rng, s); b.add(m, nr, owns(m, nr), ops, **kw())

def rand_own(rng, n, nr):
    while True:
        a = [rng.randrange(nr) for _ in range(n)]
        if len(set(a)) == nr: return a

def check_P01(ck):
    ck.build(["vh_part"])
    b = Bench(ck); cases(ck, b)
    lib_partitions(ck, b)
    b.run()
    ck.assumptions += ["every process owns at least one cell; boundary edges carry at most two markers (asserted by the code)"]

def lib_partitions(ck, b):
    big = mg.gen_shapes(ck, 5, 4, mincells=14, simulate=ck.pick(40, 200))
    for s in big:
        m = mg.dress(ck.rng, s); nr = ck.rng.choice([2, 3, 4])
        b.add(m, nr, [], part="trivial")
        if len(s[2]) >= 4 * nr: b.add(m, nr, [], part="scotch")

def check_P02(ck):
    ck.build(["vh_part"])
    b = Bench(ck); cases(ck, b)
    lib_partitions(ck, b)
    b.run()
    ck.assumptions += ["every process owns at least one cell"]

def check_P03(ck):
    for g, np, rounds in [(1, 2, 4), (2, 3, 2), (3, 3, 2)] + ck.pick([], [(3, 3, 3), (4, 4, 1)]):
        ck.model("Halo", "CONSTANTS NP = %d ROUNDS = %d G = %d\nSPECIFICATION Spec\nINVARIANTS Delivered MapRight NeverAhead\nPROPERTY Terminates\n" % (np, rounds, g), timeout=800)
    ck.build(["vh_part"])
    b = Bench(ck)
    def kw():
        r = ck.rng.random()
        return {"rounds": ck.rng.randint(2, 6), "two": int(ck.rng.random() < 0.3), "delay": ck.rng.choice([0, 50, 300]), "lazy": ck.rng.choice([0, 300, 1500]),
                "slow": ck.rng.randrange(4) if r < 0.6 else -1, "lag": ck.rng.choice([500, 3000]), "adv": int(ck.rng.random() < 0.9)}
    for ops in ("xchg1", "xchg4"): cases(ck, b, ops=ops, scale=0.5, kw=kw)
    b.run()
    ck.assumptions += ["an exchange in flight is finished before the same vector starts the next one; the near side is not written between the two halves of an exchange"]

def check_P04(ck):
    ck.build(["vh_part"])
    b = Bench(ck); cases(ck, b, ops="ghost1,ghost4,ghost1", contiguous=True, scale=0.6)
    b.run()
    ck.assumptions += ["cells are distributed in contiguous ascending ranges, as the solver's (trivial) partitioner does; other assignments would need a global renumbering that the code does not have"]
