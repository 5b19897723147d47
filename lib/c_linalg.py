"""Checks of the linear algebra (L properties)."""
import os, json
import vlib
import meshgen as mg
from c_point import f17, strs, vec
from c_part import zip_ranks
from c_spatial import Bench, flow_case, diff_case, numerics, shapes_for, contiguous, JFLUX

def parts(ck, n): 
    nr = 1 if n < 2 or ck.rng.random() < .3 else ck.rng.randint(2, min(4, n))
    return contiguous(ck.rng, n, nr) if nr > 1 else [0] * n

def check_L02(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck); b = Bench(ck)
    for k, s in enumerate(small[:ck.pick(170, 1800)] + big[:ck.pick(40, 400)]):
        own = parts(ck, len(s[2])); t = ck.rng.choice(["a0", "a0aij", "a0baij", "a0"])
        if k % 3 == 2: diff_case(ck, b, s, own=own, ops=t)
        else: flow_case(ck, b, s, own=own, ops=t, num=numerics(ck.rng, order2=False, jflux=JFLUX[k % 5]), smooth=False)
    b.run()
    ck.assumptions += ["every process owns at least one cell, contiguous in the global numbering"]

def check_L03(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck); b = Bench(ck); rng = ck.rng
    for k, s in enumerate(small[:ck.pick(90, 1000)] + big[:ck.pick(25, 300)]):
        n = len(s[2]); own = parts(ck, n); nv = 1 if k % 4 == 3 else 4
        a = 10 ** rng.uniform(-3, 2)
        x = [[rng.uniform(-1, 1) * a for _ in range(nv)] for _ in range(n)]
        if rng.random() < .3: i = rng.randrange(n); x = [[v if j == i else 0.0 for v in c] for j, c in enumerate(x)]
        t = [10 ** rng.uniform(-2, 2) for _ in range(n)]
        ex, mt = {"x": vec([v for c in x for v in c]), "t": vec(t)}, {"x": [strs(c) for c in x], "t": strs(t)}
        ops = rng.choice(["m0", "m0", "m02", "r0,m0"])
        if ops == "r0,m0": ops = "m0"
        if nv == 1: diff_case(ck, b, s, own=own, ops=ops, extra=ex, meta=mt)
        else: flow_case(ck, b, s, own=own, ops=ops, num=numerics(rng), extra=ex, xmeta=mt)
    b.run()
    ck.assumptions += ["the vector is not zero; states are admissible", "agreement to the accuracy of a one-sided difference"]

def check_L01(ck):
    cfg = "CONSTANTS NP = %d SLOTS = %d DEPTH = %d EMIT = %s\nSPECIFICATION Spec\nINVARIANTS Balanced Emit\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n"
    ck.model("Handles", cfg % (2, 2, ck.pick(3, 4), "FALSE"))
    ck.build(["vh_vec"])
    jobs, meta = {}, {}; n = 0
    for np in (1, 2, 3):
        ops = ck.model("Handles", cfg % (np, 3, 2, "TRUE"), prefix="OPS")
        for d in (8, 16): ops += ck.model("Handles", cfg % (np, 3, d, "TRUE"), prefix="OPS", workers=1, extra=["-simulate", "num=%d" % ck.pick(100, 2000), "-depth", str(d + 1), "-seed", str(ck.seed), "-aril", "0"])
        ops = sorted(set(ops)); ck.rng.shuffle(ops)
        for h in map(json.loads, ops[:ck.pick(500, 6000)]):
            # nothing is left open, and both vectors are used again
            live = {}
            for o in h:
                if o["op"] in ("new", "newv"): live[o["s"]] = o["kind"]
                if o["op"] == "del": live.pop(o["s"])
            h = h + [{"op": x, "s": s, "kind": k, "v": 0, "i": 0, "x": 0} for s, k in live.items() for x in ("read", "del")] + [{"op": x, "s": 0, "kind": "", "v": v, "i": 0, "x": 0} for x in ("norm", "update", "norm") for v in (1, 2)]
            jobs.setdefault(np, []).append({"id": n, "ops": ",".join(":".join(str(o[f]) for f in ("op", "s", "kind", "v", "i", "x")) for o in h)})
            meta[n] = {"np": np, "ops": h, "key": {"np": np}}; n += 1
    one = lambda i, ev: {"ev": [{"event": e["event"], "r": [e]} for e in ev]}
    for np in jobs: ck.conform("HandleTrace", "vh_vec", jobs[np], meta, ranks=np, assemble=zip_ranks if np > 1 else one)

def check_L04(ck):
    cfg = "CONSTANTS SLOTS = %d DEPTH = %d EMIT = %s\nSPECIFICATION Spec\nINVARIANTS Shapes Emit\nPROPERTY Separate\nCHECK_DEADLOCK FALSE\n"
    ck.model("Arrays", cfg % (2, ck.pick(3, 4), "FALSE"))
    ck.build(["vh_arr", "vh_arrn"])
    jobs, meta = {"vh_arr": [], "vh_arrn": []}, {}
    hs = set(ck.model("Arrays", cfg % (3, 2, "TRUE"), prefix="OPS"))
    for d in (8, 20): hs |= set(ck.model("Arrays", cfg % (3, d, "TRUE"), prefix="OPS", workers=1, extra=["-simulate", "num=%d" % ck.pick(120, 3000), "-depth", str(d + 1), "-seed", str(ck.seed), "-aril", "0"]))
    hs = sorted(hs); ck.rng.shuffle(hs); hs = hs[:ck.pick(6000, 60000)]
    F = ("op", "k", "l", "i", "j", "x", "r", "c")
    for n, h in enumerate(map(json.loads, hs)):
        t = ("int", "real")[n % 2]
        d = "vh_arr" if n % 4 < 2 else "vh_arrn"      # with and without debugging aids
        jobs[d].append({"id": n, "type": t, "ops": ",".join(":".join(str(o[f]) for f in F) for o in h)})
        meta[n] = {"ops": h, "key": {"type": t, "driver": d}}
    for d in jobs: ck.conform("ArrayTrace", d, jobs[d], meta)
    ck.assumptions += ["arrays of up to 3 x 3 entries; entries are integers; the element type is the code's integer or real type"]
