"""Dresses the meshes enumerated by MeshGen.tla with coordinates, numberings, boundary listings and tags."""
import json, math, os

def gen_shapes(ck, W, H, mincells=1, maxcells=99, simulate=None, holes=99, inv="AlwaysConforming EdgeCount "):
    """All valid meshes of the arrangement (or `simulate` random ones), as lists of cells over grid vertex numbers."""
    memo = ck.__dict__.setdefault("_shapes", {}); key = (W, H, mincells, maxcells, simulate, holes)
    if key in memo: return list(memo[key])
    cfg = ("CONSTANTS W = %d H = %d MINCELLS = %d MAXCELLS = %d HOLES = %d EMIT = TRUE\nSPECIFICATION Spec\n"
           "INVARIANTS %sEmit\nCHECK_DEADLOCK FALSE\n" % (W, H, mincells, maxcells, holes, inv))
    extra = []
    if simulate: extra = ["-simulate", "num=%d" % simulate, "-depth", str(W * H + 1), "-seed", str(ck.seed), "-aril", "0"]
    lines = ck.model("MeshGen", cfg, prefix="MESH", workers=1 if simulate else None, extra=extra)
    seen, out = set(), []
    for l in lines:
        if l in seen: continue
        seen.add(l); out.append(json.loads(l))
    out.sort(key=lambda c: json.dumps(c))
    memo[key] = [(W, H, c) for c in out]
    return list(memo[key])

def gen_fans(ck, num):
    """Meshes around one point, with up to 14 cells meeting there."""
    memo = ck.__dict__.setdefault("_shapes", {})
    if ("fan", num) in memo: return list(memo["fan", num])
    cfg = "CONSTANTS MINN = %d MAXN = %d EMIT = %s\nSPECIFICATION Spec\nINVARIANTS Valid Valence Emit\nCHECK_DEADLOCK FALSE\n"
    ck.model("FanGen", cfg % (3, 5, "FALSE"))
    ls = sorted(set(ck.model("FanGen", cfg % (3, 14, "TRUE"), prefix="FAN", workers=1, extra=["-simulate", "num=%d" % num, "-depth", "15", "-seed", str(ck.seed), "-aril", "0"])))
    by = {}
    for d in map(json.loads, ls): by.setdefault((d["n"], d["closed"]), []).append(d)
    out = []
    while len(out) < num and any(by.values()):       # evenly over the numbers of cells at the point
        for k in sorted(by):
            if by[k]: d = by[k].pop(ck.rng.randrange(len(by[k]))); out.append(("fan", d, d["cells"]))
    ck.rng.shuffle(out); memo["fan", num] = out[:num]
    return out[:num]

def gen_large(ck, num):
    """Meshes of 100 to 200 cells."""
    out = gen_shapes(ck, 11, 8, mincells=100, maxcells=200, simulate=max(1, num // 3), holes=2, inv="")
    ck.rng.shuffle(out)
    return out[:num]

def fan_coords(rng, d):
    n = d["n"]; full = 2 * math.pi if d["closed"] else rng.uniform(.5, 1.7) * math.pi
    a0 = rng.uniform(0, 2 * math.pi); ang = [a0 + full * (k + (rng.uniform(-.15, .15) if 0 < k < n else 0)) / n for k in range(n + 1)]
    at = lambda r, a: [round(r * math.cos(a)), round(r * math.sin(a))]
    p = {0: [0, 0]}
    for k in range(n + 1):
        p[3*k+1] = at(rng.uniform(95, 105), ang[k]); p[3*k+2] = at(rng.uniform(160, 190), ang[k])
        if k < n: p[3*k+3] = at(rng.uniform(120, 135), (ang[k] + ang[k+1]) / 2)
    return p

def boundary(cells):
    cnt = {}
    for i, c in enumerate(cells):
        for k in range(len(c)):
            a, b = c[k], c[(k + 1) % len(c)]
            cnt.setdefault(frozenset((a, b)), []).append((i, a, b))
    return [v[0] for v in cnt.values() if len(v) == 1], cnt

def area2(pts, cells):
    """Twice the domain area from the boundary loop only."""
    b, _ = boundary(cells)
    return sum(pts[a][0] * pts[c][1] - pts[c][0] * pts[a][1] for _, a, c in b)

def convex(pts, c):
    n = len(c)
    for k in range(n):
        a, b, d = pts[c[k]], pts[c[(k + 1) % n]], pts[c[(k + 2) % n]]
        if (b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0]) <= 0: return False
    return True

def coords(rng, W, H, mode):
    """Integer coordinates of the (W+1) x (H+1) grid vertices."""
    if W == "fan": return fan_coords(rng, H)
    if mode == "aniso":
        dx = [rng.choice([30, 40, 48]) for _ in range(W)]; dy = [rng.choice([4, 6, 9, 14, 25]) for _ in range(H)]; jx, jy = 2, 1
    elif mode == "stretch":
        dx = [rng.randint(6, 24) for _ in range(W)]; dy = [rng.randint(6, 24) for _ in range(H)]; jx = jy = 1
    elif mode == "regular":
        dx = [10] * W; dy = [10] * H; jx = jy = 0
    else:
        dx = [10] * W; dy = [10] * H; jx = jy = 2
    xs = [0]; ys = [0]
    for d in dx: xs.append(xs[-1] + d)
    for d in dy: ys.append(ys[-1] + d)
    p = {}
    for j in range(H + 1):
        for i in range(W + 1):
            p[j * (W + 1) + i] = [xs[i] + rng.randint(-jx, jx), ys[j] + rng.randint(-jy, jy)]
    if mode in ("affine", "jitter") and rng.random() < 0.7:
        while True:
            a, b, c, d = [rng.randint(-2, 2) for _ in range(4)]
            if a * d - b * c > 0: break
        p = {k: [a * v[0] + b * v[1], c * v[0] + d * v[1]] for k, v in p.items()}
    ox, oy = rng.randint(-20, 20), rng.randint(-20, 20)
    return {k: [v[0] + ox, v[1] + oy] for k, v in p.items()}

def dress(rng, shape, mode=None, nbt=None, ndt=None, cellperm=None, shuffle=True, markers=None, pts=None, rot=None):
    """-> dict(pts, cells, bf, reg, area2): an abstract mesh in file numbering (0-based)."""
    W, H, cells = shape
    mode = mode or rng.choice(["jitter", "affine", "stretch", "regular"])
    while True:
        P = pts or coords(rng, W, H, mode)
        if all(convex(P, c) for c in cells): break
        if pts: raise ValueError("given points make a cell concave")
    used = sorted({v for c in cells for v in c})
    order = list(range(len(cells)))
    if shuffle:
        rng.shuffle(used); rng.shuffle(order)
    if cellperm is not None: order = list(cellperm)
    num = {v: i for i, v in enumerate(used)}
    cs = []
    for o in order:
        c = [num[v] for v in cells[o]]
        k = rng.randrange(len(c)) if shuffle else 0
        cs.append(c[k:] + c[:k])
    pl = [P[v] for v in used]
    b, _ = boundary(cs)
    b = list(b)
    nbt = nbt if nbt is not None else rng.choice([1, 2, 2])
    ndt = ndt if ndt is not None else rng.choice([1, 2, 3])
    if shuffle: rng.shuffle(b)
    bf = []
    for (_, x, y) in b:
        if shuffle and rng.random() < 0.5: x, y = y, x
        t = markers(pl[x], pl[y]) if markers else rng.randint(1, 6)
        bf.append([x, y] + [t] + [rng.randint(1, 9) for _ in range(nbt - 1)])
    reg = [[rng.randint(1, 9) for _ in range(ndt)] for _ in cs]
    return {"pts": pl, "cells": cs, "bf": bf, "reg": reg, "area2": area2(pl, cs), "_order": order, "_used": used, "_num": num}

def dent(rng, m):
    """A free corner of one quadrilateral (no other cell has it) moves inside, which makes the cell concave."""
    uses = {}
    for i, c in enumerate(m["cells"]):
        for v in c: uses.setdefault(v, []).append(i)
    free = [(i, v) for v, u in uses.items() for i in u if len(u) == 1 and len(m["cells"][i]) == 4]
    rng.shuffle(free)
    for i, v in free:
        c = m["cells"][i]; k = c.index(v); q = [m["pts"][w] for w in c[k+1:] + c[:k]]   # next, opposite, previous
        for w in ((5, 10, 5), (7, 5, 8), (4, 12, 4)):
            t = [round(sum(a * b[d] for a, b in zip(w, q)) / 20) for d in (0, 1)]
            tri = lambda a, b, e: (b[0]-a[0]) * (e[1]-a[1]) - (b[1]-a[1]) * (e[0]-a[0])
            if all(tri(a, b, t) > 0 for a, b in ((q[0], q[1]), (q[1], q[2]), (q[2], q[0]))):
                pts = list(m["pts"]); pts[v] = t
                return dict(m, pts=pts, area2=area2(pts, m["cells"]))
    return m

def fmt_for(m):
    """File coordinates are the integer ones times the mesh's scale."""
    s = m.get("_scale", 1)
    return (lambda x: repr(x * s)) if s != 1 else (lambda x: "%d" % x)

def ragged(rng, m):
    """Gives edges and cells different numbers of tags."""
    for b in m["bf"]: b[2:] = [b[2]] + [rng.randint(1, 9) for _ in range(rng.randrange(3))]
    m["reg"] = [[rng.randint(1, 9) for _ in range(rng.randint(1, 3))] for _ in m["reg"]]
    return m

def write_gmsh(m, fn, scale=None):
    fmt = fmt_for(m if scale is None else {"_scale": scale})
    with open(fn, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n" % len(m["pts"]))
        for i, p in enumerate(m["pts"]): f.write("%d %s %s 0\n" % (i + 1, fmt(p[0]), fmt(p[1])))
        f.write("$EndNodes\n$Elements\n%d\n" % (len(m["bf"]) + len(m["cells"])))
        k = 0
        for b in m["bf"]:
            k += 1; t = b[2:]
            f.write("%d 1 %d %s %d %d\n" % (k, len(t), " ".join(map(str, t)), b[0] + 1, b[1] + 1))
        for c, r in zip(m["cells"], m["reg"]):
            k += 1
            f.write("%d %d %d %s %s\n" % (k, {3: 2, 4: 3}[len(c)], len(r), " ".join(map(str, r)), " ".join(str(v + 1) for v in c)))
        f.write("$EndElements\n")

def write_su2(m, fn, empty=()):
    """Writes SU2; returns the abstract mesh as this format orders it (edges grouped by marker, no regions)."""
    marks = []; fmt = fmt_for(m)
    for b in m["bf"]:
        if b[2] not in marks: marks.append(b[2])
    bf = []
    with open(fn, "w") as f:
        f.write("NDIME= 2\nNELEM= %d\n" % len(m["cells"]))
        for i, c in enumerate(m["cells"]): f.write("%d %s %d\n" % ({3: 5, 4: 9}[len(c)], " ".join(map(str, c)), i))
        f.write("NPOIN= %d\n" % len(m["pts"]))
        for i, p in enumerate(m["pts"]): f.write("%s %s %d\n" % (fmt(p[0]), fmt(p[1]), i))
        for k, t in empty: marks.insert(min(k, len(marks)), t)
        f.write("NMARK= %d\n" % len(marks))
        for t in marks:
            es = [b for b in m["bf"] if b[2] == t]
            f.write("MARKER_TAG= %d\nMARKER_ELEMS= %d\n" % (t, len(es)))
            for b in es:
                f.write("3 %d %d\n" % (b[0], b[1])); bf.append([b[0], b[1], t])
    r = dict(m); r["bf"] = bf; r["reg"] = [[] for _ in m["cells"]]
    return r

def public(m): return {k: v for k, v in m.items() if not k.startswith("_")}
