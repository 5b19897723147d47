"""Checks of the mesh properties (M01-M04, R01-R03)."""
import os, json, itertools
import meshgen as mg

SCALES = [1, 1, 0.0123456789, 1e-3, 7.7, 1e4 / 3]

class Bench:
    """Collects jobs for the mesh driver."""
    def __init__(self, ck): self.ck, self.jobs, self.meta = ck, [], {}
    def add(self, mesh, ops, su2=False, key=None, empty=(), **kw):
        i = len(self.jobs)
        fn = os.path.join(self.ck.work, "m%d.%s" % (i, "su2" if su2 else "msh"))
        if su2: mesh = mg.write_su2(mesh, fn, empty)
        else: mg.write_gmsh(mesh, fn)
        j = {"id": i, "file": fn, "ops": ops}
        if mesh.get("_scale", 1) != 1: j["scale"] = "%.17g" % mesh["_scale"]
        extra = {}
        for k, v in kw.items():
            if k in ("thrnum", "thrden"): extra[k] = v
            else: j[k] = v
        self.jobs.append(j)
        self.meta[i] = {"mesh": mg.public(mesh), "key": key or {}, **extra}
        return i
    def run(self): return self.ck.conform("MeshTrace", "vh_mesh", self.jobs, self.meta, threads=3)

def shapes(ck, nbig=40, full=True):
    """Every 2x2 mesh, a seeded sample of the exhaustively enumerated 3x2 ones and random 4x4 ones."""
    s22 = mg.gen_shapes(ck, 2, 2)
    s32 = mg.gen_shapes(ck, 3, 2)
    sim = mg.gen_shapes(ck, 4, 4, mincells=6, simulate=ck.pick(nbig, nbig * 8))
    ck.rng.shuffle(s32); ck.rng.shuffle(s22)
    # many cells around a point, and larger meshes: first, so that every selection has some
    sim = mg.gen_fans(ck, ck.pick(12, 100)) + mg.gen_large(ck, ck.pick(2, 8)) + sim
    return s22, s32, sim

def check_M01(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck)
    b = Bench(ck)
    for s in s22 + s32[:ck.pick(250, len(s32))] + sim[:ck.pick(40, 400)]:
        b.add(mg.dress(ck.rng, s), "orient,topo")
    for s in s22[:ck.pick(60, 200)] + sim[:10]:
        b.add(mg.dress(ck.rng, s), "orient,topo,restrict,topo")
    b.run()
    ck.assumptions += ["meshes are conforming, connected and pinch-free; cells are listed anticlockwise; boundary edges precede cells in the file"]

def check_M02(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck)
    b = Bench(ck)
    for s in s22 + s32[:ck.pick(200, len(s32))] + sim[:ck.pick(30, 300)]:
        m = mg.dress(ck.rng, s, mode=ck.rng.choice(["jitter", "affine", "stretch", "aniso"])); m["_scale"] = ck.rng.choice(SCALES)
        b.add(m, "orient,topo,geom")
    for s in s22[:ck.pick(100, 400)] + s32[200:ck.pick(280, 600)]:      # concave quadrilaterals
        m = mg.dress(ck.rng, s, mode=ck.rng.choice(["stretch", "jitter"])); d = mg.dent(ck.rng, m)
        if d is not m: b.add(d, "orient,topo,geom", key={"dent": True})
    for s in s32[-ck.pick(40, 200):]:      # the pre-processing of the solver, which may renumber
        if len(s[2]) > 1: b.add(mg.dress(ck.rng, s, mode="jitter"), "orient,topo,restrict,order", ordering=ck.rng.choice(["rcm", "nd", "line", "line_rcm"]), thr="1.8")
    b.run()
    ck.assumptions += ["integer vertex coordinates up to a few hundred units, so that the specification's geometry is exact"]

def check_M03(ck):
    ck.build(["vh_mesh"])
    b = Bench(ck)
    full = [s for s in mg.gen_shapes(ck, 3, 2) if True]
    def sides(s, axis):
        """The shape spans the grid fully along both sides of the axis."""
        W, H, cells = s
        bd, _ = mg.boundary(cells)
        es = {frozenset((x, y)) for _, x, y in bd}
        n = H if axis == 0 else W
        for k in range(n):
            if axis == 0: lo, hi = (k*(W+1), (k+1)*(W+1)), (k*(W+1)+W, (k+1)*(W+1)+W)
            else: lo, hi = (k, k+1), (H*(W+1)+k, H*(W+1)+k+1)
            if (frozenset(lo) in es) != (frozenset(hi) in es): return False
        return any(frozenset(((k*(W+1), (k+1)*(W+1)) if axis == 0 else (k, k+1))) in es for k in range(n))
    pool = full + mg.gen_shapes(ck, 2, 4, mincells=4, simulate=400) + mg.gen_shapes(ck, 4, 2, mincells=4, simulate=300)
    ck.rng.shuffle(pool)
    n = 0
    for s in pool:
        axis = ck.rng.randrange(2)
        if not sides(s, axis): continue
        W, H, cells = s
        xs = [0]; ys = [0]
        for _ in range(W): xs.append(xs[-1] + ck.rng.randint(5, 20))
        for _ in range(H): ys.append(ys[-1] + ck.rng.randint(5, 20))
        pts = {}
        for j in range(H+1):
            for i in range(W+1):
                jx = ck.rng.randint(-1, 1) if 0 < i < W and not (axis == 1 and j in (0, H)) else 0
                jy = ck.rng.randint(-1, 1) if 0 < j < H and not (axis == 0 and i in (0, W)) else 0
                pts[j*(W+1)+i] = [xs[i]+jx, ys[j]+jy]
        if n % 3 == 0:        # a long period compared with the faces
            mul = ck.rng.choice([40, 250])
            pts = {k: [v[0]*mul, v[1]] if axis == 0 else [v[0], v[1]*mul] for k, v in pts.items()}
            if axis == 0: xs = [x*mul for x in xs]
            else: ys = [y*mul for y in ys]
        mark, lo, hi = 7, (xs[0] if axis == 0 else ys[0]), (xs[-1] if axis == 0 else ys[-1])
        def markers(p, q, axis=axis, lo=lo, hi=hi):
            if p[axis] == q[axis] and p[axis] in (lo, hi): return 7
            return ck.rng.choice([1, 2, 3, 6, 8])
        try: m = mg.dress(ck.rng, s, pts=pts, markers=markers)
        except ValueError: continue
        b.add(m, "orient,topo,periodic", pmark=7, paxis=axis)
        n += 1
        if n >= ck.pick(250, 2500): break
    b.run()
    ck.assumptions += ["the two periodic sides match face by face, as the documentation requires"]

def check_M04(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck)
    b = Bench(ck)
    for s in s22 + s32[:ck.pick(120, len(s32))] + sim[:ck.pick(20, 200)]:
        m = mg.dress(ck.rng, s); m["_scale"] = ck.rng.choice(SCALES)
        b.add(m, "write", su2=ck.rng.random() < 0.4, fine=1, empty=[(ck.rng.randrange(4), 20 + k) for k in range(ck.rng.randrange(3))])
    for s in s22[60:120] + s32[-60:]:
        b.add(mg.ragged(ck.rng, mg.dress(ck.rng, s)), "write,orient,write", fine=1)
    for s in s22[:60]:
        b.add(mg.dress(ck.rng, s), "orient,write")
        b.add(mg.dress(ck.rng, s), "orient,topo,write", su2=True)
    b.run()
    ck.assumptions += ["Gmsh files list boundary edges before cells, all of linear elements; SU2 markers are integers"]

def variants(rng, m, other):
    """(kind, mesh) pairs that differ from m in one or several ways; `other' is a mesh of another shape."""
    cp = lambda: json.loads(json.dumps(m)); out = [("same", cp())]
    def edit(kinds):
        v = cp()
        for k in kinds:
            if k == "point": i = rng.randrange(len(v["pts"])); v["pts"][i][rng.randrange(2)] += rng.choice([-1, 1])
            elif k == "rotate": i = rng.randrange(len(v["cells"])); v["cells"][i] = v["cells"][i][1:] + v["cells"][i][:1]
            elif k == "swap" and len(v["cells"]) > 1:
                i, j = rng.sample(range(len(v["cells"])), 2)
                v["cells"][i], v["cells"][j] = v["cells"][j], v["cells"][i]
            elif k == "marker": b = rng.choice(v["bf"]); b[rng.randrange(2, len(b))] += 1
            elif k == "edge": b = rng.choice(v["bf"]); b[0], b[1] = b[1], b[0]
            elif k == "bswap" and len(v["bf"]) > 1: i, j = rng.sample(range(len(v["bf"])), 2); v["bf"][i], v["bf"][j] = v["bf"][j], v["bf"][i]
            elif k == "unlisted" and len(v["bf"]) > 1: v["bf"].pop(rng.randrange(len(v["bf"])))
            elif k == "spare": v["pts"].append([99, 99])
            elif k == "dropcell" and len(v["cells"]) > 1: v["cells"].pop(); v["reg"].pop()
        return "+".join(kinds), v
    kinds = ["point", "rotate", "swap", "marker", "edge", "bswap", "unlisted", "spare", "dropcell"]
    out += [edit([k]) for k in kinds] + [edit(rng.sample(kinds, rng.choice([2, 3]))) for _ in range(3)]
    wide = cp(); [b.append(5) for b in wide["bf"]]
    return out + [("tags", wide), ("other", other)]

def check_M05(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck, nbig=20)
    b = Bench(ck)
    for s in s22[:ck.pick(25, 150)] + s32[:ck.pick(15, 200)] + sim[:ck.pick(5, 60)]:
        nbt = ck.rng.choice([1, 2]); m = mg.dress(ck.rng, s, nbt=nbt)
        for k, v in variants(ck.rng, m, mg.dress(ck.rng, ck.rng.choice(s32), nbt=nbt)):
            i = b.add(m, "compare", key={"other": k}); fn = os.path.join(ck.work, "o%d.msh" % i); mg.write_gmsh(v, fn)
            b.jobs[i]["file2"] = fn; b.meta[i]["other"] = mg.public(v)
    b.run()
    ck.assumptions += ["coordinates that differ do so by at least one unit; meshes of up to 16 cells"]

def check_R01(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck, nbig=60)
    b = Bench(ck)
    small = [s for s in s22 if 2 <= len(s[2]) <= 4]
    for s in small[:ck.pick(14, 60)]:              # every permutation of these meshes
        m = mg.dress(ck.rng, s)
        for p in itertools.permutations(range(len(s[2]))):
            b.add(m, "orient,topo,restrict,perm,topo,geom", perm=",".join(map(str, p)))
    for s in (s22 + s32)[:ck.pick(150, 1500)] + sim[:ck.pick(30, 200)]:
        m = mg.dress(ck.rng, s); p = list(range(len(s[2]))); ck.rng.shuffle(p)
        b.add(m, "orient,topo,restrict,perm,topo,geom", perm=",".join(map(str, p)))
    names = ["rcm", "nd", "1wd", "qmd", "rcm", "natural", "rowlength", "line", "line_natural", "line_rcm"]
    for s in s32[:ck.pick(60, 400)] + sim[:ck.pick(40, 300)]:
        if len(s[2]) < 2: continue
        m = mg.dress(ck.rng, s, mode=ck.rng.choice(["aniso", "jitter"]))
        b.add(m, "orient,topo,restrict,order", ordering=ck.rng.choice(names), thr="1.8")
    b.run()
    ck.assumptions += ["renumbering is applied to a mesh on one process; renumbering distributed meshes is documented as unfinished in the source"]

def check_R02(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck, nbig=120)
    b = Bench(ck)
    for s in s32[:ck.pick(120, 1500)] + sim[:ck.pick(120, 900)] + s22[:ck.pick(40, 200)]:
        if len(s[2]) < 2: continue
        m = mg.dress(ck.rng, s, mode=ck.rng.choice(["aniso", "aniso", "stretch", "regular"]))
        num, den = ck.rng.choice([(11, 10), (2, 1), (9, 4), (4, 1), (25, 4), (16, 1)])
        thr = "%.17g" % ((num / den) ** 0.5)
        fin = ck.rng.choice(["linereorder", "hybridreorder"])
        b.add(m, "orient,topo,lines,hybrid," + fin, thr=thr, thrnum=num, thrden=den, gorder=ck.rng.choice(["natural", "rcm", "nd", "1wd"]))
    b.run()

def check_R03(ck):
    ck.build(["vh_mesh"])
    s22, s32, sim = shapes(ck, nbig=120)
    b = Bench(ck)
    for s in s22 + s32[:ck.pick(200, 3000)] + sim[:ck.pick(100, 900)]:
        b.add(mg.dress(ck.rng, s), "orient,topo,levels")
    b.run()
