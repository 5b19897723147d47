"""Checks of reported quantities and written files (W properties)."""
import glob, os, re, xml.etree.ElementTree as ET
import meshgen as mg
import vlib
from c_part import zip_ranks
from c_spatial import Bench, flow_case, diff_case, numerics, shapes_for, contiguous

def table(fn):
    """Rows of numbers and comment lines of a text file."""
    rows, notes = [], []
    for l in open(fn):
        l = l.strip()
        if l.startswith("#"): notes.append(l[1:].split())
        elif l: rows.append(l.split())
    return rows, notes

def grid(fn):
    p = ET.parse(fn).getroot().find("UnstructuredGrid").find("Piece")
    arr = lambda e: (e.text or "").split()
    def rows(e):
        v, k = arr(e), int(e.get("NumberOfComponents", "1")); return [v[i:i + k] for i in range(0, len(v), k)]
    cells = {a.get("Name"): [int(x) for x in arr(a)] for a in p.find("Cells")}
    data = [(w, p.find(w)) for w in ("PointData", "CellData") if p.find(w) is not None]
    return {"np": int(p.get("NumberOfPoints")), "nc": int(p.get("NumberOfCells")), "points": rows(p.find("Points")[0]), "conn": cells["connectivity"],
            "offsets": cells["offsets"], "types": cells["types"], "where": "+".join(w for w, _ in data), "arrays": [[a.get("Name"), rows(a)] for _, d in data for a in d]}

def surfaces(base, kind):
    out = []
    for fn in sorted(glob.glob(base + "-surf_%s*.out" % kind)):
        rows, notes = table(fn); tag = int(re.search(r"_%s(-?\d+)\.out$" % kind, fn).group(1))
        out.append([tag, rows] + ([notes[-1]] if kind == "w" else []))
    return out

def files(e):
    b = e["out"]; e = dict(e)
    try:
        e.update(vol=table(b + "-vol.out")[0], walls=surfaces(b, "w"), others=surfaces(b, "o"), pvtu=grid(b + "-p.vtu"), cvtu=grid(b + "-c.vtu"), mvtu=grid(b + "-m.vtu"))
    except (OSError, ET.ParseError, ValueError, KeyError, AttributeError, IndexError) as x:
        return {"event": "Unreadable", "what": str(x)}
    for f in glob.glob(b + "-*"): os.remove(f)
    return e

class OutBench(Bench):
    def run(self, **kw):
        def one(i, ev): return {"ev": [{"event": f["event"], "r": [f]} for f in (files(e) if e["event"] == "Files" else e for e in ev)]}
        for nr in sorted(self.jobs):
            self.ck.conform("SpatialTrace", "vh_flow", self.jobs[nr], self.meta, ranks=nr, assemble=zip_ranks if nr > 1 else one, threads=3, **kw)

def markers(ck, b):
    """Selects boundary markers for output in the case just added."""
    i = b.n - 1; m = b.meta[i]; nr = max(m["own"]) + 1 if m["own"] else 1
    used = sorted({x[2] for x in m["mesh"]["bf"]}); ck.rng.shuffle(used)
    k = ck.rng.randint(1, len(used)); w = used[:k]; o = used[k:] + (used[:1] if ck.rng.random() < .3 else [])
    j = b.jobs[nr][-1]; j["walls"] = ",".join(map(str, w)); j["others"] = ",".join(map(str, o)); j["out"] = os.path.join(ck.work, "o%d" % i)
    m["walls"], m["others"] = w, o

def check_W01(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck); b = OutBench(ck)
    for k, s in enumerate(small[:ck.pick(110, 1200)] + big[:ck.pick(30, 400)]):
        if k % 6 == 5: diff_case(ck, b, s, ops=ck.rng.choice(["p0", "p0,p1"])); continue
        flow_case(ck, b, s, ops=ck.rng.choice(["o0", "o0", "p0,c0", "o1,o0"]), ns=2, num=numerics(ck.rng)); markers(ck, b)
    b.run()
    ck.assumptions += ["states are admissible; runs on one process (files are only written there)"]

def check_W02(ck):
    ck.build(["vh_flow"], ["ens_gasdynamics"])
    small, big = shapes_for(ck); b = OutBench(ck)
    for k, s in enumerate(small[:ck.pick(80, 1200)] + big[:ck.pick(25, 400)]):
        n = len(s[2]); nr = 1 if n < 2 or k % 3 == 0 else ck.rng.randint(2, min(4, n))
        flow_case(ck, b, s, own=contiguous(ck.rng, n, nr) if nr > 1 else None, ops=ck.rng.choice(["s0,e0", "s0,s1", "e1,s1"]), ns=2, num=numerics(ck.rng, visc=bool(k % 4))); markers(ck, b)
    b.run()
    ck.assumptions += ["states are admissible; every process owns at least one cell"]
