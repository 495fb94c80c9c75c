"""P09-P11, P14: structured and file hypergraphs (specification HyperMesh*)."""
import itertools
from vlib import *
from p_loops import make_job

CASES = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]


def build_topo(ctx, cases=CASES):
    exes = build_jobs(ctx, [("topo%d%d" % c, "topo.cpp", ["-DKD=%d" % c[0], "-DND=%d" % c[1]]) for c in cases])
    return dict(zip(cases, exes))


def mc_mesh(ctx):
    text = open(os.path.join(SPEC, "HyperMeshMC.cfg")).read()
    if not ctx.thorough:
        text = text.replace("MaxR = 3", "MaxR = 2")
    cfg = ctx.fresh("mc") + ".cfg"
    open(cfg, "w").write(text)
    model_check(ctx, "HyperMeshMC", cfg, expect_actions=["DoRefine"])


def ncells(k, n, r):
    tot = 0
    for S in itertools.combinations(range(len(n)), k):
        p = 1
        for d in range(len(n)):
            p *= n[d] if d in S else n[d] + 1
        tot += p
    return tot * r ** k


def body(rng, count, length, geo, refuse):
    """Operations after a construction.  count(r): number of hyperedges at refinement r."""
    out, r = ["query"], 1
    limit = rng.choice([LIMIT] * 9 + [3 * LIMIT])
    for _ in range(length):
        x = rng.random()
        if x < 0.5:
            cand = [q for q in (1, 2, 3, 4, 5, 6, 7, 9, 16) if q != r and count(q) <= limit]
            if not cand:
                continue
            r = rng.choice(cand)
            out.append("ref %d" % r)
            out.append(rng.choice(["query", "query", "copy"]))
        elif x < 0.65:
            out.append("copy")
        elif geo:
            for _ in range(3):
                out.append("geo %d" % rng.randrange(100000))
        elif refuse and rng.random() < 0.5:
            out.append("refuse %d" % rng.choice([0, 1, 2, 1000]))
    if geo:
        for _ in range(4):
            out.append("geo %d" % rng.randrange(100000))
    return out


LIMIT = 130


def cubic_history(rng, case, length, geo=False, refuse=False):
    k, nd = case
    while True:
        n = [rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 11]) for _ in range(nd)]
        if ncells(k, n, 1) <= LIMIT // 2:
            break
    head = "newcubic %s %d %s" % (rng.choice(["parts", "hg"]), nd, " ".join(map(str, n)))
    # a hypergraph needs two hypernodes, which every grid has
    return [head] + body(rng, lambda r: ncells(k, n, r), length, geo, refuse)


# ----------------------------------------------------------------------------- domain files
def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)))


def independent(vs):
    g = [[sum(a * b for a, b in zip(u, v)) for v in vs] for u in vs]
    return det(g) != 0


def rand_spans(rng, k, nd, big=3):
    while True:
        vs = [[rng.randint(-big, big) for _ in range(nd)] for _ in range(k)]
        if independent(vs):
            return vs


def add(p, *qs):
    for q in qs:
        p = [a + b for a, b in zip(p, q)]
    return p


def mul(a, p):
    return [a * x for x in p]


def rand_file(rng, case, many=0.):
    """A coarse hypergraph as a dictionary (what the .geo file says)."""
    k, nd = case
    many = rng.random() < many
    if k == 1:
        while True:
            nP = rng.randint(11, 40) if many else rng.randint(2, 6)
            pts = []
            while len(pts) < nP:
                p = [rng.randint(-40, 40) if many else rng.randint(-4, 4) for _ in range(nd)]
                if p not in pts:
                    pts.append(p)
            nN = nP + rng.choice([0, 0, 1, 2])
            name = list(range(nN))
            rng.shuffle(name)
            pairs = [(a, b) for a in range(nP) for b in range(nP) if a != b]
            rng.shuffle(pairs)
            pairs = pairs[:rng.randint(11, 60) if many else rng.randint(1, min(len(pairs), 7))]
            corners = [list(p) for p in pairs]
            nodes = [[name[a], name[b]] for a, b in pairs]
            break
    else:
        dims = [rng.randint(1, 2) for _ in range(k)]
        if many:
            dims[rng.randrange(k)] = rng.randint(4, 12)
        sp = rand_spans(rng, k, nd, 2)
        o = [rng.randint(-2, 2) for _ in range(nd)]
        cells = [(0, c) for c in itertools.product(*[range(x) for x in dims])]
        sheets = [sp]
        if k == 2 and nd == 3 and rng.random() < 0.6:
            for _ in range(50):
                w = [rng.randint(-2, 2) for _ in range(3)]
                if det([sp[0], sp[1], w]) != 0:
                    sheets.append([sp[0], w])
                    cells += [(1, (i, 0)) for i in range(dims[0])]
                    break
        pts, pid, keys = [], {}, {}
        corners, nodes = [], []

        def point(p):
            t = tuple(p)
            if t not in pid:
                pid[t] = len(pts)
                pts.append(list(p))
            return pid[t]
        for sh, c in cells:
            s = sheets[sh]
            base = add(o, *[mul(c[d], s[d]) for d in range(k)])
            corners.append([point(add(base, *[s[d] for d in range(k) if j >> d & 1])) for j in range(1 << k)])
            fs = []
            for d in range(k):
                for side in (0, 1):
                    b = add(mul(2, base), *[mul(2 * side if e == d else 1, s[e]) for e in range(k)])
                    fs.append(keys.setdefault(tuple(b), len(keys)))
            nodes.append(fs)
        nN = len(keys) + rng.choice([0, 0, 1])
        name = list(range(nN))
        rng.shuffle(name)
        nodes = [[name[f] for f in e] for e in nodes]
    order = list(range(len(nodes)))
    rng.shuffle(order)
    nodes, corners = [nodes[i] for i in order], [corners[i] for i in order]
    types = [[rng.choice([0, 0, 1, 2, 7, 23, 1000]) for _ in range(2 * k)] for _ in nodes]
    np = rng.choice([0, 0, 1, 3])
    props = [[rng.randint(-9, 9) for _ in range(np)] for _ in nodes] if np else []
    return {"k": k, "nd": nd, "points": pts, "nN": nN, "nodes": nodes, "types": types,
            "corners": corners, "props": props}


def render(f, rng=None):
    """The text of a .geo file; with rng, with the freedom the format allows."""
    def noise(out, prob=0.35):
        if rng:
            while rng.random() < prob:
                out.append(rng.choice(["", "# a comment", "   ", "comment line = 3;", "# POINTS: 7"]))

    def key(name, val):
        pad = " " * (rng.randint(1, 6) if rng else 1)
        return "%s%s= %s;" % (name, pad, val)

    def row(v):
        sep = rng.choice([" ", "  ", "\t"]) if rng else " "
        return (rng.choice(["", " "]) if rng else "") + sep.join(str(x) for x in v) + \
            (rng.choice(["", "", "", " ", "\t "]) if rng else "")
    o = []
    for name, val in (("Space_Dim", f["nd"]), ("HyperEdge_Dim", f["k"]), ("N_Points", len(f["points"])),
                      ("N_HyperNodes", f["nN"]), ("N_HyperEdges", len(f["nodes"]))):
        noise(o)
        o.append(key(name, val))
    for name, rows in (("POINTS:", f["points"]), ("HYPERNODES_OF_HYPEREDGES:", f["nodes"]),
                       ("TYPES_OF_HYPERFACES:", f["types"]), ("POINTS_OF_HYPEREDGES:", f["corners"])):
        noise(o)
        o.append(name)
        o += [row(x) for x in rows]
    if f["props"]:
        noise(o)
        o.append("HYPEREDGE_PROPERTIES: %d" % len(f["props"][0]))
        o += [row(x) for x in f["props"]]
    else:
        noise(o)
    return "\n".join(o) + "\n"


def file_history(ctx, rng, case, length, geo=False, refuse=False, f=None):
    f = f or rand_file(rng, case)
    path = ctx.fresh("dom") + ".geo"
    open(path, "w").write(render(f, rng))
    head = "newfile %s %s %s" % (path, rng.choice(["parts", "hg"]), json.dumps(f, separators=(",", ":")))
    return [head] + body(rng, lambda r: len(f["nodes"]) * r ** case[0], length, geo, refuse)


def run_mesh(ctx, what, kinds, cases=CASES, per=4, length=5, geo=False, refuse=False, extra=()):
    exes = build_topo(ctx, cases)
    jobs = []
    for c in cases:
        for part in range(ctx.pick(1, 5)):
            lines = []
            for i in range(ctx.pick(per, per * 4)):
                kd = kinds[i % len(kinds)]
                if kd == "cubic":
                    lines += cubic_history(ctx.rng, c, length, geo, refuse)
                else:
                    lines += file_history(ctx, ctx.rng, c, length, geo, refuse)
            jobs.append(make_job(ctx, exes[c], "topo%d%d_%d" % (c[0], c[1], part), lines))
    conform(ctx, "HyperMeshTrace", jobs, env={"CHECK": what})


T = ["The tensor product chain complex submodule is absent; a stand-in with the documented interface "
     "(harness/stubs/tpcc) takes its place.",
     "Coordinates are compared on the lattice of the refined grid (tolerance 1e-6)."]


def p09(ctx):
    ctx.assumptions += T
    mc_mesh(ctx)
    run_mesh(ctx, "incidence", ["cubic"], per=12, refuse=True)


def p10(ctx):
    ctx.assumptions += T
    mc_mesh(ctx)
    run_mesh(ctx, "types", ["cubic", "file", "cubic"], per=12)


def p11(ctx):
    ctx.assumptions += T + ["In refined two and three dimensional file hypergraphs, hyperedges that share a "
                            "hypernode parametrise it in the same direction (the format has no orientation)."]
    mc_mesh(ctx)
    run_mesh(ctx, "incidence", ["file"], per=14, refuse=True)


def p14(ctx):
    ctx.assumptions += T + ["Points of file hypergraphs are integers."]
    mc_mesh(ctx)
    run_mesh(ctx, "geometry", ["cubic", "file", "file"], per=12, geo=True)
    for name in sorted(os.listdir(ctx.path(""))):
        if name.startswith("trace_HyperMeshTrace"):
            for e in read_trace(ctx.path(name)):
                if e["op"] == "geo" and e["inorm"] != e["lnorm"]:
                    ctx.known.append("inner_normal of hyperedges of Geometry::File (e.g. of a square with the corners 00, 10, 01, 11) is a "
                                     "column of the matrix Q, which may point inwards, and is not normal to the faces of oblique hyperedges")
                    return
