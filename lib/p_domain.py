"""P12, P13: domain files and point sets (specification DomainFile*)."""
import glob
from vlib import *
from p_loops import make_job
from p_topo import rand_file, render

INT = re.compile(r"^[+-]?\d+")
REAL = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def word(t, unit):
    m = REAL.match(t)
    if not m:
        return {"w": t, "n": "no", "v": 0, "q": 0}
    i = INT.match(t)
    whole = i and i.end() == m.end()
    q = float(m.group(0)) * 2.0 ** unit
    return {"w": t, "n": "int" if whole else "real", "v": max(-2000000000, min(2000000000, int(i.group(0)))) if i else 0,
            "q": int(q) if q == int(q) and abs(q) < 2e9 else 2000000001}


def tokens(text, unit=3):
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return [[word(t, unit) for t in ln.split()[:12]] for ln in lines]


def num(rng, q, unit=3):
    """One of the ways to write q / 2^unit."""
    x = q / 2.0 ** unit
    forms = [repr(x), "%.3f" % x, "%+.4f" % x if x >= 0 else "%.4f" % x, "%.7e" % x]
    if x == int(x):
        forms += [str(int(x)), "%d." % int(x)]
    forms = [f for f in forms if float(f) == x]
    return rng.choice(forms)


def spoil(rng, f, text):
    """One of many ways to damage a file.  Works on the dictionary or on the text."""
    how = rng.choice(["drop", "dup", "cut", "short", "word", "range", "twice", "samept", "sameedge", "swap",
                      "blank", "count", "zero", "dim", "edim", "cutline", "noequal", "sametuple"])
    lines = text.split("\n")
    rows = [i for i, ln in enumerate(lines) if ln.strip() and re.match(r"^[\s\d.+eE-]+$", ln)]
    keys = [i for i, ln in enumerate(lines) if re.match(r"^(Space|Hyper|N_|POINTS|HYPER|TYPES)", ln)]
    if how == "drop":
        lines.pop(rng.choice(rows + keys))
    elif how == "dup":
        i = rng.choice(rows)
        lines.insert(i, lines[i])
    elif how == "cut":
        lines = lines[:rng.randrange(1, len(lines))]
    elif how == "cutline":
        i = rng.choice(rows)
        lines = lines[:i] + [" ".join(lines[i].split()[:-1])]
    elif how == "short":
        i = rng.choice(rows)
        lines[i] = " ".join(lines[i].split()[:-1])
    elif how == "word":
        i = rng.choice(rows)
        t = lines[i].split()
        t[rng.randrange(len(t))] = "x"
        lines[i] = " ".join(t)
    elif how == "blank":
        lines.insert(rng.choice(rows), "")
    elif how == "noequal":
        i = rng.choice([j for j in keys if "=" in lines[j]])
        lines[i] = lines[i].replace("= ", rng.choice([": ", "== ", "=> "]))
    elif how == "swap":
        a, b = rng.sample(keys, 2)
        lines[a], lines[b] = lines[b], lines[a]
    else:
        g = json.loads(json.dumps(f))
        e = rng.randrange(len(g["nodes"]))
        if how == "range":
            which = rng.choice(["nodes", "corners"])
            lim = g["nN"] if which == "nodes" else len(g["points"])
            g[which][e][rng.randrange(len(g[which][e]))] = rng.choice([lim, -1, lim + 7])
        elif how == "twice":
            which = rng.choice(["nodes", "corners"])
            g[which][e][0] = g[which][e][1]
        elif how == "samept" and len(g["points"]) > 1:
            a, b = rng.sample(range(len(g["points"])), 2)
            g["points"][a] = g["points"][b]
        elif how in ("sameedge", "sametuple") and len(g["nodes"]) > 1:
            a, b = rng.sample(range(len(g["nodes"])), 2)
            for which in (["nodes"], ["corners"], ["nodes", "corners"])[rng.randrange(3)]:
                g[which][a] = g[which][b]
        elif how in ("count", "zero"):
            t = render(g)
            name = rng.choice(["N_Points", "N_HyperNodes", "N_HyperEdges"])
            m = re.search(name + r" = (\d+);", t)
            new = 0 if how == "zero" else int(m.group(1)) + rng.choice([-1, 1, 3])
            return t.replace(m.group(0), "%s = %d;" % (name, max(new, 0)))
        elif how == "dim":
            return render(dict(g, nd=g["nd"] + rng.choice([1, -1])))
        elif how == "edim":
            return render(dict(g, k=g["k"] + 1))
        return render(g, rng)
    return "\n".join(lines) + rng.choice(["\n", ""])


def geo_line(ctx, rng, case, kind):
    f = rand_file(rng, case, 0.1)
    g = dict(f)
    quarter = rng.choice([1, 8])
    unit = rng.choice([3, 3, 10, 24, 40, 40]) if kind == "plain" else 3
    off = rng.choice([0, 0, 1 << 30]) if unit > 10 else 0
    pts = []
    for p in f["points"]:
        pts.append([num(rng, off + x * quarter, unit) for x in p])
    g["points"] = pts
    g["props"] = [[num(rng, x * 4, unit) for x in p] for p in f["props"]]
    text = render(g, rng)
    if kind == "spoiled":
        text = spoil(rng, g, text)
        if rng.random() < 0.2:
            text = spoil(rng, g, text) if re.search(r"^\s*[\d-]", text, re.M) else text
    ext, readable = ".geo", True
    if kind == "spoiled" and rng.random() < 0.06:
        ext, readable = rng.choice([".txt", ".geox", ".gem"]), False
    if rng.random() < 0.06:
        text = text.replace("\n", "\r\n")
    path = ctx.fresh("dom") + ext
    if kind == "spoiled" and rng.random() < 0.04:
        readable = False
    else:
        open(path, "w").write(text)
    return "read %s %d %s" % (path, unit, json.dumps({"readable": readable, "lines": tokens(text, unit)},
                                            separators=(",", ":")))


def pts_line(ctx, rng, nd):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 13, 30])
    mode = rng.choice(["lattice", "lattice", "chain", "far", "fine"])
    base = [0] * nd
    if mode in ("far", "fine"):
        base = [rng.choice([0, 98765425, -12345677, 80000001]) for _ in range(nd)]
    unit = rng.choice([3, 3, 3, 12, 30, 45]) if mode != "fine" else 3
    pts, eps = [], rng.choice([8, 8, 10, 12, 16, 20, 24, 40])
    if mode == "fine":
        eps = rng.choice([1, 2, 3])
    step = max(1, eps // rng.choice([1, 2]))
    tries = 0
    while len(pts) < n:
        tries += 1
        if tries > 50 * n:       # walled in
            p = [max(q[d] for q in pts) + step for d in range(nd)]
        elif pts and rng.random() < 0.9:
            o = rng.choice(pts) if mode != "chain" else pts[-1]
            p = list(o)
            for d in rng.sample(range(nd), rng.randint(1, nd)):
                p[d] += rng.choice([-1, 1]) * rng.choice([step, step, 1, max(1, step // 2)])
        else:
            p = [b + rng.randint(-2, 2) * step for b in base] if not pts else [x + rng.randint(-2, 2) * step for x in pts[0]]
        if p not in pts:
            pts.append(p)
    dim, e = nd, eps
    x = rng.random()
    complete = True
    if x < 0.05:
        dim += 1
    elif x < 0.10:
        e = 0
    elif x < 0.15 and len(pts) > 1:
        pts[0] = list(pts[1])
    elif x < 0.22:
        complete = False
    rng.shuffle(pts)
    rows = [" ".join(num(rng, v, unit) for v in p) for p in pts]
    if not complete:
        i = rng.randrange(len(rows))
        rows[i] = " ".join(rows[i].split()[:-1]) or "x"
    else:
        if rng.random() < 0.3:  # additional columns are allowed
            rows = [r + " 0.5 7" for r in rows]
    head = rng.choice([[], ["# points", ""]])
    text = "\n".join(head + ["Space_Dim = %d;  # dim" % dim, "Epsilon   = %s;" % num(rng, e, unit), "", "POINTS:"] + rows)
    path = ctx.fresh("set") + ".pts"
    open(path, "w").write(text + rng.choice(["\n", ""]))
    return "pts %s %d %s" % (path, unit, json.dumps({"readable": True, "dim": dim, "eps": e, "points": pts,
                                            "complete": complete}, separators=(",", ":")))


def shipped(case):
    """The domain files of the repository that these dimensions can read and this specification can judge."""
    out = []
    for path in sorted(glob.glob(os.path.join(REPO, "domains", "**", "*.geo"), recursive=True)):
        text = open(path).read()
        dims = [re.search(k + r"\s*=\s*(\d+);", text) for k in ("HyperEdge_Dim", "Space_Dim")]
        toks = tokens(text)
        if all(dims) and tuple(int(m.group(1)) for m in dims) == case and len(toks) < 300 \
                and all(w["q"] <= 2000000000 for ln in toks for w in ln):
            out.append("read %s 3 %s" % (path, json.dumps({"readable": True, "lines": toks}, separators=(",", ":"))))
    return out


def run_domain(ctx, cases, gen, per):
    exes = dict(zip(cases, build_jobs(ctx, [("domain%d%d" % c, "domain.cpp", ["-DKD=%d" % c[0], "-DND=%d" % c[1]])
                                            for c in cases])))
    jobs = []
    for c in cases:
        for part in range(ctx.pick(2, 8)):
            jobs.append(make_job(ctx, exes[c], "domain%d%d_%d" % (c[0], c[1], part),
                                 [gen(c, i) for i in range(ctx.pick(per, per * 3))] +
                                 (shipped(c) if part == 0 else [])))
    model_check(ctx, "DomainFileMC", expect_actions=["Feed"])
    conform(ctx, "DomainFileTrace", jobs)


def p12(ctx):
    ctx.assumptions += ["Coordinates and properties are multiples of 1/8, so that reading is exact.",
                        "Refusals are those of assertion-enabled builds."]
    run_domain(ctx, [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)],
               lambda c, i: geo_line(ctx, ctx.rng, c, "plain" if i % 3 == 0 else "spoiled"), 110)


def p13(ctx):
    ctx.assumptions += ["Coordinates and epsilon are multiples of 1/8, so that distances are compared exactly."]
    run_domain(ctx, [(1, 1), (1, 2), (1, 3)], lambda c, i: pts_line(ctx, ctx.rng, c[1]), 110)
