"""P01-P08: global loops, hypergraph, degrees of freedom (specifications GlobalLoop*, DofMap*)."""
from vlib import *

VARIANTS = [(1, 1, 1, "double"), (1, 2, 1, "double"), (2, 1, 1, "double"), (2, 3, 1, "double"),
            (3, 2, 1, "float"), (1, 2, 0, "double"), (2, 2, 0, "float")]
REFINE_CFG = {}


def vname(v):
    return "loops_%d_%d_%d_%s" % v


def build_loops(ctx, variants):
    jobs = [(vname(v), "loops.cpp", ["-DDIM=%d" % v[0], "-DNDOF=%d" % v[1], "-DEDGE=%d" % v[2],
                                     "-DFLT=%s" % v[3]]) for v in variants]
    exes = build_jobs(ctx, jobs)
    return dict(zip(variants, exes))


def rand_graph(rng, f, big, nlev, giant=0):
    """giant: the least number of hypernodes, if there shall be many"""
    levels = []
    large = rng.random() < 0.08      # now and then many hyperedges
    for _ in range(nlev):
        nN = rng.randint(2, 4 + big)
        nE = rng.randint(1, 3 + big)
        if large:
            nN, nE = rng.randint(2, 9), rng.randint(12, 40)
        if giant:
            nN, nE = giant + rng.randint(1, 30), rng.randint(66, 140)
        lv = []
        style = rng.random()
        for e in range(nE):
            if style < 0.4 and nN >= f:
                nodes = rng.sample(range(nN), f)
            elif style < 0.7:
                nodes = [rng.randrange(nN) for _ in range(f)]
            else:  # hub: many hyperedges at one hypernode
                nodes = [0 if rng.random() < 0.5 else rng.randrange(nN) for _ in range(f)]
            types = [rng.choice([0, 0, 1, 2]) for _ in range(f)]
            lv.append((nodes, types))
        levels.append((nN, lv))
    return levels


def graph_line(levels, cons):
    t = ["graph", str(len(levels))]
    for nN, lv in levels:
        t += [str(nN), str(len(lv))]
        for nodes, types in lv:
            t += [str(n) for n in nodes] + [str(k) for k in types]
    return " ".join(t + [str(int(cons))])


def vecs(rng, n, big=()):
    """big: unknowns at which the entry may exceed the precision of single numbers"""
    k = rng.random()
    if big and k > 0.85:
        v = [rng.randint(-4, 5) for _ in range(n)]
        v[rng.choice(big)] = rng.choice([-1, 1]) * ((1 << 24) + 2 * rng.randint(0, 99) + 1)
        return "%d %s" % (n, " ".join(map(str, v)))
    if k < 0.15:
        v = [0] * n
        v[rng.randrange(n)] = 1
    elif k < 0.25:
        v = [rng.choice([1, -2])] * n
    else:
        v = [rng.randint(-4, 5) for _ in range(n)]
    return "%d %s" % (n, " ".join(map(str, v)))


def new_line(rng, loop):
    how = rng.randrange(3)
    return "new %s %d%s" % (loop, how, "".join(" %d" % rng.choice([0, 1, 2, 5]) for _ in range(how)))


def random_history(rng, variant, loop, ops, length, big=1, nlev=None, refine=0.15,
                   giant=False, many=256):
    """One history of public calls.  ops: list of operation names with repetition as weight."""
    dim, d, edge, _ = variant
    f = 2 * dim
    nlev = nlev or rng.randint(1, 3)
    levels = rand_graph(rng, f, big if dim < 3 else 0, nlev, many // d if giant else 0)
    if giant:
        if ops[0] == "mat":          # fewer unknowns or hyperedges, or the specification adds up millions of terms
            levels = [(12, [([x % 12 for x in nodes], types) for nodes, types in lv]) if k else (nN, lv[:24 // d])
                      for k, (nN, lv) in enumerate(levels)]
        else:
            ops = [o for o in ops if o != "mat"]
    lines = ["unit %d" % rng.choice([0, -2, -5, 7, -40] if dim < 3 else [0, -2, 3, -12]),
             graph_line(levels, rng.random() < 0.5), new_line(rng, loop)]
    lvl, hasdir = 0, False

    def few():
        """unknowns of hypernodes at which few hyperedges meet"""
        if variant[3] != "double" or giant:
            return ()
        nN, lv = levels[lvl]
        return [k * d + i for k in range(nN) for i in range(d) if f * sum(nodes.count(k) for nodes, _ in lv) <= 10]
    for _ in range(length):
        n = levels[lvl][0] * d
        t = rng.choice([0, 0, 1, 2, 3, 4, 7, 9, -3, 50])
        if nlev > 1 and rng.random() < refine:
            nl = rng.choice([k for k in range(nlev) if k != lvl])
            lvl = nl
            lines.append("setref %d" % (lvl + 1))
            n = levels[lvl][0] * d
            if hasdir:
                lines.append("dirread 0")
                hasdir = False
            lines.append(rng.choice(["getref", "size"]))
            continue
        op = rng.choice(ops)
        if op in ("flux", "resid", "mass", "err"):
            s = "%s %s %d" % (op, vecs(rng, n, few() if op != "err" else ()), t)
            if t == 0:
                s += " %d" % rng.randint(0, 1)
            lines.append(s)
        elif op == "jac":
            lines.append("jac %s %s %d %d" % (vecs(rng, n, few()), vecs(rng, n), t, rng.choice([0, 1, 5, 6])))
        elif op == "mat":
            lines.append("mat %d" % t)
        elif op in ("init", "setdata"):
            lines.append("%s %s %d" % (op, vecs(rng, n), t))
        elif op == "dirread":
            k = rng.choice([0, 1, 2, 3, 4, 5, n // 2, n + 3])
            idx = [rng.randrange(n) for _ in range(k)]
            if rng.random() < 0.1:
                idx = list(range(n))
                if rng.random() < 0.5:
                    idx.reverse()
            lines.append("dirread %d %s" % (len(idx), " ".join(map(str, idx))))
            hasdir = len(idx) > 0
        else:
            lines.append(op)
    return lines


def tlc_to_lines(b):
    """A behaviour printed by GlobalLoopGen -> (variant, schedule lines)."""
    p = b[0]["par"]
    variant = (p["f"] // 2, p["d"], int(p["edge"]), "double")
    levels = [(g["nN"], list(zip(g["inc"], g["types"]))) for g in b[0]["levels"]]
    lines = [graph_line(levels, p["cons"]), "new %s 0" % b[0]["loop"]]
    v = lambda x: "%d %s" % (len(x), " ".join(map(str, x)))
    for e in b[1:]:
        o = e["op"]
        if o in ("flux", "resid", "mass", "err"):
            lines.append("%s %s %d%s" % (o, v(e["x"]), e["t"], " 0" if e["t"] == 0 else ""))
        elif o == "jac":
            lines.append("jac %s %s %d %d" % (v(e["x"]), v(e["y"]), e["t"], e["s"]))
        elif o == "mat":
            lines.append("mat %d" % e["t"])
        elif o in ("init", "setdata"):
            lines.append("%s %s %d" % (o, v(e["x"]), e["t"]))
        elif o == "dirread":
            lines.append("dirread " + v(e["idx"]))
        elif o == "setref":
            lines.append("setref %d" % e["L"])
        else:
            lines.append(o)
    return variant, lines


def behaviours(ctx, kinds, num):
    cfg = os.path.join(SPEC, "GlobalLoopGen.cfg")
    text = open(cfg).read()
    text = re.sub(r"Kinds = \{[^}]*\}", "Kinds = {%s}" % ", ".join('"%s"' % k for k in kinds), text)
    mine = ctx.fresh("gen") + ".cfg"
    open(mine, "w").write(text)
    bs = simulate(ctx, "GlobalLoopGen", mine, num, 14, ctx.seed + 11)
    ctx.rng.shuffle(bs)
    return bs


def mc_loops(ctx, kinds):
    text = open(os.path.join(SPEC, "GlobalLoopMC.cfg")).read()
    text = re.sub(r"Kinds = \{[^}]*\}", "Kinds = {%s}" % ", ".join('"%s"' % k for k in kinds), text)
    if ctx.thorough:
        text = text.replace("MaxCalls = 2", "MaxCalls = 3").replace("Times = {0, 3}", "Times = {3}")
    cfg = ctx.fresh("mc") + ".cfg"
    open(cfg, "w").write(text)
    need = ["VisitAny", "Finish", "BeginFlux"]
    if "elliptic" in kinds:
        need += ["Declare", "BeginResid", "BeginErr"]
    if "parabolic" in kinds:
        need += ["BeginSetData", "BeginInit", "Refine"]
    model_check(ctx, "GlobalLoopMC", cfg, expect_actions=need)


def run_loops(ctx, mixes, kinds, variants=VARIANTS, hist=14, length=12, gen=30, keep=None, mc=True):
    """mixes: list of (loop, ops, needs_edge)."""
    if mc:
        mc_loops(ctx, [k for k in kinds if k != "graph"])
    exes = build_loops(ctx, variants)
    jobs = []
    per = ctx.pick(hist, hist * 8)
    for v in variants:
        if v[2] == 0:
            mine = [m for m in mixes if not m[2]]
        else:
            mine = mixes
        if not mine:
            continue
        for part in range(ctx.pick(1, 4)):
            lines = []
            for k in range(per // (1 if v[0] < 3 else 2) // ctx.pick(1, 4) + 1):
                loop, ops, _ = mine[k % len(mine)]
                lines += random_history(ctx.rng, v, loop, ops, length)
            if v[0] < 3:
                for loop, ops, _ in mine:
                    lines += random_history(ctx.rng, v, loop, ops, 3, nlev=2, giant=True)
            jobs.append(make_job(ctx, exes[v], "%s_%d" % (vname(v), part), lines))
    if gen:
        per_exe = {}
        ks = [k for k in kinds if k != "graph"]
        for b in behaviours(ctx, ks, ctx.pick(gen, gen * 10))[:ctx.pick(60, 600)]:
            if keep and not keep(b):
                continue
            variant, lines = tlc_to_lines(b)
            per_exe.setdefault(variant, []).extend(lines)
        for v, lines in per_exe.items():
            if v in exes:
                jobs.append(make_job(ctx, exes[v], "spec_" + vname(v), lines))
    conform(ctx, "GlobalLoopTrace", jobs)


def make_job(ctx, exe, name, lines, **kw):
    sched = ctx.path("sched_%s.txt" % name)
    open(sched, "w").write("\n".join(lines) + "\n")
    return name, lambda tr: run_harness(exe, sched, tr, **kw)


A = ["Global vectors, times and local operators are integer valued (times are quarters), so that the "
     "floating point results of the code are exact and independent of the order of summation."]


def p01(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("elliptic", ["flux", "flux", "resid", "zero", "size"], False),
                    ("parabolic", ["flux", "resid", "zero"], False),
                    ("mass", ["flux", "mass"], False),
                    ("shifted", ["flux"], False),
                    ("nonlinear", ["flux", "jac"], False)],
              ["elliptic", "parabolic", "mass", "shifted", "nonlinear"], hist=20)


def p02(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("elliptic", ["mat", "mat", "flux", "setref"][:3], False)], ["elliptic"], hist=10,
              length=6, gen=40, keep=lambda b: any(e["op"] == "mat" for e in b))


def p03(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("elliptic", ["dirread", "flux", "resid", "flux", "dirread", "mat"], False)], ["elliptic"],
              hist=16, length=14, keep=lambda b: any(e["op"] == "dirread" for e in b))


def p04(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("parabolic", ["setdata", "resid", "init", "setdata", "resid", "err", "flux"], False)],
              ["parabolic"], hist=18, length=14)


def p05(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("mass", ["flux", "mass", "dirget", "size"], True),
                    ("shifted", ["flux", "dirget"], True),
                    ("nonlinear", ["flux", "jac", "init", "jac"], False)],
              ["nonlinear", "mass", "shifted"], hist=18, length=12)


def p06(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("elliptic", ["err", "err", "flux"], False),
                    ("parabolic", ["err", "setdata", "init", "err"], False)],
              ["elliptic", "parabolic"], hist=18, length=12,
              keep=lambda b: any(e["op"] == "err" for e in b))


def p07(ctx):
    ctx.assumptions += A
    run_loops(ctx, [("elliptic", ["flux", "resid", "size", "getref", "zero", "mat", "err"], False),
                    ("parabolic", ["setdata", "resid", "size", "getref", "zero", "init"], False),
                    ("mass", ["flux", "mass", "size", "dirget", "getref"], True),
                    ("shifted", ["flux", "size", "dirget", "getref"], True),
                    ("nonlinear", ["flux", "size", "jac", "init", "getref"], False),
                    ("graph", ["iter", "size", "getref", "iter"], False)],
              ["elliptic", "parabolic", "mass", "shifted", "nonlinear"], hist=24, length=14,
              keep=lambda b: any(e["op"] == "setref" for e in b))


def dof_history(rng, length):
    d = rng.choice([1, 2, 3, 4, 6, 9])
    num = lambda: rng.randint(-9, 9) if rng.random() < 0.93 else rng.choice([-1, 1]) * ((1 << 26) + rng.randint(0, 99))
    n = rng.randint(1, 7) if rng.random() < 0.97 else rng.randint(70, 140)
    extra = rng.choice([0, 0, 0, 1, d, -1])
    size = max(0, n * d + extra)
    lines = ["new %d %d %s" % (d, n, "%d %s" % (size, " ".join(str(num()) for _ in range(size))))]
    whole = size // d
    loc = lambda: "%d %s" % (d, " ".join(str(num()) for _ in range(d)))
    for _ in range(length):
        op = rng.choice(["get", "getsv", "add", "add", "set", "const", "idx", "nodeof", "copy", "refuse",
                         "refusedof", "refusesize"])
        node = rng.randrange(min(n, whole)) if min(n, whole) else None
        if op in ("get", "getsv", "add", "set", "const") and node is None:
            continue
        if op in ("get", "getsv"):
            lines.append("%s %d" % (op, node))
        elif op in ("add", "set"):
            lines.append("%s %d %s" % (op, node, loc()))
        elif op == "const":
            lines.append("const %d %d" % (node, num()))
        elif op == "idx":
            lines.append("idx %d" % rng.choice([rng.randrange(n), rng.randrange(100000)]))
        elif op == "nodeof":
            lines.append("nodeof %d" % rng.randrange(n * d))
        elif op == "copy":
            lines.append("copy")
        elif rng.random() < 0.35:
            if op == "refuse":
                lines.append("refuse %d %s" % (rng.choice([whole, whole + 1, max(0, whole - 1), n]),
                                               rng.choice(["get", "add", "set", "const"])))
            elif op == "refusedof":
                lines.append("refusedof %d" % rng.choice([n * d, n * d - 1, n * d + 3, 0]))
            elif size >= d:
                lines.append("refusesize %d %s" % (rng.choice([d, d - 1, d + 1]),
                                                   rng.choice(["get", "add", "set", "idx"])))
    return lines


def dof_ends(rng, d):
    """Vectors that end before, inside and behind the block of the addressed hypernode; all kinds of access."""
    lines = []
    for size in sorted({d, d + 1, 2 * d - 1, 2 * d, 2 * d + 1, 3 * d}):
        lines.append("new %d 3 %d %s" % (d, size, " ".join(str(rng.randint(-9, 9)) for _ in range(size))))
        for how in ("get", "add", "set", "const"):
            lines += ["refuse %d %s" % (node, how) for node in (0, 1, 2, 3)]
        lines += ["refusedof %d" % k for k in (0, d - 1, d, 3 * d - 1, 3 * d)]
        for how in ("get", "add", "set", "idx"):
            lines += ["refusesize %d %s" % (k, how) for k in (d - 1, d, d + 1)]
        lines += ["nodeof %d" % k for k in range(3 * d)]
    return lines


def dof_many(rng, d):
    """More unknowns than 16 bits can count."""
    n = (1 << 16) // d + 40
    lines = ["new %d %d %d %s" % (d, n, n * d, " ".join(str(rng.randint(-9, 9)) for _ in range(n * d)))]
    for op in ("add", "set", "const", "get"):
        node = n - 1 - rng.randrange(12)
        loc = "%d %s" % (d, " ".join(str(rng.randint(-9, 9)) for _ in range(d)))
        lines.append("%s %d %s" % (op, node, loc if op in ("add", "set") else "5" if op == "const" else ""))
    return lines + ["idx %d" % (n - 1), "nodeof %d" % (n * d - 1), "refusedof %d" % (n * d), "refuse %d get" % n]


def p08(ctx):
    model_check(ctx, "DofMapMC", expect_actions=["DoAdd", "DoSet", "DoConst"])
    exe = build(ctx, "dofs", "dofs.cpp")
    jobs = [make_job(ctx, exe, "ends_%d" % d, dof_ends(ctx.rng, d)) for d in (1, 2, 3, 4, 6, 9)]
    jobs += [make_job(ctx, exe, "many_%d" % d, dof_many(ctx.rng, d)) for d in (1, 3)]
    for k in range(ctx.pick(4, 12)):
        lines = []
        for _ in range(ctx.pick(30, 120)):
            lines += dof_history(ctx.rng, 14)
        jobs.append(make_job(ctx, exe, "dofs_%d" % k, lines))
    conform(ctx, "DofMapTrace", jobs)
    # The same numbering inside the global loops: gather and scatter of whole histories.
    run_loops(ctx, [("elliptic", ["flux", "size", "mat", "zero"], False),
                    ("mass", ["mass", "flux", "dirget", "size"], True)],
              ["elliptic"], hist=8, length=10, gen=0, mc=False,
              variants=[v for v in VARIANTS if v[2] == 1 and v[0] < 3])
