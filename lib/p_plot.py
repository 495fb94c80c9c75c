"""P18, P19: plotting (specification PlotFile*)."""
from vlib import *
from p_loops import make_job
import p_topo

# (K, N, loop, components, components on nodes, dofs per node, local solver knows the hyperedge)
VARIANTS = [(1, 1, 1, 2, 1, 1, 1), (1, 2, 1, 1, 2, 2, 1), (2, 2, 2, 3, 1, 2, 1), (2, 3, 3, 2, 2, 1, 1),
            (3, 3, 4, 4, 1, 1, 1), (1, 3, 5, 1, 1, 2, 0)]
FLAG = ["true", "false", "1", "0", "yes"]
FACTOR = ["1", "1.", "1.0", "0.5", ".5", "0.75", "0.25"]
ALL = ["outputDir", "fileName", "fileEnding", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges",
       "plotEdgeBoundaries", "scale", "boundaryScale"]


def build_plot(ctx):
    keys = ("KD", "ND", "LOOP", "SD", "NSD", "NDOF", "EDGE")
    return build_jobs(ctx, [("plot_%d%d_%d" % v[:3], "plot.cpp", ["-D%s=%d" % x for x in zip(keys, v)] +
                             ["-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all"]) for v in VARIANTS])


class Gen:
    def __init__(self, ctx, v, names):
        self.ctx, self.rng, self.v, self.names = ctx, ctx.rng, v, names
        self.o = []

    def mesh(self):
        g, (k, nd) = self.rng, self.v[:2]
        if g.random() < 0.5:
            while True:
                n = [g.choice([1, 1, 2, 3]) for _ in range(nd)]
                if p_topo.ncells(k, n, 1) <= 14:
                    break
            self.count = lambda r: p_topo.ncells(k, n, r)
            self.o.append("cubic " + " ".join(map(str, n)))
        else:
            f = p_topo.rand_file(g, (k, nd))
            path = self.ctx.fresh("dom") + ".geo"
            open(path, "w").write(p_topo.render(f))
            self.count = lambda r: len(f["nodes"]) * r ** k
            self.o.append("file " + path)

    def option(self):
        g = self.rng
        who = g.choice(["opt", "opt", "dopt"])
        name = g.choice(["outputDir", "fileName", "fileNumber", "fileNumber", "printFileNumber", "incrementFileNumber",
                         "plotEdges", "plotEdgeBoundaries", "plotEdgeBoundaries", "scale", "boundaryScale", "fileEnding",
                         "nothing"] if self.names else
                        ["plotEdges", "plotEdgeBoundaries", "plotEdgeBoundaries", "scale", "boundaryScale", "fileName"])
        vals = {"outputDir": ["output", "other", "missing/sub"], "fileName": ["example", "x", "y.z", "solution"],
                "fileNumber": ["0", "1", "2", "7", "10", "99", "390", "999", "10000", "123456", "abc"], "fileEnding": ["vtu", "vtk", "pvd"],
                "scale": FACTOR + ["abc"] * self.names, "boundaryScale": FACTOR + ["abc"] * self.names,
                "nothing": ["1"]}.get(name, FLAG)
        if name == "nothing":
            name = g.choice(["n_subintervals", "filename", "FileName", "scale_", "numbers"])
        self.o.append("%s %s %s" % (who, name, "-" if g.random() < 0.25 else g.choice(vals)))

    def ask(self, who):
        """All options as they are now."""
        for name in ALL:
            self.o.append("%s %s -" % (who, name))

    def plot(self):
        g = self.rng
        n = g.choice([3, 5, 40])
        if g.random() < 0.4:
            self.o.append("unit %d" % g.choice([0, 0, -9, -6, -15, -40, -200, 3, 7, 25]))
        if self.names and g.random() < 0.3:       # the numbering switches, set just before
            self.o.append("%s %s %s" % (g.choice(["opt", "dopt"]), g.choice(["printFileNumber", "incrementFileNumber"]), g.choice(FLAG)))
        self.o.append("%s %d %d %s" % (g.choice(["plot", "plot", "dplot"]), g.randint(0, 5), n,
                                       " ".join(str(g.randint(-3, 3)) for _ in range(n))))
        if self.names and g.random() < 0.5:
            self.o.append("%s fileNumber -" % ("dopt" if self.o[-1].startswith("d") else "opt"))

    def history(self, length):
        g = self.rng
        self.mesh()
        for _ in range(length):
            x = g.random()
            if x < 0.45:
                self.option()
            elif x < 0.83:
                self.plot()
            elif x < 0.88 and not self.names or x < 0.84:
                cand = [r for r in (1, 2, 3) if self.count(r) <= 40]
                self.o.append("ref %d" % g.choice(cand))
            elif x < 0.92:
                self.o.append("numbers %d" % g.randint(0, 1))
            elif x < 0.96:
                self.o.append("mkdir missing")
            elif x < 0.97:
                self.o.append("wipe")
            else:
                self.mesh()
        self.plot()
        if self.names:
            self.ask("opt")
            self.ask("dopt")
        return self.o


def run(ctx, check, names):
    text = open(os.path.join(SPEC, "PlotFileMC.cfg")).read()
    if not ctx.thorough:
        text = text.replace("MaxDim = 3", "MaxDim = 1")
    cfg = ctx.fresh("mc") + ".cfg"
    open(cfg, "w").write(text)
    model_check(ctx, "PlotFileMC", cfg, expect_actions=["DoSet", "DoPlot"])
    jobs = []
    for v, e in zip(VARIANTS, build_plot(ctx)):
        for part in range(ctx.pick(2, 8)):
            lines = []
            for _ in range(ctx.pick(3, 8)):
                lines += Gen(ctx, v, names).history(ctx.pick(25 if names else 14, 40))
            jobs.append(make_job(ctx, e, "plot%d%d_%d" % (v[0], v[1], part), lines))
    conform(ctx, "PlotFileTrace", jobs, env={"CHECK": check})
    ctx.assumptions.append("The tensor product chain complex is replaced by the stand-in of harness/stubs/tpcc.")


def p18(ctx):
    run(ctx, "names", True)
    ctx.assumptions.append("Option values come from the tables of PlotFile.tla.")


def p19(ctx):
    run(ctx, "content", False)
    ctx.assumptions += ["Values are whole numbers below 10000 (four digits are written); coordinates are compared with the "
                        "accuracy of four digits.",
                        "Values on hyperedge boundaries are placeholders (zeros) in this version: only their number is checked."]
