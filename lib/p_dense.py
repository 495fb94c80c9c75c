"""P15, P16: dense matrices (specification DenseAlgebra*)."""
from vlib import *
from p_loops import make_job

D = (1, 2, 3)
SETS = ["array", "move", "vector", "data", "index", "rowcol", "column"]


class Gen:
    """Writes a schedule; keeps a bound of the entries of each register, so that all results stay
    exactly representable."""
    LIM = 2000

    def __init__(self, rng, dims=D, ty="double"):
        self.ty = ty
        self.rng, self.b, self.o, self.dims = rng, {}, [], dims

    def bound(self, x):
        return self.b.get(x, 0)

    def reg(self, r, c):
        return (r, c, self.rng.randrange(3))

    def emit(self, *a):
        self.o.append(" ".join("%d %d %d" % x if isinstance(x, tuple) else str(x) for x in a))

    def set(self, d, vals=None, lo=-4, hi=4):
        n = d[0] * d[1]
        v = vals or [self.rng.randint(lo, hi) for _ in range(n)]
        self.emit("set", d, self.rng.choice(SETS), *v)
        self.b[d] = max(abs(x) for x in v)

    def unit(self):
        """The unit (exponent of two) in which the matrices of one operation are expressed."""
        return self.rng.choice({"double": [0, 0, -3, -20, -40, -60, 30], "float": [0, 0, -3, -10, -20, 12]}.get(self.ty, [0]))

    def put(self, d, bound, *line):
        if bound > self.LIM:
            self.set(d)
        else:
            self.emit(*line)
            self.b[d] = bound

    def step(self):
        g = self.rng
        r, c, k, m = (g.choice(self.dims) for _ in range(4))
        B = self.bound
        op = g.choice(["set", "fill", "zero", "copy", "mul", "mul", "unfit", "tmm", "tmm", "mmt", "mmt", "add", "add", "sub", "sub",
                       "iadd", "isub", "had", "ihad", "hdiv", "ihdiv", "scal", "scal", "scal", "sdiv", "transp", "dyad", "cross",
                       "diag", "diagv", "rep", "getcol", "setcol", "cmp", "cmp", "query", "query", "refuse", "dump"])
        d = self.reg(r, c)
        if op == "set":
            self.set(d)
        elif op == "fill":
            v = g.randint(-5, 5)
            self.put(d, abs(v), "fill", d, v)
        elif op == "zero":
            self.put(d, 0, "zero", d)
        elif op == "copy":
            a = self.reg(r, c)
            self.put(d, B(a), "copy", d, a, g.choice(["assign", "ctor", "mctor", "conv", "iter"]))
        elif op == "mul":
            a, b = self.reg(r, k), self.reg(k, c)
            self.put(d, k * B(a) * B(b), "mul", d, a, b)
        elif op == "unfit":
            a, b = self.reg(r, k), self.reg(m, c)
            self.put(d, k * B(a) * B(b), "unfit", d, a, b)
        elif op == "tmm":
            a, b = self.reg(k, r), self.reg(k, c)
            self.put(d, k * B(a) * B(b), "tmm", d, a, b)
        elif op == "mmt":
            a, b = self.reg(r, k), self.reg(c, k)
            self.put(d, k * B(a) * B(b), "mmt", d, a, b)
        elif op in ("add", "sub"):
            ca, cb = g.choice([(c, c), (c, 1), (1, c)])
            a, b = self.reg(r, ca), self.reg(r, cb)
            self.put(d, B(a) + B(b), op, d, a, b)
        elif op in ("iadd", "isub"):
            b = self.reg(r, g.choice([c, 1]))
            self.put(d, B(d) + B(b), op, d, b)
        elif op == "had":
            a, b = self.reg(r, c), self.reg(r, c)
            self.put(d, B(a) * B(b), op, d, a, b)
        elif op == "ihad":
            b = self.reg(r, c)
            self.put(d, B(d) * B(b), op, d, b)
        elif op in ("hdiv", "ihdiv"):
            n = r * c
            sl = g.sample(range(3), 2)
            a, b = (r, c, sl[0]), (r, c, sl[1])
            den = [g.choice([1, -1, 2, -2, 3, 4]) for _ in range(n)]
            num = [x * g.randint(-4, 4) for x in den]
            if g.random() < 0.25:
                den[g.randrange(n)] = 0
            self.set(a, num)
            self.set(b, den)
            if op == "hdiv":
                d = self.reg(r, c)
                self.emit("hdiv", d, a, b, self.unit())
                self.b[d] = 16
            else:
                self.emit("ihdiv", a, b, self.unit())
                self.b[a] = 16
        elif op == "scal" and g.random() < 0.2:
            how, k = g.choice(["+=", "-=", "*=", "/="]), g.randrange(r * c)
            v = [g.randint(-4, 4) for _ in range(r * c)]
            if how == "/=":
                v = [v[k] * g.randint(-4, 4) if v[k] else x for x in v[:k]] + [v[k]] + [v[k] * g.randint(-4, 4) if v[k] else x for x in v[k + 1:]]
            self.set(d, v)
            self.emit("scal", d, d, k, "self" + how, self.unit())
            self.b[d] = 16
        elif op == "scal":
            how = g.choice(["s+m", "m+s", "s-m", "m-s", "s*m", "m*s", "+=", "-=", "*="])
            a = d if how.endswith("=") else self.reg(r, c)
            s = g.randint(-4, 4)
            self.put(d, B(a) * abs(s) if "*" in how else B(a) + abs(s), "scal", d, a, s, how, self.unit())
        elif op == "sdiv":
            how = g.choice(["s/m", "m/s", "/="])
            a = d if how == "/=" else self.reg(r, c)
            if how == "s/m":
                s = g.choice([12, -12, 24])
                v = [g.choice([1, -1, 2, -3, 4, 6]) for _ in range(r * c)]
                if g.random() < 0.25:
                    v[g.randrange(r * c)] = 0
            else:
                s = g.choice([1, -1, 2, -2, 3, 4, 0])
                v = [s * g.randint(-3, 3) if s else g.randint(-3, 3) for _ in range(r * c)]
            self.set(a, v)
            self.emit("scal", d, a, s, how, self.unit())
            self.b[d] = 24
        elif op == "transp":
            a = self.reg(c, r)
            self.put(d, B(a), op, d, a)
        elif op == "dyad":
            a, b = self.reg(r, 1), self.reg(c, 1)
            self.put(d, B(a) * B(b), op, d, a, b)
        elif op == "cross":
            d, a, b = self.reg(3, 1), self.reg(3, 1), self.reg(3, 1)
            self.put(d, 2 * B(a) * B(b), op, d, a, b)
        elif op == "diag":
            v = g.randint(-4, 4)
            self.put(d, abs(v), op, d, v)
        elif op == "diagv":
            a = self.reg(g.choice([x for x in self.dims if x <= min(r, c)]), 1)
            self.put(d, B(a), op, d, a)
        elif op == "rep":
            a = self.reg(r, 1)
            self.put(d, B(a), op, d, a)
        elif op == "getcol":
            a, d = d, self.reg(r, 1)
            self.put(d, B(a), op, d, a, g.randrange(c))
        elif op == "setcol":
            a = self.reg(r, 1)
            self.put(d, max(B(a), B(d)), op, d, a, g.randrange(c))
        elif op == "cmp":
            a = self.reg(r, c)
            if g.random() < 0.7:       # matrices that nearly agree
                v = [g.randint(-2, 2) for _ in range(r * c)]
                self.set(a, list(v))
                for _ in range(g.choice([0, 1, 2])):
                    v[g.randrange(r * c)] += g.choice([-1, 1])
                self.set(d, v)
            off = g.choice({"double": [0, 0, 1 << 20, -7], "float": [0, 0, 8, -5]}.get(self.ty, [0, 1 << 20]))
            e = self.unit()
            if off and e:
                e = max(e, -10 if self.ty == "float" else -30)
                e = min(e, 0)
            self.emit("cmp", a, d, e, off)
        elif op == "query":
            if B(d) ** (r * c) > 10 ** 6 or B(d) > 60:
                hi = 4 if r * c <= 9 else 2 if r * c <= 15 else 1
                self.set(d, lo=-hi, hi=hi)
            self.emit("query", d)
        elif op == "refuse":
            how = g.choice(["index", "cindex", "rowcol", "crowcol", "getcol", "setcol", "vector"])
            i = g.choice([0, r - 1, r, r * c - 1, r * c, r * c + 1, 9, 25, 1000])
            self.emit("refuse", d, how, i, g.choice([0, c - 1, c, c + 1, 1000]))
        else:
            self.emit("dump")

    def history(self, n):
        for d in [(r, c, s) for r in self.dims for c in self.dims for s in range(3)]:
            if self.rng.random() < 0.5:
                self.set(d)
        while len(self.o) < n:
            self.step()
        self.emit("dump")
        return self.o


def mc_dense(ctx):
    model_check(ctx, "DenseAlgebraMC", expect_actions=["DoMul", "DoTrans"])


def p15(ctx):
    mc_dense(ctx)
    kinds = ["double", "float", "int"]
    exes = build_jobs(ctx, [("dense_" + t, "dense.cpp", ["-DTY=" + t, "-DNOLAPACK"]) for t in kinds])
    jobs = []
    for t, e in zip(kinds, exes):
        for part in range(ctx.pick(4, 16)):
            jobs.append(make_job(ctx, e, "%s_%d" % (t, part), Gen(ctx.rng, ty=t).history(ctx.pick(700, 1500))))
    conform(ctx, "DenseAlgebraTrace", jobs, env={"PREC": "double", "DIMS": "1,2,3"})
    exe, = build_jobs(ctx, [("dense_135", "dense.cpp", ["-DTY=double", "-DNOLAPACK", "-DDIMS=1,3,5"])])
    conform(ctx, "DenseAlgebraTrace",
            [make_job(ctx, exe, "large_%d" % part, Gen(ctx.rng, (1, 3, 5)).history(ctx.pick(700, 1500)))
             for part in range(ctx.pick(3, 12))], env={"PREC": "double", "DIMS": "1,3,5"})
    ctx.assumptions.append("Entries are whole numbers small enough for exact arithmetic in double, float and int.")


# ----------------------------------------------------------------------------- solve, QR, determinant
def det(m):
    if not m:
        return 1
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)) if m[0][j])


def flat(cols):
    return [x for c in cols for x in c]


def special(rng, n, m, hi):
    """A matrix as a list of columns: generic, triangular, diagonal, permutation like, degenerate."""
    cols = [[rng.randint(-hi, hi) for _ in range(n)] for _ in range(m)]
    how = rng.choice(["any", "any", "upper", "lower", "diag", "perm", "sparse"])
    for j in range(m):
        for i in range(n):
            if (how == "upper" and i > j) or (how == "lower" and i < j) or (how == "diag" and i != j) or \
               (how == "sparse" and rng.random() < 0.5):
                cols[j][i] = 0
    if how == "perm":
        rows = rng.sample(range(max(n, m)), max(n, m))
        cols = [[rng.choice([1, -1, 2, -3]) if rows[j] == i else 0 for i in range(n)] for j in range(m)]
    return cols


def dominant(rng, n):
    """Rows of a strictly diagonally dominant matrix, in any order."""
    rows = []
    for i in range(n):
        row = [rng.choice([0, 0, 1, -1, 2, -3]) for _ in range(n)]
        row[i] = 0
        row[i] = rng.choice([-1, 1]) * (sum(map(abs, row)) + rng.choice([1, 1, 2, 5]))
        rows.append(row)
    if rng.random() < 0.8:
        rng.shuffle(rows)
    return [list(c) for c in zip(*rows)]


def lapack_lines(rng, count, ty="double"):
    out = []
    unit = lambda: rng.choice([0, 0, 0, -3, -25, -45, 20] if ty == "double" else [0, 0, 0, -3, -12, 10])
    while len(out) < count:
        if rng.random() < 0.12:
            n, m = rng.choice([6, 9, 14]), rng.choice([1, 1, 2, 3, 4])
            a = dominant(rng, n)
            b = [rng.randint(-9, 9) for _ in range(n * m)]
            out.append("solve %d %d %s %d %d %s" % (n, m, rng.choice(["const", "inplace", "raw"]), unit(), unit(),
                                                    " ".join(map(str, flat(a) + b))))
            continue
        op = rng.choice(["solve", "solve", "det", "qr", "qr", "rawqr"])
        n = rng.choice([1, 2, 3, 3, 4])
        if op == "solve":
            m = rng.choice([1, 1, 2, 3, 4])
            hi = 3 if n == 4 else 4
            a = special(rng, n, n, hi)
            b = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(m)]
            if n > 1 and rng.random() < 0.15:      # exactly singular, also in floating point arithmetic
                if rng.random() < 0.5:
                    a[rng.randrange(n)] = [0] * n
                else:
                    i, j = rng.sample(range(n), 2)
                    for c in a:
                        c[i] = c[j]
            d = det([list(r) for r in zip(*a)])
            if d == 0 and not (any(not any(c) for c in a) or
                               any(r1 == r2 for i, r1 in enumerate(zip(*a)) for r2 in list(zip(*a))[:i])):
                continue
            out.append("solve %d %d %s %d %d %s" % (n, m, rng.choice(["const", "inplace", "raw"]), unit(), unit(),
                                              " ".join(map(str, flat(a) + flat(b)))))
            continue
        m = rng.choice([1, 2, 3, 4])
        if op == "qr" and m > n:
            continue
        a = special(rng, n, m, 3)
        s = " ".join(map(str, flat(a)))
        if op == "det":
            out.append("det %d %d %d %s" % (n, m, unit(), s))
        elif op == "qr":
            out.append("qr %d %d %s %d %s" % (n, m, rng.choice(["const", "inplace"]), unit(), s))
        else:
            out.append("rawqr %d %d %d %s" % (n, m, unit(), s))
    return out


def lefthanded(ctx, exe):
    """Known finding: the frame of an edge along the first axis is left handed."""
    name, producer = make_job(ctx, exe, "frame", ["qr 3 1 const 0 1 0 0"])
    events, _ = producer(ctx.path("frame.ndjson"))
    q = events[0].get("Q") or [0] * 9
    if det([[q[3 * j + i] for j in range(3)] for i in range(3)]) < 0:
        ctx.known.append("qr_decomp of the 3x1 matrix (1,0,0) returns a matrix Q with determinant -1")


def p16(ctx):
    mc_dense(ctx)
    kinds = ["double", "float"]
    exes = build_jobs(ctx, [("dense_" + t, "dense.cpp", ["-DTY=" + t]) for t in kinds])
    for t, e in zip(kinds, exes):
        jobs = [make_job(ctx, e, "lapack_%s_%d" % (t, p), lapack_lines(ctx.rng, ctx.pick(250, 800), t))
                for p in range(ctx.pick(3, 10))]
        conform(ctx, "DenseAlgebraTrace", jobs, env={"PREC": t, "DIMS": "1,2,3"})
    lefthanded(ctx, exes[0])
    ctx.assumptions += ["LAPACK itself is trusted.",
                        "Matrices have small whole entries; results are compared with relative tolerance 4e-4 "
                        "(double) or 2e-2 (float)."]
