"""P17: long vectors, conjugate gradients, network solves (specification SparseSolve*)."""
from fractions import Fraction
from vlib import *
from p_loops import make_job


def dot(u, v):
    return sum(x * y for x, y in zip(u, v))


def cg_exact(A, b):
    """Squared residual norms of the exact method: used to choose unambiguous inputs only."""
    x, r = [Fraction(0)] * len(b), [Fraction(v) for v in b]
    d, out = r, [dot(r, r)]
    while out[-1] and len(out) < 40:
        z = [dot(row, d) for row in A]
        al = out[-1] / dot(d, z)
        x = [p + al * q for p, q in zip(x, d)]
        r = [p - al * q for p, q in zip(r, z)]
        out.append(dot(r, r))
        d = [p + out[-1] / out[-2] * q for p, q in zip(r, d)]
    return out, x


def spd(rng, n, short=False):
    kind = 0 if short else rng.random()
    A = [[0] * n for _ in range(n)]
    if kind < 0.25:                                  # diagonal, with repetitions: short Krylov spaces
        vals = [rng.randint(1, 6) for _ in range(rng.randint(1, 3))]
        for i in range(n):
            A[i][i] = rng.choice(vals)
    elif kind < 0.45:                                # chain
        for i in range(n):
            A[i][i] = 2 + (rng.random() < 0.3)
            if i:
                A[i][i - 1] = A[i - 1][i] = -1
    else:
        for i in range(n):
            for j in range(i):
                A[i][j] = A[j][i] = rng.randint(-2, 2)
        for i in range(n):
            A[i][i] = sum(map(abs, A[i])) + rng.randint(1, 3)
    return A


def cg_line(rng, flt):
    while True:
        n = rng.choice([1, 2, 2, 3, 3, 4, 5] * 3 + [12, 19])
        A = spd(rng, n, n > 5)
        b = [rng.randint(-4, 4) for _ in range(n)]
        if rng.random() < 0.1:
            b = [0] * n
        if flt == "double" and rng.random() < 0.05:      # a large Krylov space: loads near the end of a chain
            n = rng.choice([9, 10, 12, 14, 16])
            A = [[0] * n for _ in range(n)]
            for i in range(n):
                A[i][i] = 3 if i == n - 1 and rng.random() < 0.5 else 2
                if i:
                    A[i][i - 1] = A[i - 1][i] = rng.choice([-1, -1, -1, 1])
            b = [rng.choice([-4, 2, 3])] + [rng.randint(-1, 1) if i < 2 else 0 for i in range(n - 1)]
        res, x = cg_exact(A, b)
        m = len(res) - 1
        if any(v and v < Fraction(1, 100) for v in res) or any(abs(v) > 500 for v in x):
            continue
        tol, u = 0, rng.choice([1, 1, 10] if flt == "float" else [1, 1, 10, 1000000])
        if u <= 10 and rng.random() < 0.4:
            tol = rng.choice([1, 2, 3, 5, 10, 20] if u > 1 else [3, 5, 10, 20, 40, 60])
            t2 = Fraction(tol * tol * u * u, 100)
            if any(v and Fraction(9, 10) < v / t2 < Fraction(11, 10) for v in res):
                continue
            Ab = [dot(row, b) for row in A]
            bAb, bb = dot(b, Ab), dot(b, b)
            if 100 * sum((p * bAb - q * bb) ** 2 for p, q in zip(b, Ab)) > 2 ** 31 - 1 or tol * tol * u * u * bAb * bAb > 2 ** 31 - 1:
                continue
        its = rng.choice([0, 0, n, n + 2, m, max(m - 1, 0), max(m - 1, 0), 1, 2])
        if its == 0 and n < m:
            continue
        return "cg %d %d %d %d %s %s" % (its, tol, u, n, " ".join(str(v) for r in A for v in r), " ".join(map(str, b)))


def vec_lines(rng, count):
    out, bound = [], [0] * 5
    size = [0] * 5

    def setreg(d, n):
        v = [rng.randint(-5, 5) if n < 9 or rng.random() < (0.3 if n < 50 else 0.05) else 1 for _ in range(n)]
        out.append("set %d %d %s" % (d, n, " ".join(map(str, v))))
        bound[d], size[d] = 5, n
    usual, other = rng.choice([(3, 5), (3, 5), (17, 5), (40, 9), (67, 66), (130, 4), (300, 299)])
    for d in range(1, 5):
        setreg(d, rng.choice([usual, usual, usual, other]))
    while len(out) < count:
        op = rng.choice(["set", "comb", "comb", "into", "into", "into", "dot", "dot", "norm"])
        a, b, d = (rng.randint(1, 4) for _ in range(3))
        if op in ("comb", "into"):
            p, q = rng.choice([-3, -1, 0, 1, 1, 2]), rng.choice([-2, -1, 0, 1, 1, 3])
            bd = abs(p) * bound[a] + abs(q) * bound[b]
            if bd > 1500 or size[a] * bd * bd > 1 << 24:
                op = "set"
            else:
                out.append("%s %d %d %d %d %d" % (op, d, p, a, q, b))
                if size[a] == size[b] and (op == "comb" or size[d] == size[a]):
                    bound[d], size[d] = bd, size[a]
        if op == "dot":
            out.append("dot %d %d" % (a, b))
        elif op == "norm":
            if size[a] * bound[a] ** 2 > 1200 and not (size[a] > 50 and bound[a] == 5):
                setreg(a, rng.choice([0, 1, usual, usual, other]))
            out.append("norm %d" % a)
        elif op == "set":
            setreg(d, rng.choice([0, 1, usual, usual, usual, other]))
    return out


def net_lines(rng, flt):
    n = rng.randint(2, 7)
    edges, comp = [], list(range(n))
    for _ in range(rng.randint(1, n + 3)):
        i, j = rng.randrange(n), rng.randrange(n)
        if i == j:
            continue
        edges.append([i, j, rng.randint(1, 4), rng.randint(-3, 3), rng.randint(-3, 3)])
        a, b = comp[i], comp[j]
        comp = [a if c == b else c for c in comp]
    if not edges:
        return []
    out = ["net %d %d %s" % (n, len(edges), " ".join(str(v) for e in edges for v in e))]
    for _ in range(rng.randint(1, 4)):
        fix = [rng.choice([k for k in range(n) if comp[k] == c]) for c in sorted(set(comp))]
        fix += [rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(fix)
        out.append("fix %d %s" % (len(fix), " ".join(map(str, fix))))
        out += ["netsolve"] * rng.choice([1, 1, 2])
    return out


def p17(ctx):
    model_check(ctx, "SparseSolveMC", expect_actions=["Step"])
    if ctx.thorough:
        model_check(ctx, "SparseSolveMC", cfg="SparseSolveMC3.cfg", expect_actions=["Step"])
    kinds = ["double", "float"]
    exes = build_jobs(ctx, [("sparse_" + t, "sparse.cpp", ["-DFLT=" + t]) for t in kinds])
    for t, e in zip(kinds, exes):
        jobs = []
        for p in range(ctx.pick(3, 8)):
            jobs.append(make_job(ctx, e, "vec_%s_%d" % (t, p), vec_lines(ctx.rng, ctx.pick(150, 400))))
            jobs.append(make_job(ctx, e, "cg_%s_%d" % (t, p),
                                 [cg_line(ctx.rng, t) for _ in range(ctx.pick(200, 800))]))
            jobs.append(make_job(ctx, e, "net_%s_%d" % (t, p),
                                 [x for _ in range(ctx.pick(40, 150)) for x in net_lines(ctx.rng, t)]))
        conform(ctx, "SparseSolveTrace", jobs, env={"PREC": t})
    ctx.assumptions += ["Systems have whole coefficients, at most 7 unknowns and exact solutions below 500; inputs whose exact "
                        "residuals come close to the tolerance are left out.",
                        "Ranks of Krylov matrices are computed modulo 46337."]
