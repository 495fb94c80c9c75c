"""P20, P21: local solvers of the diffusion family (specification LocalSolver*)."""
from fractions import Fraction
from itertools import product
from vlib import *
from p_loops import make_job

SOLVERS = [("Diffusion", "diffusion_ldgh"), ("DiffusionPostprocess", "diffusion_ldgh_pp"),
           ("DiffusionIP", "diffusion_ip"), ("DiffusionUniform", "diffusion_uniform_ldgh")]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


# ---- polynomials: dict from exponents (space..., time) to coefficients
def der(P, d):
    out = {}
    for e, c in P.items():
        if e[d]:
            k = list(e)
            k[d] -= 1
            out[tuple(k)] = out.get(tuple(k), 0) + c * e[d]
    return out


def add(*Ps):
    out = {}
    for c, P in Ps:
        for e, v in P.items():
            out[e] = out.get(e, 0) + c * v
    return {e: v for e, v in out.items() if v}


def mul(P, Q):
    out = {}
    for e, v in P.items():
        for g, w in Q.items():
            k = tuple(a + b for a, b in zip(e, g))
            out[k] = out.get(k, 0) + v * w
    return {e: v for e, v in out.items() if v}


def const(c, N):
    return {(0,) * (N + 1): c} if c else {}


def linear(c, w, N):
    P = const(c, N)
    for d in range(N):
        if w[d]:
            P[tuple(int(k == d) for k in range(N + 1))] = w[d]
    return P


def timed(P, k):
    return {e[:-1] + (e[-1] + k,): v for e, v in P.items()}


def val(P, x, t):
    s = 0
    for e, c in P.items():
        for b, k in zip(list(x) + [t], e):
            c *= b ** k
        s += c
    return s


def show(P, N):
    return "%d %s" % (len(P), " ".join("%d %s" % (c, " ".join(map(str, e))) for e, c in sorted(P.items())))


# ---- shapes
PYTH2 = [(1, 0), (0, 2), (-3, 0), (0, -1), (3, 4), (-4, 3), (4, -3), (-3, -4)]
PYTH3 = [(1, 0, 0), (0, -2, 0), (0, 0, 3), (1, 2, 2), (2, -1, 2), (-2, 2, 1), (0, 3, 4), (-4, 0, 3), (-1, -2, -2)]
ORTH3 = [((1, 2, 2), (2, 1, -2)), ((2, 0, 0), (0, 3, 0)), ((0, 0, 1), (0, -2, 0)), ((3, 4, 0), (0, 0, 2)), ((0, 3, 4), (-1, 0, 0)),
         ((2, -1, 2), (1, -2, -2)), ((0, 1, 0), (0, 0, 1)), ((0, 0, -2), (4, -3, 0))]


def shape(rng, K, N, right=False):
    if K == 1:
        return [rng.choice([(1,), (2,), (-3,), (-1,)] if N == 1 else PYTH2 if N == 2 else PYTH3)]
    if K == 2 and N == 3:
        s = list(rng.choice(ORTH3))
        rng.shuffle(s)
        return s
    while True:
        if right:
            s = [tuple(rng.choice([-3, -2, -1, 1, 2, 3]) if d == k else 0 for d in range(N)) for k in range(K)]
            if K == 2 and rng.random() < 0.3:
                s = [(3, 4), (-4, 3)]
            rng.shuffle(s)
            return s
        m = 2 if K == 3 else 3
        s = [tuple(rng.randint(-m, m) for _ in range(N)) for _ in range(K)]
        if K == 2:
            det = s[0][0] * s[1][1] - s[0][1] * s[1][0]
        else:
            det = sum(s[0][i] * (s[1][(i + 1) % 3] * s[2][(i + 2) % 3] - s[1][(i + 2) % 3] * s[2][(i + 1) % 3]) for i in range(3))
        if det and abs(det) <= 12:
            return s


def tform(K, N, span, g, h):
    """sum over the tangential directions of products of polynomials g[i] * h[j]"""
    if K == N:
        return add(*[(1, mul(g[d], h[d])) for d in range(N)])
    parts = []
    for a in span:
        ga = add(*[(a[d], g[d]) for d in range(N)])
        ha = add(*[(a[d], h[d]) for d in range(N)])
        parts.append((Fraction(1, dot(a, a)), mul(ga, ha)))
    return add(*parts)


def lap(K, N, span, u):
    H = [[der(der(u, i), j) for j in range(N)] for i in range(N)]
    if K == N:
        return add(*[(1, H[d][d]) for d in range(N)])
    return add(*[(Fraction(a[i] * a[j], dot(a, a)), H[i][j]) for a in span for i in range(N) for j in range(N)])


HARM = {1: [{(1,): 1}], 2: [{(1, 0): 1}, {(0, 1): 1}, {(1, 1): 1}, {(2, 0): 1, (0, 2): -1}, {(3, 0): 1, (1, 2): -3}, {(2, 1): 3, (0, 3): -1}],
        3: [{(1, 0, 0): 1}, {(0, 0, 1): 1}, {(0, 1, 0): 1}, {(1, 1, 0): 1}, {(0, 1, 1): 1}, {(1, 0, 1): 1}, {(2, 0, 0): 1, (0, 0, 2): -1},
            {(0, 2, 0): 1, (0, 0, 2): -1}]}


def deg(P):
    return max([sum(e[:-1]) for e in P] + [0])


def cell(rng, solver, K, N, p, fixed=True, right=False):
    """A hyperedge with a polynomial solution of degree at most p."""
    while True:
        tau, t = rng.randint(1, 5), rng.choice([0, 1, 2, 3])
        if solver == "DiffusionUniform":
            span = [tuple(int(k == d) for d in range(N)) for k in range(K)]
            org, types = [0] * N, [0] * (2 * K)
            u = const(rng.randint(-3, 3), N)
            for P in HARM[K]:
                if max(map(sum, P)) <= p:
                    c = rng.randint(-2, 2)
                    u = add((1, u), (c, {e + (rng.choice([0, 0, 1]),) * 1: v for e, v in P.items()} if rng.random() < 0.0
                                     else timed({e + (0,): v for e, v in P.items()}, rng.choice([0, 0, 1]))))
            kinv, dif, f = const(1, N), const(1, N), {}
        else:
            span, org = shape(rng, K, N, right), [rng.randint(-2, 2) for _ in range(N)]
            types = [rng.choice([0, 0, 1, 2, 3, 4]) if fixed else rng.choice([0, 0, 2, 3]) for _ in range(2 * K)]
            kinv, dif = const(rng.choice([1, 1, 2, 3]), N), const(1, N)
            corners = [[2 * org[d] + 2 * sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
            low = lambda w: min(dot(w, c) // 2 for c in corners)
            kind = rng.random()
            w = [rng.randint(-1, 1) for _ in range(N)]
            if solver != "DiffusionIP" and p >= 2 and kind < 0.35 and any(w):
                l1, c0 = 2, rng.choice([-1, 1, 2])
                l0 = 1 - l1 * low(w) + rng.randint(0, 2)
                s = linear(0, w, N)
                kt = rng.choice([0, 1]) if t else 0
                kinv = timed(add((1, const(l0, N)), (l1, s)), kt)
                u = timed(add((-c0 * l0, s), (-c0 * l1 // 2, mul(s, s))), kt)
                u = add((1, u), (rng.randint(-3, 3), const(1, N)))
                f = {}
            else:
                if solver == "DiffusionIP" and kind < 0.5:
                    kt = rng.choice([0, 1]) if t else 0
                    dif = timed(linear(1 - low(w) + rng.randint(0, 2), w, N), kt)
                elif solver != "DiffusionPostprocess" and solver != "Diffusion":
                    dif = const(rng.choice([1, 2]), N)
                elif kind < 0.6 and t:
                    kinv = timed(kinv, 1)
                u = const(rng.randint(-3, 3), N)
                for e in product(range(p + 1), repeat=N):
                    if 0 < sum(e) <= p and rng.random() < (0.7 if p == 1 else 0.4):
                        u = add((1, u), (rng.randint(-2, 2), {e + (rng.choice([0, 0, 1]),): 1}))
                g = [der(u, d) for d in range(N)]
                k0 = val(kinv, org, t)
                f = add((-1, mul(dif, lap(K, N, span, u))), (-1, tform(K, N, span, [der(dif, d) for d in range(N)], g)))
                f = {e: Fraction(c) / k0 for e, c in f.items()}
                m = 1
                for c in f.values():
                    while (c * m).denominator != 1:
                        m += 1
                if m > 12:
                    continue
                u = {e: c * m for e, c in u.items()}
                f = {e: int(c * m) for e, c in f.items()}
            if solver == "DiffusionIP":
                top = max(val(dif, [c[d] / 2 for d in range(N)], t) for c in corners)
                tau = int(20 * top * (p + 1) ** 2) + rng.randint(0, 5)
        if deg(f) > 2 or deg(u) > 3:
            continue
        v = add((1, u), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(N)], N)))
        pts = [[org[d] + sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
        if max(abs(val(u, x, t)) for x in pts) > 2000:
            continue
        return "cell %d %d %s %s %s %d %d %s" % (
            p, N, " ".join(map(str, org)), " ".join(str(c) for s in span for c in s), " ".join(map(str, types)), tau, t,
            " ".join(show(P, N) for P in (u, kinv, dif, f, v)))


def plain(rng, solver, K, N, p, fixed):
    """A hyperedge with constant data and no particular solution."""
    if solver == "DiffusionUniform":
        return cell(rng, solver, K, N, p)
    right = rng.random() < 0.6
    span, org = shape(rng, K, N, right), [rng.randint(-2, 2) for _ in range(N)]
    types = [rng.choice([0, 1, 2, 3, 4]) if fixed else rng.choice([0, 0, 2, 3]) for _ in range(2 * K)]
    kinv, dif, f = rng.randint(1, 3), 1, rng.choice([0, 0, 1, -2, 3])
    tau = rng.randint(1, 5)
    if solver == "DiffusionIP":
        dif, tau = rng.randint(1, 2), 20 * 2 * (p + 1) ** 2
    u = linear(rng.randint(-3, 3), [rng.randint(-2, 2) for _ in range(N)], N)
    return "cell %d %d %s %s %s %d %d %s" % (
        p, N, " ".join(map(str, org)), " ".join(str(c) for s in span for c in s), " ".join(map(str, types)), tau, rng.randint(0, 2),
        " ".join(show(P, N) for P in (u, const(kinv, N), const(dif, N), const(f, N), {})))


def dims(solver, K):
    return [K] if solver == "DiffusionUniform" else list(range(K, 4))


def pmax(K):
    return 2 if K == 3 else 3


def exact_lines(rng, solver, K, count):
    out = []
    for i in range(count):
        N = rng.choice(dims(solver, K))
        p = rng.choice(range(pmax(K) + 1))
        if K == 3:
            p = rng.choice([0, 1, 1, 1, 2])
        out.append(cell(rng, solver, K, N, p, fixed=rng.random() < 0.6))
        ops = ["flux", "bulk " + rng.choice(["3 0 1 2", "3 0 1 2", "2 2 1", "1 1", "3 2 0 1"])] + (["err", "types"] if solver != "DiffusionUniform" else [])
        if K == 3 and p == 2:
            ops = [rng.choice(ops)]
        out += ops
    return out


def struct_lines(rng, solver, K, count):
    out = []
    for i in range(count):
        N = rng.choice(dims(solver, K))
        p = rng.choice([0, 0, 1, 2, 3]) if K < 3 else rng.choice([0, 0, 1, 1, 2] if i % 6 == 0 else [0, 1])
        n = 2 * K * (p + 1) ** (K - 1)
        fixed = rng.random() < 0.25
        out.append(plain(rng, solver, K, N, p, fixed))
        for _ in range(rng.choice([1, 2, 3])):
            m = rng.choice([1, 3])
            lam = [rng.randint(-m, m) for _ in range(n)]
            if rng.random() < 0.15:
                c = rng.randint(-3, 3)
                lam = [c if j % ((p + 1) ** (K - 1)) == 0 else 0 for j in range(n)]
            out.append("any %d %s" % (n, " ".join(map(str, lam))))
        if n <= 24 and rng.random() < 0.5:
            out.append("matrix")
        if solver == "Diffusion" and rng.random() < 0.5:
            types, nb = out_types(out, K), n // (2 * K)
            out.append("mass %d %s %d %s" % (n, " ".join(str(rng.randint(-3, 3)) for _ in range(n)), n,
                                             " ".join("0" if types[j // nb] in "14" else str(rng.randint(-2, 2)) for j in range(n))))
    return out


def out_types(out, K):
    """Types of the faces of the last cell."""
    x = [line for line in out if line.startswith("cell")][-1].split()
    N = int(x[2])
    return x[3 + N + K * N:][:2 * K]


def step_cell(rng, K, N, p, fixed):
    """A hyperedge with a solution that is linear in time."""
    while True:
        tau, theta, dt = rng.randint(1, 5), rng.choice([1, 2, 2, 3, 4, 4]), rng.choice([1, 1, 2])
        t0 = rng.choice([0, 1, 2])
        span, org = shape(rng, K, N, p == 0), [rng.randint(-2, 2) for _ in range(N)]
        types = [rng.choice([0, 0, 1, 2, 3, 4]) if fixed else rng.choice([0, 0, 2, 3]) for _ in range(2 * K)]
        corners = [[org[d] + sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
        kinv, kind = const(rng.randint(1, 3), N), rng.random()
        w = [rng.randint(-1, 1) for _ in range(N)]
        u1 = const(rng.randint(-3, 3), N)
        if p >= 2 and kind < 0.25 and any(w):
            l1, c0 = 2, rng.choice([-1, 1, 2])
            l0 = 1 - l1 * min(dot(w, c) for c in corners) + rng.randint(0, 2)
            s = linear(0, w, N)
            kinv = add((1, const(l0, N)), (l1, s))
            u0 = add((-c0 * l0, s), (-c0 * l1 // 2, mul(s, s)))
            f = u1
        elif kind < 0.45:
            t0 = max(t0, 1)
            kinv = timed(kinv, 1)
            u0 = linear(rng.randint(-3, 3), [rng.randint(-2, 2) for _ in range(N)], N) if p else const(2, N)
            u1 = linear(rng.randint(-3, 3), [rng.randint(-1, 1) for _ in range(N)], N) if p else u1
            f = u1
        else:
            u0, affine = const(rng.randint(-3, 3), N), rng.random() < 0.5
            for e in product(range(p + 1), repeat=N):
                if 0 < sum(e) <= p:
                    if rng.random() < (0.7 if p == 1 else 0.4):
                        u0 = add((1, u0), (rng.randint(-2, 2), {e + (0,): 1}))
                    if rng.random() < 0.3 and (sum(e) == 1 or not affine):
                        u1 = add((1, u1), (rng.randint(-2, 2), {e + (0,): 1}))
            u = add((1, u0), (1, timed(u1, 1)))
            f = add((Fraction(-1, val(kinv, org, 1)), lap(K, N, span, u)))
            m = 1
            for c in f.values():
                while (Fraction(c) * m).denominator != 1:
                    m += 1
            if m > 6:
                continue
            u0, u1 = {e: c * m for e, c in u0.items()}, {e: c * m for e, c in u1.items()}
            f = add((1, u1), (1, {e: int(c * m) for e, c in f.items()}))
        u = add((1, u0), (1, timed(u1, 1)))
        f = {e: int(c) for e, c in f.items()}
        if deg(f) > 3 or deg(u) > p or max(abs(val(u, x, t0 + 6)) for x in corners) > 400 or max(abs(val(f, x, t0 + 6)) for x in corners) > 400:
            continue
        v = add((1, u), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(N)], N)))
        line = "cell %d %d %s %s %s %d %d %s %d %d" % (
            p, N, " ".join(map(str, org)), " ".join(str(c) for s in span for c in s), " ".join(map(str, types)), tau, t0,
            " ".join(show(P, N) for P in (u, kinv, const(1, N), f, v)), theta, dt)
        return line, t0, dt, deg(u1) <= 1


def step_lines(rng, K, count):
    out = []
    for i in range(count):
        N = rng.choice(range(K, 4))
        p = rng.choice([0, 1, 1, 2, 3]) if K < 3 else rng.choice([0, 1])
        line, t, dt, affine = step_cell(rng, K, N, p, rng.random() < 0.5)
        out += [line, "init %d" % t]
        n = 2 * K * (p + 1) ** (K - 1)
        for _ in range(rng.choice([1, 2, 3])):
            for op in rng.sample(["step", "bulk", "err", "step"], rng.choice([1, 2, 3])):
                out.append("%s %d" % (op, t + (rng.choice([0, 1, dt]) if affine else 0) if op == "err" else t + dt))
            if rng.random() < 0.2 and n <= 16:
                out.append("matrix %d" % (t + dt))
            t += dt
            out.append("set %d" % t)
        out.append("err %d" % t)
        for _ in range(rng.choice([0, 1, 3])):
            t += dt
            m = rng.choice([1, 4])
            out.append("rough %d %d %s" % (t, n, " ".join(str(rng.randint(-m, m)) for _ in range(n))))
        if rng.random() < 0.3:
            out.append("init %d" % rng.choice([1, 2]))
            if rng.random() < 0.5:
                t = int(out[-1].split()[1]) + dt
                out += ["step %d" % t, "set %d" % t, "step %d" % (t + dt)]
    return out


def eigs_lines(rng, K, count):
    out = []
    for i in range(count):
        N = rng.choice(range(K, 4))
        p = rng.choice([0, 1, 1, 2, 3]) if K < 3 else rng.choice([0, 1])
        fixed = rng.random() < 0.3
        span, org = shape(rng, K, N, rng.random() < 0.5), [rng.randint(-2, 2) for _ in range(N)]
        types = [rng.choice([0, 0, 1, 2, 4]) if fixed else rng.choice([0, 0, 2, 3]) for _ in range(2 * K)]
        tau, k0 = rng.randint(1, 5), rng.randint(1, 3)
        kinv, w = const(k0, N), [rng.randint(-1, 1) for _ in range(N)]
        corners = [[org[d] + sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
        u = linear(rng.randint(-3, 3), [rng.randint(-2, 2) for _ in range(N)] if p else [0] * N, N)
        top = k0
        if p >= 2 and rng.random() < 0.4 and any(w):
            l1, c0 = 2, rng.choice([-1, 1, 2])
            l0 = 1 - l1 * min(dot(w, c) for c in corners)
            s = linear(0, w, N)
            kinv = add((1, const(l0, N)), (l1, s))
            u = add((-c0 * l0, s), (-c0 * l1 // 2, mul(s, s)), (rng.randint(-3, 3), const(1, N)))
            top = max(val(kinv, c, 0) for c in corners)
        elif p >= 2 and K == N:
            for P in HARM[K]:
                if max(map(sum, P)) <= p:
                    u = add((1, u), (rng.randint(-1, 1), {e + (0,): c for e, c in P.items()}))
        u = add((1, u), (rng.randint(-2, 2), {(0,) * N + (1,): 1}))
        out.append("cell %d %d %s %s %s %d %d %s" % (
            p, N, " ".join(map(str, org)), " ".join(str(c) for s in span for c in s), " ".join(map(str, types)), tau, 0,
            " ".join(show(P, N) for P in (u, kinv, const(1, N), {}, {}))))
        nb = (p + 1) ** (K - 1)
        n = 2 * K * nb
        long2 = sum(max(dot(a, a) for a in span) for _ in range(1))
        lim = int(8 * 2 / (top * long2)) if p else 0
        low = rng.choice([-4, -16])
        eig = lambda: rng.choice([0, lim, rng.randint(low, lim), rng.randint(low, lim)])
        vec = lambda: "%d %s" % (n, " ".join(str(rng.randint(-3, 3)) for _ in range(n)))
        free = lambda: "%d %s" % (n, " ".join("0" if types[j // nb] in (1, 4) else str(rng.randint(-2, 2)) for j in range(n)))
        if not any(k in (1, 4) for k in types):
            out += ["flux", "bulk"]
        if rng.random() < 0.4:
            out += ["types", "init %d" % rng.randint(0, 2)]
        for _ in range(2):
            out.append("pair %d %d %s %s" % (eig(), eig(), vec(), free()))
            out.append("jac %d %d %s %s %s" % (eig(), rng.choice([0, 8, -4, 16, 3]), vec(), vec(), free()))
    return out


def run_local(ctx, gen, quick, deep):
    combos = [(s, h, K) for s, h in SOLVERS for K in (1, 2, 3)]
    exes = build_jobs(ctx, [("loc_%s_%d" % (s, K), "local.cpp",
                             ["-DNDEBUG", "-DSOLVER=" + s, "-DKD=%d" % K, "-DUNIFORM=%d" % (s == "DiffusionUniform"),
                              "-DHEADER=<HyperHDG/local_solver/%s.hxx>" % h]
                             + (["-DMASS=1"] if s == "Diffusion" else [])) for s, h, K in combos])
    for s, _ in SOLVERS:
        jobs = []
        for (s2, _, K), e in zip(combos, exes):
            if s2 == s:
                for q in range(ctx.pick(1, 6)):
                    jobs.append(make_job(ctx, e, "%s_%d_%d" % (s, K, q), gen(ctx.rng, s, K, ctx.pick(quick, deep)[K - 1])))
        conform(ctx, "LocalSolverTrace", jobs, env={"SOLVER": s})


def model(ctx):
    # without action counts (their set-up takes TLC minutes here); there is one action only
    model_check(ctx, "LocalSolverMC", coverage=False)
    if ctx.thorough:
        model_check(ctx, "LocalSolverMC", cfg="LocalSolverMC3.cfg", coverage=False)


def p20(ctx):
    model(ctx)
    run_local(ctx, exact_lines, (60, 40, 12), (150, 100, 30))


def p21(ctx):
    model(ctx)
    run_local(ctx, struct_lines, (60, 40, 16), (150, 100, 40))


def run_kind(ctx, src, module, gen, quick, deep):
    exes = build_jobs(ctx, [("%s_%d" % (src, K), src + ".cpp", ["-DNDEBUG", "-DKD=%d" % K]) for K in (1, 2, 3)])
    jobs = []
    for K, e in zip((1, 2, 3), exes):
        for q in range(ctx.pick(2, 8)):
            jobs.append(make_job(ctx, e, "%s_%d_%d" % (src, K, q), gen(ctx.rng, K, ctx.pick(quick, deep))))
    conform(ctx, module, jobs)


def p22(ctx):
    model_check(ctx, "LocalStepMC", cfg=ctx.pick("LocalStepMC.cfg", "LocalStepMC2.cfg"), coverage=False)
    run_kind(ctx, "localstep", "LocalStepTrace", step_lines, 60, 200)


def p23(ctx):
    model_check(ctx, "LocalEigsMC", cfg=ctx.pick("LocalEigsMC.cfg", "LocalEigsMC2.cfg"), coverage=False)
    run_kind(ctx, "localeigs", "LocalEigsTrace", eigs_lines, 60, 200)


# ---- the bilaplacian family
PLATES = [("flat", 0), ("unit", 1), ("eigs", 2), ("step", 3)]


def whole(*Ps):
    """smallest factor that makes all coefficients integers"""
    m = 1
    for P in Ps:
        for c in P.values():
            while (Fraction(c) * m).denominator != 1:
                m += 1
    return m


def times(m, P):
    return {e: int(c * m) for e, c in P.items()}


def plate_cell(rng, kind, K, N, p, types):
    """A hyperedge with polynomials -lap u = kinv w, -lap w = f (minus u_t when stepping)."""
    while True:
        tau, dt, t = rng.randint(1, 4), rng.choice([1, 1, 2]), 0 if kind == "eigs" else rng.choice([0, 1, 2])
        span, org = shape(rng, K, N), [rng.randint(-2, 2) for _ in range(N)]
        if kind == "unit":
            span, org = [tuple(int(k == d) for d in range(N)) for k in range(K)], [0] * N
        corners = [[org[d] + sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
        k0 = 1 if kind == "unit" else rng.choice([1, 1, 2, 3])
        kinv, a = const(k0, N), [rng.randint(-1, 1) for _ in range(N)]
        s = linear(0, a, N)
        top = 3 if kind in ("unit", "eigs", "step") else 4
        if kind != "unit" and p >= 3 and rng.random() < 0.35 and any(a):
            l0 = 1 - 2 * min(dot(a, c) for c in corners) + rng.randint(0, 2)
            kinv = add((1, const(l0, N)), (2, s))
            c0 = rng.choice([-1, 1])
            u = add((-3 * c0 * l0, mul(s, s)), (-2 * c0, mul(s, mul(s, s))), (1, linear(rng.randint(-3, 3), [rng.randint(-2, 2) for _ in range(N)], N)))
            w = {e: 6 * c0 * c / 2 for e, c in lap(K, N, span, mul(s, s)).items()}
        else:
            u = const(rng.randint(-3, 3), N)
            for e in product(range(p + 1), repeat=N):
                if 0 < sum(e) <= min(p, top) and rng.random() < (0.7 if p == 1 else 0.4):
                    u = add((1, u), (rng.randint(-2, 2), {e + (rng.choice([0, 0, 1]),): 1}))
            w = add((Fraction(-1, k0), lap(K, N, span, u)))
        f = add((-1, lap(K, N, span, w)))
        if kind == "step":
            f = add((1, f), (1, {e[:-1] + (0,): c for e, c in u.items() if e[-1]}))
        m = whole(u, w, f)
        if m > 12:
            continue
        u, w, f = times(m, u), times(m, w), times(m, f)
        if deg(w) > 2 or deg(f) > 3 or deg(u) > p or deg(w) > p:
            continue
        late = t + (6 if kind == "step" else 0)
        lim = 400 if kind == "step" else 2000
        if any(max(abs(val(P, x, late)) for x in corners) > lim for P in (u, w, f)):
            continue
        v = add((1, u), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(N)], N)))
        return "cell %d %d %s %s %s %d %d %s %d" % (
            p, N, " ".join(map(str, org)), " ".join(str(c) for q in span for c in q), " ".join(map(str, types)), tau, t,
            " ".join(show(P, N) for P in (u, kinv, w, f, v)), dt), t, dt


def plate_plain(rng, kind, K, N, p, types):
    span, org = shape(rng, K, N, rng.random() < 0.6), [rng.randint(-2, 2) for _ in range(N)]
    kinv, f = rng.randint(1, 3), rng.choice([0, 0, 1, -2, 3])
    if kind == "unit":
        span, org, kinv, f = [tuple(int(k == d) for d in range(N)) for k in range(K)], [0] * N, 1, 0
    u = linear(rng.randint(-3, 3), [rng.randint(-2, 2) if p else 0 for _ in range(N)], N)
    w = linear(rng.randint(-3, 3), [rng.randint(-2, 2) if p else 0 for _ in range(N)], N)
    if kind == "eigs":
        f = 0
    line = "cell %d %d %s %s %s %d %d %s %d" % (
        p, N, " ".join(map(str, org)), " ".join(str(c) for q in span for c in q), " ".join(map(str, types)), rng.randint(1, 4), 0,
        " ".join(show(P, N) for P in (u, const(kinv, N), w, const(f, N), {})), rng.choice([1, 2]))
    return line, kinv * max(dot(a, a) for a in span) ** 2


def plate_types(rng, kind, K):
    if kind == "unit":
        return [0] * (2 * K)
    r = rng.random()
    return [rng.choice([0, 3] if r < 0.45 else [0, 3, 4] if r < 0.6 else [0, 0, 1, 2, 3, 4]) for _ in range(2 * K)]


def plate_lines(rng, kind, K, count):
    out = []
    top = {1: 4, 2: 3, 3: 1}[K]
    for i in range(count):
        N = K if kind == "unit" else rng.choice(range(K, 4))
        p = rng.choice([0, 0] + list(range(top + 1)) + [top, top])
        types = plate_types(rng, kind, K)
        nb = (p + 1) ** (K - 1)
        n = 4 * K * nb
        m = rng.choice([1, 3])
        vec = lambda: "%d %s" % (n, " ".join(str(rng.randint(-m, m)) for _ in range(n)))

        def free():
            x = []
            for j in range(n):
                y, second = types[j // (2 * nb)], j % (2 * nb) >= nb
                x.append("0" if y == 4 or y == (2 if second else 1) else str(rng.randint(-2, 2)))
            return "%d %s" % (n, " ".join(x))
        if kind == "step":
            line, t, dt = plate_cell(rng, kind, K, N, min(p, 3), types)
            if p > 3:
                p, nb = 3, 4 ** (K - 1)
                n = 4 * K * nb
            out += [line, "init %d" % t]
            for _ in range(rng.choice([1, 2, 3])):
                for op in rng.sample(["flux", "bulk", "err", "flux"], rng.choice([1, 2, 3])):
                    out.append("%s %d%s" % (op, t + dt, " 3 0 1 2" if op == "bulk" else ""))
                if rng.random() < 0.2 and n <= 24:
                    out.append("matrix %d" % (t + dt))
                t += dt
                out.append("set %d" % t)
            for _ in range(rng.choice([0, 1, 3])):
                t += dt
                out.append("rough %d %s" % (t, vec()))
            continue
        if rng.random() < 0.5 and not (kind == "eigs" and any(k in (1, 2, 4) for k in types)):
            line, t, dt = plate_cell(rng, kind, K, N, p, types)
            out += [line, "flux %d" % t, "bulk %d %s" % (t, rng.choice(["3 0 1 2", "3 0 1 2", "2 2 1", "1 1", "3 2 0 1"]))]
            if kind == "flat":
                out += ["err %d" % t, "types 0"]
            if kind == "eigs" and p < 4:
                out += ["types 0", "init %d" % rng.randint(0, 2)]
            continue
        line, stiff = plate_plain(rng, kind, K, N, p, types)
        out.append(line)
        if kind == "eigs":
            if p < 4:
                out.append("init %d" % rng.randint(0, 2))
            lim = int(8 * 20 / stiff) if p else 0
            low = rng.choice([-4, -16])
            eig = lambda: rng.choice([0, lim, rng.randint(low, lim), rng.randint(low, lim)])
            for _ in range(2):
                out.append("pair 0 %d %d %s %s" % (eig(), eig(), vec(), free()))
                out.append("jac 0 %d %d %s %s %s" % (eig(), rng.choice([0, 8, -4, 16, 3]), vec(), vec(), free()))
        else:
            for _ in range(rng.choice([1, 2])):
                lam = vec()
                if rng.random() < 0.3:
                    x = lam.split()
                    lam = " ".join([x[0]] + ["0" if j % (2 * nb) >= nb else c for j, c in enumerate(x[1:])])
                out.append("any 0 %s" % lam)
            if kind == "flat":
                out.append("mass 0 %s %s" % (vec(), free()))
        if n <= 24 and rng.random() < 0.5:
            out.append("matrix %d" % (rng.choice([0, -1]) if kind == "eigs" else 0))
    return out


def p24(ctx):
    model_check(ctx, "LocalPlateMC", coverage=False)
    if ctx.thorough:
        model_check(ctx, "LocalPlateMC", cfg="LocalPlateMC2.cfg", coverage=False)
    combos = [(k, i, K) for k, i in PLATES for K in (1, 2, 3)]
    exes = build_jobs(ctx, [("plate_%s_%d" % (k, K), "localplate.cpp", ["-DNDEBUG", "-DKIND=%d" % i, "-DKD=%d" % K])
                            for k, i, K in combos])
    for k, _ in PLATES:
        jobs = []
        for (k2, _, K), e in zip(combos, exes):
            if k2 == k:
                for q in range(ctx.pick(1, 6)):
                    jobs.append(make_job(ctx, e, "%s_%d_%d" % (k, K, q),
                                         plate_lines(ctx.rng, k, K, ctx.pick((80, 50, 25), (200, 120, 60))[K - 1])))
        conform(ctx, "LocalPlateTrace", jobs, env={"KIND": k})


# ---- diffusion, advection, reaction
def flow_cell(rng, K, N, p, fixed):
    """A hyperedge with polynomials kinv q = - grad u + b u, f = div q + c u."""
    while True:
        tau, t = rng.randint(2, 8), rng.choice([0, 1, 2, 3])
        span, org = shape(rng, K, N), [rng.randint(-2, 2) for _ in range(N)]
        types = [rng.choice([0, 0, 1, 2, 3, 4]) if fixed else rng.choice([0, 0, 2, 3]) for _ in range(2 * K)]
        corners = [[org[d] + sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
        w = [rng.randint(-1, 1) for _ in range(N)]
        vel = [const(rng.randint(-1, 1), N) if rng.random() < 0.8 else {} for _ in range(N)]
        c = const(rng.randint(1, 3), N) if rng.random() < 0.6 else {}
        if c and t and rng.random() < 0.4:
            c = timed(c, 1)
        elif c and rng.random() < 0.3 and any(w):
            c = linear(rng.randint(0, 2) - min(dot(w, x) for x in corners), w, N)
        kind = rng.random()
        if kind < 0.3 and p >= 2 and any(w):
            l0, c0 = 1 - 2 * min(dot(w, x) for x in corners) + rng.randint(0, 2), rng.choice([-1, 1])
            s, kt = linear(0, w, N), rng.choice([0, 1]) if t else 0
            kinv = timed(add((1, const(l0, N)), (2, s)), kt)
            u = add((-c0 * l0, s), (-c0, mul(s, s)), (rng.randint(-3, 3), const(1, N)))
            u = timed(u, kt)
            b = [mul(kinv, v) for v in vel]
            q = [add((c0 * w[d], const(1, N)), (1, mul(vel[d], u))) for d in range(N)]
        else:
            k0, kt = rng.choice([1, 1, 2]), rng.choice([0, 0, 1]) if t else 0
            kinv, b = timed(const(k0, N), kt), vel
            db = 0
            if p >= 1 and rng.random() < 0.35:
                b, db = [add((1, v), (1, linear(0, [rng.randint(-1, 1) for _ in range(N)], N))) if rng.random() < 0.6 else v for v in b], 1
            if t and rng.random() < 0.4:
                b = [timed(v, 1) if rng.random() < 0.7 else v for v in b]
            u = const(rng.randint(-3, 3), N)
            for e in product(range(p + 1), repeat=N):
                if 0 < sum(e) <= p - db and rng.random() < (0.7 if p == 1 else 0.4):
                    u = add((1, u), (rng.randint(-2, 2), {e + (rng.choice([0, 0, 1]),): 1}))
            q = [add((-1, der(u, d)), (1, mul(b[d], u))) for d in range(N)]
            u = {e: k0 * x for e, x in timed(u, kt).items()}
        f = add((1, mul(c, u)))
        if K == N:
            for d in range(N):
                f = add((1, f), (1, der(q[d], d)))
        else:
            for a in span:
                for d in range(N):
                    for e in range(N):
                        if a[d] * a[e]:
                            f = add((1, f), (Fraction(a[d] * a[e], dot(a, a)), der(q[d], e)))
        m = whole(f)
        if m > 12:
            continue
        u, f, q = times(m, u), times(m, f), [times(m, x) for x in q]
        if deg(f) > 4 or deg(u) > min(p, 3) or max(map(deg, q)) > min(p, 3) or max(map(deg, b)) > 2 or deg(kinv) > 2:
            continue
        if any(max(abs(val(P, x, t)) for x in corners) > 500 for P in [u, f] + q) or max(abs(val(P, x, t)) for x in corners for P in b) > 8:
            continue
        v = add((1, u), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(N)], N)))
        return "cell %d %d %s %s %s %d %d %s" % (
            p, N, " ".join(map(str, org)), " ".join(str(x) for s in span for x in s), " ".join(map(str, types)), tau, t,
            " ".join(show(P, N) for P in [u, kinv, const(1, N), f, v] + b + [c] + q))


def flow_plain(rng, K, N, p, fixed):
    span, org = shape(rng, K, N, rng.random() < 0.6), [rng.randint(-2, 2) for _ in range(N)]
    types = [rng.choice([0, 1, 2, 3, 4]) if fixed else rng.choice([0, 0, 2, 3]) for _ in range(2 * K)]
    u = linear(rng.randint(-3, 3), [rng.randint(-2, 2) for _ in range(N)], N)
    b = [const(rng.randint(-1, 1), N) for _ in range(N)] if rng.random() < 0.7 else [{}] * N
    c = const(rng.randint(1, 3), N) if rng.random() < 0.5 else {}
    return "cell %d %d %s %s %s %d %d %s" % (
        p, N, " ".join(map(str, org)), " ".join(str(x) for s in span for x in s), " ".join(map(str, types)), rng.randint(1, 5), rng.randint(0, 2),
        " ".join(show(P, N) for P in [u, const(rng.randint(1, 3), N), const(1, N), const(rng.choice([0, 0, 1, -2, 3]), N), {}] + b + [c] + [{}] * N))


def flow_lines(rng, K, count):
    out = []
    for i in range(count):
        N = rng.choice(range(K, 4))
        p = rng.choice([0, 1, 2, 2, 3, 3]) if K < 3 else rng.choice([0, 1, 1, 1, 2])
        fixed = rng.random() < 0.5
        if rng.random() < 0.55:
            out.append(flow_cell(rng, K, N, p, fixed))
            ops = ["flux", "bulk " + rng.choice(["3 0 1 2", "2 2 1", "1 1", "3 2 0 1"]), "err", "types"]
            out += [rng.choice(ops)] if K == 3 and p == 2 else ops
            continue
        if K == 3:
            p = rng.choice([0, 0, 1])
        out.append(flow_plain(rng, K, N, p, fixed and rng.random() < 0.5))
        types = out_types(out, K)
        nb = (p + 1) ** (K - 1)
        n = 2 * K * nb
        m = rng.choice([1, 3])
        vec = lambda: "%d %s" % (n, " ".join(str(rng.randint(-m, m)) for _ in range(n)))
        out.append("any " + vec())
        if rng.random() < 0.6:
            out.append("mass %s %d %s" % (vec(), n, " ".join("0" if types[j // nb] in "14" else str(rng.randint(-2, 2)) for j in range(n))))
        if n <= 24 and rng.random() < 0.5:
            out.append("matrix")
    return out


def p25(ctx):
    model_check(ctx, "LocalFlowMC", cfg=ctx.pick("LocalFlowMC.cfg", "LocalFlowMC2.cfg"), coverage=False)
    exes = build_jobs(ctx, [("flow_%d" % K, "local.cpp",
                             ["-DNDEBUG", "-DSOLVER=DiffusionAdvectionReaction", "-DKD=%d" % K, "-DUNIFORM=0", "-DFLOW=1",
                              "-DHEADER=<HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>"]) for K in (1, 2, 3)])
    jobs = []
    for K, e in zip((1, 2, 3), exes):
        for q in range(ctx.pick(2, 10)):
            jobs.append(make_job(ctx, e, "flow_%d_%d" % (K, q), flow_lines(ctx.rng, K, ctx.pick((80, 60, 40), (200, 150, 80))[K - 1])))
    conform(ctx, "LocalFlowTrace", jobs)


# ---- beams in space
def cross(a, w):
    return [add((a[(k + 1) % 3], w[(k + 2) % 3]), (-a[(k + 2) % 3], w[(k + 1) % 3])) for k in range(3)]


def beam_head(rng, p, fixed):
    a, org = rng.choice(PYTH3), [rng.randint(-2, 2) for _ in range(3)]
    types, props, C, D = [rng.choice([0, 0, 1, 2, 4] if fixed else [0, 0, 2, 3]) for _ in range(2)], [], [1] * 3, [1] * 3
    free = [d for d in range(3) if a[d] == 0]
    if len(free) == 2 and rng.random() < 0.5:
        rng.shuffle(free)
        props = [rng.randint(1, 4) for _ in range(6)]
        for o, w in ((0, C), (3, D)):
            w[3 - sum(free)], w[free[0]], w[free[1]] = props[o:o + 3]
        for d in free:
            sign = rng.choice([-1, 1])
            props += [sign * (k == d) for k in range(3)]
    return a, org, C, D, "cell %d %s %s %s %d %d %s " % (
        p, " ".join(map(str, org)), " ".join(map(str, a)), " ".join(map(str, types)), rng.randint(1, 5), len(props), " ".join(map(str, props)))


def beam_cell(rng, p, fixed):
    """An edge with polynomials n = -C (u' + s t x phi), n' = f_n, m = -D phi', m' + s t x n = f_m."""
    while True:
        a, org, C, D, head = beam_head(rng, p, fixed)
        s, LL = (1 if a[1] == a[2] == 0 else -1), dot(a, a)
        d1 = lambda P: add(*[(a[k], der(P, k)) for k in range(3)])
        fields = []
        for _ in range(6):
            P = const(rng.randint(-3, 3), 3)
            for e in product(range(p + 1), repeat=3):
                if 0 < sum(e) <= p and rng.random() < (0.5 if p == 1 else 0.25):
                    P = add((1, P), (rng.randint(-2, 2), {e + (0,): 1}))
            fields.append(P if rng.random() < 0.85 else {})
        u, phi = fields[:3], fields[3:]
        du, dphi = [d1(P) for P in u], [d1(P) for P in phi]
        fn = [add((Fraction(-C[k], LL), d1(du[k])), (Fraction(-s * C[k], LL), cross(a, dphi)[k])) for k in range(3)]
        n = [add((-C[k], du[k]), (-s * C[k], cross(a, phi)[k])) for k in range(3)]
        fm = [add((Fraction(-D[k], LL), d1(dphi[k])), (Fraction(s, LL), cross(a, n)[k])) for k in range(3)]
        m = whole(*(fn + fm))
        u, phi, fn, fm = [[times(m, P) for P in w] for w in (u, phi, fn, fm)]
        ends = [org, [x + y for x, y in zip(org, a)]]
        if max(abs(val(P, x, 0)) for x in ends for w in (u, phi, fn, fm) for P in w) > 1500:
            continue
        v = [add((1, P), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(3)], 3))) for P in u]
        return head + " ".join(show(P, 3) for w in (u, phi, fn, fm, v) for P in w)


def beam_lines(rng, count):
    out = []
    for i in range(count):
        p, fixed = rng.randint(0, 3), rng.random() < 0.5
        if rng.random() < 0.5:
            out += [beam_cell(rng, p, fixed), "flux", "bulk", "err"]
            continue
        head = beam_head(rng, p, fixed and rng.random() < 0.5)[4]
        bc = [const(rng.randint(-2, 2), 3) for _ in range(6)]
        load = [const(rng.randint(-2, 2), 3) if rng.random() < 0.7 else {} for _ in range(6)]
        out.append(head + " ".join(show(P, 3) for P in bc + load + [{}] * 3))
        for _ in range(2):
            m = rng.choice([1, 3])
            out.append("any 12 %s" % " ".join(str(rng.randint(-m, m)) for _ in range(12)))
        if rng.random() < 0.4:
            out.append("matrix")
    return out


def p26(ctx):
    model_check(ctx, "LocalBeamMC", cfg=ctx.pick("LocalBeamMC.cfg", "LocalBeamMC2.cfg"), coverage=False)
    exe, = build_jobs(ctx, [("beam", "localbeam.cpp", ["-DNDEBUG"])])
    conform(ctx, "LocalBeamTrace", [make_job(ctx, exe, "beam_%d" % q, beam_lines(ctx.rng, ctx.pick(100, 300))) for q in range(ctx.pick(6, 32))])
    # LocalBeam!Orient: the recorded traces would have been rejected with the same orientation for all beams
    ctx.known.append("beams along the first axis (e.g. from (0,0,0) to (1,0,0)) use the opposite orientation of rotations than all other beams")


# ---- advection in time
def advect_cell(rng, K, N, p, plain):
    """A hyperedge of a cubic grid with a velocity and a solution that is linear in time."""
    while True:
        theta, dt, t0 = rng.choice([1, 2, 2, 3, 4, 4]), rng.choice([1, 1, 2]), rng.choice([0, 1, 2])
        last = t0 + 9 * dt
        ref, n = rng.choice([1, 1, 1, 2]), [rng.randint(1, 3) for _ in range(N)]
        along = sorted(rng.sample(range(N), K))
        org = [rng.randrange(n[d] * ref) if d in along else ref * rng.randint(0, n[d]) for d in range(N)]
        shear, vel, blow = p > 0 and rng.random() < 0.4, [], []
        for d in range(N):
            a, b = rng.randint(-2, 2), rng.choice([0, 0, 0, 1, -1])
            if b:
                a = -b * rng.randint(0, 6)
            w = const(1, N)
            if rng.random() < 0.5:
                j = rng.randrange(N) if shear else d
                w = add((rng.randint(1, 2), w), (1, linear(0, [int(k == j) for k in range(N)], N)))
            vel.append(add((a, w), (b, timed(w, 1))))
            blow.append([a + b * t for t in range(t0, last + 1)])
        types = []
        for k in along:
            for s in (-1, 1):
                fixed = all(s * x <= 0 for x in blow[k])
                types.append(rng.choice([0, 0, 5]) if plain else rng.choice([0, 2, 3, 3, 5, 6] + ([1, 4] if fixed else [])))
        u0, u1, affine, q = const(rng.randint(-3, 3), N), const(rng.randint(-2, 2), N), rng.random() < 0.5, p - shear
        for e in product(range(q + 1), repeat=N):
            if 0 < sum(e) <= 3:
                if rng.random() < (0.6 if p == 1 else 0.3):
                    u0 = add((1, u0), (rng.randint(-2, 2), {e + (0,): 1}))
                if rng.random() < 0.2 and (sum(e) == 1 or not affine):
                    u1 = add((1, u1), (rng.randint(-1, 1), {e + (0,): 1}))
        u = add((1, u0), (1, timed(u1, 1)))
        f = add((1, u1), *[(1, der(mul(vel[d], u), d)) for d in along])
        corners = [[org[d] + r[d] for d in range(N)] for r in product((0, 1), repeat=N)]
        if any(max(abs(val(P, x, t)) for x in corners for t in (t0, last)) > b for P, b in [(u, 250), (f, 900)] + [(w, 40) for w in vel]):
            continue
        v = add((1, u), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(N)], N)))
        line = "cell %d %d %s %d %s %s %s %d %d %d %d %s" % (
            p, N, " ".join(map(str, n)), ref, " ".join(map(str, org)), " ".join(map(str, along)), " ".join(map(str, types)),
            rng.randint(1, 3), theta, dt, rng.choice([0, 4, -18, 137]), " ".join(show(P, N) for P in [u, f, v] + vel))
        return line, t0, dt, deg(u1) <= 1


def advect_lines(rng, K, count):
    out = []
    for i in range(count):
        N = rng.choice(range(K, 4))
        p = rng.choice([0, 0, 1, 1, 2, 3]) if K < 3 else rng.choice([0, 1])
        line, t, dt, affine = advect_cell(rng, K, N, p, rng.random() < 0.3)
        out += [line, "init %d" % t]
        t0, n = t, 2 * K * (p + 1) ** (K - 1)
        for _ in range(rng.choice([1, 2, 3])):
            for op in rng.sample(["step", "bulk", "err", "step"], rng.choice([1, 2, 3])):
                out.append("%s %d" % (op, t + (rng.choice([0, 1, dt]) if affine else 0) if op == "err" else t + dt))
            t += dt
            out.append("set %d" % t)
        out += ["err %d" % t, "bulk %d" % t]
        for _ in range(rng.choice([0, 1, 3])):
            t += dt
            m = rng.choice([1, 3])
            out.append("rough %d %d %s" % (t, n, " ".join(str(rng.randint(-m, m)) for _ in range(n))))
            if rng.random() < 0.2:
                out.append("bulk %d" % t)
        if rng.random() < 0.3:
            t = t0 + rng.choice([0, 1])
            out += ["init %d" % t, "step %d" % (t + dt), "set %d" % (t + dt), "step %d" % (t + 2 * dt)]
    return out


def p30(ctx):
    model_check(ctx, "LocalAdvectMC", cfg=ctx.pick("LocalAdvectMC.cfg", "LocalAdvectMC2.cfg"), coverage=False)
    run_kind(ctx, "localadvect", "LocalAdvectTrace", advect_lines, 60, 200)
