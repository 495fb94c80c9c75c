"""P29: whole problems on meshes (specification GlobalSolve*)."""
from vlib import *
from p_loops import make_job
from p_local import *

KINDS = [("Diffusion", 0, "diffusion"), ("DiffusionPostprocess", 1, "diffusion"), ("DiffusionIP", 2, "diffusion"),
         ("Flow", 3, "flow"), ("Bilaplacian", 4, "plate"), ("DiffusionParab", 5, "step"), ("BilaplacianParab", 6, "platestep"),
         ("AdvectionParab", 7, "advect")]


def poly(rng, N, p, keep, time, top=2):
    """random polynomial in the variables of keep, linear in time where time says so"""
    u = const(rng.randint(-3, 3), N)
    for e in product(range(p + 1), repeat=N):
        if 0 < sum(e) <= p and all(e[d] == 0 or d in keep for d in range(N)) and rng.random() < (0.8 if p == 1 else 0.5):
            u = add((1, u), (rng.randint(-top, top), {e + (1 if time and rng.random() < 0.4 else 0,): 1}))
    return u


def box(rng, kind, K, p, cubic):
    """A box with polynomials; sides nothing flows through may be free.  The line of p_local's generators."""
    while True:
        N = K
        sides = [1 if cubic else rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(K)]
        org = [0 if cubic else rng.randint(-2, 2) for _ in range(N)]
        span = [tuple(sides[k] if d == k else 0 for d in range(N)) for k in range(K)]
        drop = set(d for d in range(N) if rng.random() < 0.35)
        if len(drop) == N:
            drop.discard(rng.randrange(N))
        keep = set(range(N)) - drop
        stepping = kind in ("step", "platestep")
        t, tau = rng.choice([0, 1, 2]), rng.randint(1, 5)
        theta, dt = 4 if kind == "platestep" else rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 1, 2])
        k0, dif = rng.choice([1, 1, 2, 3]), const(1, N)
        u = poly(rng, N, p, keep, True)
        plate = kind in ("plate", "platestep")
        w = add((Fraction(-1, k0), lap(K, N, span, u)))
        f = add((-1, lap(K, N, span, w))) if plate else w
        if stepping:
            f = add((1, f), (1, {e[:-1] + (0,): c for e, c in u.items() if e[-1]}))
        m = whole(u, f, w)
        if m > 12:
            continue
        u, f, w = times(m, u), times(m, f), times(m, w)
        if plate:
            dif = w
        if deg(f) > 3 or deg(u) > p or (plate and deg(w) > 2):
            continue
        corners = [[org[d] + sum(r[k] * span[k][d] for k in range(K)) for d in range(N)] for r in product((0, 1), repeat=K)]
        if any(max(abs(val(P, x, t + 6)) for x in corners) > 400 for P in (u, f, w)):
            continue
        types = []
        for k in range(K):
            for s in range(2):
                free = k in drop
                if not plate:
                    types.append(rng.choice([0, 0, 2, 3] if free and not cubic else [0] if free else [1, 4]))
                else:
                    types.append(rng.choice([0, 1, 3, 4] if free and not cubic else [0, 1, 4] if free else [4]))
        line = "cell %d %d %s %s %s %d %d %s" % (
            p, N, " ".join(map(str, org)), " ".join(str(c) for s in span for c in s), " ".join(map(str, types)), tau, t,
            " ".join(show(P, N) for P in (u, const(k0, N), dif, f, {})))
        return line, u, t, theta, dt


def closed(line, K, rng):
    """prescribe the values on all sides"""
    x = line.split()
    N = int(x[2])
    at = 3 + N + K * N
    return " ".join(x[:at] + [str(rng.choice(closed.types)) for _ in range(2 * K)] + x[at + 2 * K:])


closed.types = (1, 4)


def windy(rng, K, p):
    """advection through the unit cube: wind along every axis, which may turn between two steps"""
    while True:
        N, t, dt = K, rng.choice([0, 1, 2]), rng.choice([1, 1, 2])
        last, vel, types, shear = t + 3 * dt, [], [], p > 0 and rng.random() < 0.4
        for d in range(N):
            a, b = rng.choice([-2, -1, 1, 2]), 0
            if rng.random() < 0.4:  # turns at a time between two steps
                b = rng.choice([-2, 2])
                a = -b // 2 * (2 * rng.randint(t, last) + 1)
            w = const(1, N)
            if rng.random() < 0.5:
                j = rng.randrange(N) if shear else d
                w = add((rng.choice([1, 2]), w), (1, linear(0, [int(k == j) for k in range(N)], N)))
            vel.append(add((a, w), (b, timed(w, 1))))
            for s in (-1, 1):
                out = {s * (a + b * x) > 0 for x in range(t, last + 1)}
                types.append(rng.choice([3, 6] + ([2] * 2 if out == {True} else [1, 4] if out == {False} else [])))
        u0, u1, q = const(rng.randint(-3, 3), N), const(rng.randint(-2, 2), N), p - shear
        for e in product(range(q + 1), repeat=N):
            if 0 < sum(e) <= 3:
                if rng.random() < (0.7 if p == 1 else 0.4):
                    u0 = add((1, u0), (rng.randint(-3, 3), {e + (0,): 1}))
                if rng.random() < 0.2 and sum(e) == 1:
                    u1 = add((1, u1), (rng.randint(-1, 1), {e + (0,): 1}))
        u = add((1, u0), (1, timed(u1, 1)))
        f = add((1, u1), *[(1, der(mul(vel[d], u), d)) for d in range(N)])
        corners = list(product((0, 1), repeat=N))
        if any(abs(val(P, x, s)) > 400 for P in (u, f) for x in corners for s in (t, last)) or deg(f) > 4:
            continue
        line = "cell %d %d %s %s %s %d %d %s" % (
            p, N, " ".join("0" * N), " ".join("01"[d == k] for k in range(K) for d in range(N)), " ".join(map(str, types)),
            rng.randint(1, 3), t, " ".join(show(P, N) for P in [u, const(1, N), const(1, N), f, {}] + vel + [{}] * (N + 1)))
        return line, u, t, rng.choice([1, 2, 2, 3, 4, 4]), dt, True


def problem(rng, name, kind, K, p):
    """line, u, t, theta, dt, cubic"""
    if kind == "advect":
        return windy(rng, K, p)
    cubic = rng.random() < 0.35
    if name in ("Diffusion", "DiffusionPostprocess", "DiffusionIP", "DiffusionParab", "Bilaplacian", "BilaplacianParab") and (
            name != "DiffusionIP") and (cubic or rng.random() < 0.3):
        return box(rng, kind, K, p, cubic) + (cubic,)
    N, theta, dt = rng.choice(range(K, 4)), 4, 1
    if K == 3 or (K == 2 and p == 3):
        N = rng.choice([K, K, 3])
    closed.types = (4,) if kind in ("plate", "platestep") else (1, 4)
    if kind == "diffusion":
        line = cell(rng, name, K, N, p)
    elif kind == "flow":
        line = flow_cell(rng, K, N, p, True)
    elif kind == "step":
        line, t, dt, _ = step_cell(rng, K, N, p, True)
        x = line.split()
        line, theta = " ".join(x[:-2]), int(x[-2])
    else:
        line, t, dt = plate_cell(rng, "step" if kind == "platestep" else "flat", K, N, p, [4] * (2 * K))
        x = line.split()
        line = " ".join(x[:-1])
    x = line.split()
    at = 3 + N + K * N + 2 * K
    t = int(x[at + 1])
    at += 2
    u = {}
    for k in range(int(x[at])):
        m = [int(c) for c in x[at + 1 + k * (N + 2):][:N + 2]]
        u[tuple(m[1:])] = m[0]
    return closed(line, K, rng), u, t, theta, dt, False


def sizes(rng, K, p, plate):
    """coarse mesh and refinements"""
    top = {1: 6, 2: 3 if p < 2 else 2, 3: 2}[K]
    if K == 3 and plate:
        top = 1
    while True:
        n = [rng.randint(1, min(3, top)) for _ in range(K)]
        rs = [r for r in (1, 2, 3, 4) if max(n) * r <= top]
        if rs and not (K == 3 and sum(n) > 5):
            return n, rs


def global_lines(rng, name, kind, K, count):
    out = []
    plate = kind in ("plate", "platestep")
    for _ in range(count):
        p = rng.choice([1, 2, 3] if K == 1 else [1, 2, 2] if K == 2 else [1])
        if kind == "advect" and rng.random() < 0.25:
            p = 0
        line, u, t, theta, dt, cubic = problem(rng, name, kind, K, p)
        N = int(line.split()[2])
        n, rs = sizes(rng, K, p, plate)
        if K == 3:
            n = rng.choice([[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1]])
            rs = [1, 2] if n == [1, 1, 1] and not plate else [1]
        out.append("problem %s %d %d %d %d %s" % (" ".join(map(str, n)), cubic, rng.randint(1, 99999), theta, dt, line))

        def err(t):
            v = add((1, u), (1, linear(rng.randint(-2, 2), [rng.randint(-1, 1) for _ in range(N)], N)))
            return "err %d %d %s" % (t, N, show(v, N))
        for turn in range(rng.choice([1, 2])):
            if turn or rng.random() < 0.4:
                out.append("refine %d" % rng.choice(rs))
            if kind not in ("step", "platestep", "advect"):
                out += ["solve %d" % t, err(t)]
                continue
            now = t
            out.append("init %d" % now)
            for _ in range(rng.choice([1, 2, 3] if K < 3 else [1, 2])):
                if kind in ("step", "advect") and rng.random() < 0.5:
                    out.append(err(now))
                now += dt
                out.append("solve %d" % now)
                if kind == "platestep":
                    out.append(err(now))
                out.append("set %d" % now)
            if kind in ("step", "advect"):
                out.append(err(now))
    return out


LENGTHS = {1, 2, 3, 4, 5, 6, 8, 10, 12}


def network(rng, N):
    """points, curves between them with integer lengths, types of the ends"""
    grid = [(x,) for x in range(-4, 9)] if N == 1 else [p + (0,) * (N - 2) for p in product((0, 3, 6), (0, 4, 8))]
    if N == 3:
        grid = [(x, y, z) for x in (0, 3, 6) for y in (0, 4) for z in (0, 3, 4)] + [(1, 2, 2), (3, 6, 6), (2, 1, 2)]
    while True:
        pts = rng.sample(grid, rng.randint(2, min(6, len(grid))))
        pairs = []
        for a in range(len(pts)):
            for b in range(len(pts)):
                if a != b:
                    d2 = sum((x - y) ** 2 for x, y in zip(pts[a], pts[b]))
                    if int(d2 ** 0.5 + 0.5) ** 2 == d2 and int(d2 ** 0.5 + 0.5) in LENGTHS:
                        pairs.append((a, b))
        if len(pairs) < len(pts):
            continue
        ends = [rng.choice(pairs) for _ in range(rng.randint(len(pts) - 1, min(9, len(pts) + 3)))]
        if set(sum(ends, ())) != set(range(len(pts))):
            continue
        seen = {0}
        while True:
            more = {b for e in ends for b in e if set(e) & seen}
            if more == seen:
                break
            seen = more | seen
        return pts, ends, seen == set(range(len(pts)))


def network_lines(rng, N, count):
    out = []
    for _ in range(count):
        pts, ends, connected = network(rng, N)
        p = rng.choice([0, 1, 1, 2, 2, 3])
        whole_ = rng.random() < 0.7
        pin = [rng.choice([0, 0, 2, 3, 1, 4]) for _ in pts]
        if whole_ and not any(k in (1, 4) for k in pin):
            pin[rng.randrange(len(pts))] = rng.choice([1, 4])
        types = [tuple(pin[a] for a in e) for e in ends]
        if not whole_:
            types = [tuple(rng.choice([0, 0, 2, 3, 1, 4]) for _ in e) for e in ends]
        f = rng.choice([0, 0, 1, -1, 2])
        g = linear(rng.randint(-3, 3), [rng.randint(-1, 1) for _ in range(N)], N)
        flat = lambda rows: "%d %s" % (len(rows), " ".join(str(x) for r in rows for x in r))
        out.append("net %d %d %d %d %s %s %s %s" % (p, rng.randint(1, 4), rng.choice([1, 1, 2]), f, show(g, N), flat(pts), flat(ends), flat(types)))
        r = 1
        for _ in range(rng.choice([1, 2, 3])):
            vec = lambda: "7 " + " ".join(str(rng.randint(-4, 4)) for _ in range(7))
            for op in rng.sample(["apply", "res", "err", "solve", "res"], rng.choice([2, 3])):
                if op == "solve":
                    if whole_ and connected:
                        out.append("solve")
                elif op != "err" or (r <= 2 and (p >= 2 or (p == 1 and f == 0))):
                    out.append(op + " " + vec())
            r = rng.choice([1, 2, 2, 3])
            out.append("refine %d" % r)
        if whole_ and connected:
            out.append("solve")
    return out


def p29(ctx):
    model_check(ctx, "GlobalSolveMC", cfg=ctx.pick("GlobalSolveMC.cfg", "GlobalSolveMC2.cfg"), coverage=False)
    model_check(ctx, "NetworkMC", cfg=ctx.pick("NetworkMC.cfg", "NetworkMC2.cfg"), coverage=False)
    combos = [(name, i, kind, K) for name, i, kind in KINDS for K in (1, 2, 3) if not (K == 3 and i in (1, 2, 6))]
    exes = build_jobs(ctx, [("global_%d_%d" % (i, K), "global.cpp", ["-DNDEBUG", "-DKIND=%d" % i, "-DKD=%d" % K]) for _, i, _, K in combos]
                      + [("network_%d" % N, "network.cpp", ["-DNDEBUG", "-DND=%d" % N]) for N in (1, 2, 3)])
    jobs = []
    for N, e in zip((1, 2, 3), exes[-3:]):
        for q in range(ctx.pick(1, 6)):
            jobs.append(make_job(ctx, e, "network_%d_%d" % (N, q), network_lines(ctx.rng, N, ctx.pick(60, 150))))
    conform(ctx, "NetworkTrace", jobs)
    for name, i, kind in KINDS:
        jobs = []
        for (name2, _, _, K), e in zip(combos, exes):
            if name2 == name:
                for q in range(ctx.pick(1, 4)):
                    jobs.append(make_job(ctx, e, "%s_%d_%d" % (name, K, q),
                                         global_lines(ctx.rng, name, kind, K, ctx.pick((40, 16, 4), (120, 50, 12))[K - 1])))
        conform(ctx, "GlobalSolveTrace", jobs, env={"KIND": kind})
