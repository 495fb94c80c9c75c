"""The Python interface: just-in-time compilation."""
import json
import os
import subprocess
import sys

from vlib import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOOPS = [("Elliptic", "elliptic", 4), ("MassApproxEigenvalue", "mass_approx_eigenvalue", 3), ("Parabolic", "parabolic", 11)]
CLASSES = {
    "topology": [("Cubic", "cubic"), ("File", "file")],
    "geometry": [("UnitCube", "unit_cube"), ("File", "file")],
    "node_descriptor": [("Cubic", "cubic"), ("File", "file")],
    "local_solver": [("Diffusion", "diffusion_ldgh"), ("DiffusionIP", "diffusion_ip"), ("Fancy", "fancy"), ("Bilaplacian", "bilaplacian"), ("Second", "fancy")],
    "global_loop": [(c, f) for c, f, _ in LOOPS],
}
STRUCTS = {"Fancy"}
ARGS = {"topology": ["<1,1>", "< 2 , 3 >", "<2,2,std::vector<int> >"], "geometry": ["<1,1>", "<2,3,std::vector,Point<3,float> >", ""],
        "node_descriptor": ["<1,1>", "< 2,3>"], "local_solver": ["<1,0,2>", "<1,1,2,Par,float>", "<2,-1>"]}


def world(rng):
    files, incl, body, defs = [], {}, {}, []
    commons = ["include/HyperHDG/%s.hxx" % x for x in ("dense_la", "hypercube", "hy_assert", "deep")]
    for folder, classes in CLASSES.items():
        for cls, name in classes:
            f = "include/HyperHDG/%s/%s.hxx" % (folder, name)
            defs.append([folder, cls, f])
            kind = "struct" if cls in STRUCTS else "class"
            other = rng.choice(classes)[0]
            text = "struct %sParameters\n{\n};\ntemplate <int d>\n%s %s\n{\n};\n" % (cls, kind, cls)
            if other != cls:  # mentioned, but not defined here
                text = "class %s;\n" % other + text + "// class %s\nclass %sX\n{ %s* p; };\n" % (other, other, other)
            body[f] = body.get(f, "\n") + text
            if f not in files:
                files.append(f)
    for cls, name, n in LOOPS:
        defs.append(["cython", cls, name])
        files += ["cython/%s.%s" % (name, e) for e in ("pxd", "pyx", "cfg")]
    users = ["params/p1.hxx", "params/p2.hxx", "include/HyperHDG/user.hxx"]
    for f in [x for x in files if x.endswith(".hxx")] + users + commons:
        k = commons.index(f) if f in commons else -1
        incl[f] = [c for i, c in enumerate(commons) if i > k and rng.random() < 0.4]
    files += commons + users + ["build/cmake_cython.cfg"]
    return {"op": "world", "dir": rng.choice(["w", "hyper.hdg", "c++"]), "files": files, "incl": incl, "body": body,
            "defs": defs, "n": {f: n for _, f, n in LOOPS}}


def configuration(rng, k):
    loop, base, n = rng.choice(LOOPS)
    c = {"op": "include", "object": k, "loop": loop}
    for part in ("topology", "geometry", "node_descriptor", "local_solver"):
        c[part] = rng.choice(CLASSES[part])[0] + rng.choice(ARGS[part])
    c["repl"] = ["vector[unsigned int]"] + [rng.choice(["", "", "string", "double"]) for _ in range(rng.randint(0, n - 1))]
    c["code"] = rng.choice([0, 0, 1, 2])
    c["codeincl"] = ["include/HyperHDG/" + rng.choice(["user", "deep"]) + ".hxx"] if c["code"] and rng.random() < 0.6 else []
    c["extra"] = rng.choice([[], [], ["params/p1.hxx"], ["params/p2.hxx"], ["params/p1.hxx", "params/p2.hxx"]])
    c["debug"] = rng.random() < 0.3
    return c


def relative(rng, c, k):
    """a configuration that differs from c in one thing"""
    d = dict(c, object=k)
    what = rng.choice(["repl", "code", "codeincl", "extra", "debug", "local_solver", "geometry", "same"])
    if what == "repl":
        d["repl"] = [rng.choice(["string", "vector[unsigned int]"])] + [rng.choice(["", "float"]) for _ in c["repl"][1:]]
    elif what == "code":
        d["code"] = rng.choice([x for x in (0, 1, 2, 3) if x != c["code"]])
        d["codeincl"] = c["codeincl"] if d["code"] else []
    elif what == "codeincl":
        d["codeincl"] = ["include/HyperHDG/hypercube.hxx"] if c["code"] else []
    elif what == "extra":
        d["extra"] = rng.choice([x for x in ([], ["params/p1.hxx"], ["params/p2.hxx"]) if x != c["extra"]])
    elif what == "debug":
        d["debug"] = not c["debug"]
    elif what != "same":
        d[what] = rng.choice(CLASSES[what])[0] + rng.choice(ARGS[what])
    return d


def history(rng, steps):
    w = world(rng)
    out, confs, broken = [w], [], set()
    key = lambda c: json.dumps({k: v for k, v in c.items() if k != "object"}, sort_keys=True)
    for _ in range(steps):
        r = rng.random()
        if r < 0.15:
            out.append({"op": "process"})
        elif r < 0.45:
            if broken and rng.random() < 0.6:
                f = rng.choice(sorted(broken))
                broken.discard(f)
                e = {"op": "edit", "file": f}
            else:
                f = rng.choice(w["files"] if rng.random() < 0.6 else [x for x in w["files"] if "HyperHDG/" in x and x.count("/") == 2 or "params" in x])
                e = {"op": "edit", "file": f}
                if f.endswith(".hxx") and rng.random() < 0.35:
                    e["incl"] = [x for x in w["files"] if x.startswith("include/HyperHDG/") and x.count("/") == 2 and x != f and rng.random() < 0.35]
                if f.endswith(".hxx") and rng.random() < 0.15:
                    e["broken"] = True
                    broken.add(f)
            out.append(e)
        else:
            if confs and rng.random() < 0.75:
                c = rng.choice(confs[-4:])
                if rng.random() < 0.35:
                    c = relative(rng, c, len(confs))
                    confs.append(c)
                elif rng.random() < 0.4:  # a new object with the same contents
                    c = dict(c, object=1000 + len(out))
            else:
                c = configuration(rng, len(confs))
                confs.append(c)
            out.append(c)
    return out


def p27(ctx):
    model_check(ctx, "JitCacheMC", cfg=ctx.pick("JitCacheMC.cfg", "JitCacheMC2.cfg"), coverage=False)
    jobs = []
    for q in range(ctx.pick(12, 60)):
        lines = []
        for _ in range(ctx.pick(2, 4)):
            lines += [json.dumps(e) for e in history(ctx.rng, ctx.pick(30, 60))]
        jobs.append(py_job(ctx, "jit/drive.py", "jit_%d" % q, lines))
    conform(ctx, "JitCacheTrace", jobs)
    ctx.assumptions += ["The programs run by include (cython, compiler, linker) are stand-ins that record what they are given; "
                        "the file tree is synthetic; edits and compilations have different time stamps."]


def py_job(ctx, script, name, lines, timeout=600):
    sched = ctx.path("sched_%s.txt" % name)
    open(sched, "w").write("\n".join(lines) + "\n")
    exe = ctx.path("run_%s.sh" % name)
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec %s %s \"$@\"\n" % (sys.executable, os.path.join(HERE, "harness", script)))
    os.chmod(exe, 0o755)
    return name, lambda tr: run_harness(exe, sched, tr, timeout=timeout)


# ---- the compiled classes
PYLOOPS = {"elliptic": ("Elliptic", ["flux", "resid", "err", "mat", "dirread", "zero", "size", "getref"]),
           "parabolic": ("Parabolic", ["flux", "resid", "err", "setdata", "setdata", "init", "zero", "size", "getref"]),
           "mass": ("MassApproxEigenvalue", ["flux", "mass", "dirget", "size", "getref"]),
           "shifted": ("ShiftedInverseEigenvalue", ["flux", "dirget", "size", "getref"]),
           "nonlinear": ("NonlinearEigenvalue", ["flux", "jac", "init", "size", "getref"])}
OPTIONS = [("fileName", ["a", "b", "", "example"]), ("outputDir", ["output", "o2", ""]), ("fileNumber", ["0", "7", "", "seven", "12"]),
           ("printFileNumber", ["true", "false", "1", "0", ""]), ("incrementFileNumber", ["true", "false", ""]), ("plotEdges", ["true", "0", "", "1"]),
           ("plotEdgeBoundaries", ["true", "false", ""]), ("scale", ["0.5", "1", "", "big"]), ("fileEnding", ["vtu", ""])]


def py_object(rng, o, variant, length, plots):
    from p_loops import random_history, vecs
    loop = rng.choice(sorted(PYLOOPS))
    ops = PYLOOPS[loop][1]
    base = random_history(rng, variant, loop, ops, length)[1:]      # without the unit
    kind, how = rng.choice(["Text", "Numbers"]), rng.choice([0, 0, 1, 2, 2, 4])
    numbers = base[0].split(" ")[1:]
    args = lambda h, n: "%d new %s %s %d %d %d %s" % (o, loop, kind, h, rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 4]), " ".join(n))
    lines = []
    if rng.random() < 0.2:
        lines.append(args(3, numbers) if rng.random() < 0.5 else args(how, ["2"]))
    lines.append(args(how, numbers))
    for x in base[2:]:
        w = x.split(" ")
        if w[0] in ("flux", "resid", "mass", "err", "init", "setdata"):
            if w[0] in ("flux", "resid", "mass") and rng.random() < 0.08:
                bad = w[:]
                bad[2 + rng.randrange(int(w[1]))] = "777"
                lines.append("%d %s" % (o, " ".join(bad)))
            v = " ".join(w[1:2 + int(w[1])])
            lines.append("%d %s" % (o, x))
            if rng.random() < 0.2 and plots and all(abs(int(y)) < 100 for y in v.split(" ")[1:]):
                lines.append("%d plot %s %d" % (o, v, rng.choice([0, 0, 1, 2, 6])))
        else:
            lines.append("%d %s" % (o, x))
        if rng.random() < 0.25:
            name, values = rng.choice(OPTIONS)
            lines.append("%d option %s %s" % (o, name, rng.choice(values)))
    if rng.random() < 0.4:
        lines.append("%d del" % o)
    return lines


def py_lines(rng, variant, count, length, plots):
    """interleaved histories of several objects"""
    out, o = [], 0
    for _ in range(count):
        todo = []
        for _ in range(rng.choice([1, 2, 3])):
            o += 1
            todo.append(py_object(rng, o, variant, length, plots))
        while todo:
            k = rng.choice(todo)
            for _ in range(rng.randint(1, 4)):
                if k:
                    out.append(k.pop(0))
            todo = [x for x in todo if x]
    return out


def p28(ctx):
    model_check(ctx, "PyLoopMC", cfg=ctx.pick("PyLoopMC.cfg", "PyLoopMC2.cfg"), coverage=False)
    variants = ctx.pick([(1, 2, 1, "double"), (2, 1, 0, "double")], [(1, 2, 1, "double"), (2, 1, 0, "double"), (2, 2, 1, "double"), (1, 1, 1, "double")])
    tool = [sys.executable, os.path.join(HERE, "harness", "pyloop", "tree.py")]
    todo, classes = [], {v: {} for v in variants}
    for v in variants:
        tree = ctx.path("tree_%d_%d_%d" % v[:3])
        os.makedirs(tree)
        subprocess.run(tool + ["make", REPO, tree, "-DDIM=%d -DNDOF=%d -DEDGE=%d" % v[:3]], check=True)
        for loop, (cls, _) in PYLOOPS.items():
            for kind in ("Text", "Numbers"):
                out = os.path.join(tree, loop + kind + ".json")
                classes[v][loop + kind] = out
                todo.append((out, tool + ["compile", tree, cls, kind, str(len(todo) // 3 % 2), out]))
    running = []
    while todo or running:
        while todo and len(running) < 8:
            out, cmd = todo.pop(0)
            log = open(out + ".log", "w")
            running.append((out, cmd, subprocess.Popen(cmd, stdout=log, stderr=log)))
        out, cmd, p = running.pop(0)
        if p.wait():  # once more: simultaneous first calls may disturb each other
            with open(out + ".log", "w") as log:
                subprocess.run(cmd, stdout=log, stderr=log)
        if not os.path.exists(out):
            text = open(out + ".log").read()
            if "Error compiling Cython file" in text:  # the templates of the repository: no class, so nothing of the property holds
                raise Violation("Cython refuses the class:\n" + text[text.index("Error compiling"):][:1500],
                                {"replay": save_replay(ctx, "class", {}, {"class": cmd[-4:], "log": text[-3000:]})})
            raise CheckError("the class could not be compiled:\n" + text[-1500:])
    jobs = []
    for v in variants:
        for q in range(ctx.pick(4, 16)):
            unit = [0, -2, 0, -40][q % 4]
            head = json.dumps({"classes": classes[v], "f": 2 * v[0], "d": v[1], "edge": bool(v[2]), "unit": unit})
            name, run = py_job(ctx, "pyloop/drive.py", "py_%d_%d_%d_%d" % (v[:3] + (q,)), [head] + py_lines(ctx.rng, v, ctx.pick(12, 40), 10, unit == 0))
            jobs.append((name, sorted_by_object(run)))
    conform(ctx, "PyLoopTrace", jobs)
    ctx.assumptions += ["Hypergraphs and local solvers are integer valued ones of our own, compiled by the real Cython and compiler (without optimisation)."]


def sorted_by_object(run):
    def go(tr):
        events, tail = run(tr)
        events = sorted(events, key=lambda e: e.get("object", 10 ** 9))
        write_trace(tr, events)
        return events, tail
    return go
