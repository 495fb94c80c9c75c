"""Plays call histories on the compiled Python classes.  Schedule: a line with the classes, then lines "OBJECT call ...";
events carry the object they belong to."""
import importlib.machinery, importlib.util, json, os, re, shutil, sys

lines = open(sys.argv[1]).read().splitlines()
world = json.loads(lines[0])
os.environ["VH_UNIT"] = str(world["unit"])      # what "one" is for the compiled mock solvers
UNIT = 2.0 ** world["unit"]
out = open(sys.argv[2], "a", buffering=1)
BAD = 2000000001
LOOPS = {"elliptic": "Elliptic", "parabolic": "Parabolic", "mass": "MassApproxEigenvalue", "shifted": "ShiftedInverseEigenvalue", "nonlinear": "NonlinearEigenvalue"}


def load(m):
    spec = importlib.util.spec_from_file_location(m["name"], m["file"])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return getattr(mod, m["name"])


classes = {k: load(json.load(open(v))) for k, v in world["classes"].items()}
objects, F, D, EDGE = {}, world["f"], world["d"], world["edge"]
work = os.path.abspath(sys.argv[2]) + ".work"
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
os.chdir(work)


def num(v):
    return int(v) if isinstance(v, (int, float)) and abs(v) < BAD and v == int(v) else BAD


def seq(v):
    return [num(x) for x in v] if isinstance(v, (list, tuple)) else [BAD]


def scaled(v):
    """values: multiples of the unit"""
    return [num(x / UNIT) if isinstance(x, (int, float)) else BAD for x in v] if isinstance(v, (list, tuple)) else [BAD]


def levels(numbers):
    it, res = iter(numbers), []
    for _ in range(next(it)):
        nN, n = next(it), next(it)
        inc, types = [], []
        for _ in range(n):
            inc.append([next(it) for _ in range(F)])
            types.append([next(it) for _ in range(F)])
        res.append({"nN": nN, "inc": inc, "types": types})
    return res, bool(next(it))


def files():
    """files below the working directory, written since the last call or not"""
    res = {}
    for d, _, fs in os.walk(work):
        for f in fs:
            p = os.path.join(d, f)
            res[os.path.relpath(p, work)] = os.stat(p).st_mtime != 0
            os.utime(p, (0, 0))
    return res


def values(text):
    m = re.search(r'<DataArray[^>]*Name="values"[^>]*>(.*?)</DataArray>', text, re.S)
    return [num(float(x)) for x in m.group(1).split()] if m else [BAD]


def emit(o, op, **k):
    out.write(json.dumps(dict(k, op=op, object=o)) + "\n")


def vector(words):
    n = int(words.pop(0))
    return [float(words.pop(0)) * UNIT for _ in range(n)]


def form(v, o):
    """different ways to pass a vector"""
    return [v, tuple(v), [int(x) if x == int(x) else x for x in v]][o % 3]


def option(obj, name, value, o):
    n, v = (name, value) if o % 2 else (name.encode(), value.encode())
    return obj.plot_option(n, v)


for count, line in enumerate(lines[1:]):
    w = line.split(" ")
    o, op = int(w.pop(0)), w.pop(0)
    if op == "new":
        loop, kind, how, numbers = w[0], w[1], int(w[2]), [int(x) for x in w[5:]]
        extra, off = int(w[3]), int(w[4])
        topo = " ".join(w[5:]) if kind == "Text" else form(numbers, count)
        if kind == "Text" and count % 2:
            topo = topo.encode()
        geom = "x" * off if kind == "Text" else off
        cls = classes[loop + kind]
        try:
            obj = (cls(topo) if how == 0 else cls(topo, lsol_constr=extra) if how == 1 else cls(topo, geom, extra) if how == 2 else cls(topo, geom) if how == 3
                   else cls(topo_constr=topo, lsol_constr=float(extra), geom_constr=geom))
        except Exception as e:
            emit(o, "refused", how=how, whole=len(numbers) > 1)
            continue
        objects[o] = (loop, obj)
        ls, cons = levels(numbers)
        emit(o, "new", loop=loop, f=F, d=D, edge=EDGE, cons=cons, src=extra if how else 0, geo=off if how > 1 else 0, levels=ls)
        continue
    loop, obj = objects[o]
    timed = loop != "elliptic"
    if op == "del":
        del objects[o], obj
        emit(o, "deleted")
    elif op in ("flux", "resid", "mass", "err"):
        x, t = vector(w), int(w.pop(0))
        call = {"flux": "trace_to_flux", "resid": "residual_flux", "mass": "trace_to_mass_flux", "err": "errors"}[op]
        arg = form(x, count)
        before = list(arg)
        t = t if timed else 0
        try:
            res = getattr(obj, call)(*([arg] if not timed or (t == 0 and count % 2) else [arg, t / 4]))
        except Exception:
            emit(o, "raise", x=scaled(x))
            continue
        emit(o, op if before == list(arg) else "INPUTCHANGED", x=scaled(x), t=t, res=scaled(res))
    elif op == "jac":
        x, y = vector(w), vector(w)
        t, s = int(w[0]), int(w[1])
        res = obj.jacobian_of_trace_to_flux(form(x, count), t / 4, form(y, count + 1), s / 4)
        emit(o, op, x=scaled(x), y=scaled(y), t=t, s=s, res=scaled(res))
    elif op == "mat":
        cols, rows, vals = obj.sparse_stiff_mat()
        emit(o, op, t=0, rows=seq(rows), cols=seq(cols), vals=seq(vals))
    elif op == "init":
        x, t = vector(w), int(w.pop(0))
        res = obj.make_initial(*([form(x, count)] if t == 0 and count % 2 else [form(x, count), t / 4]))
        emit(o, op, x=scaled(x), t=t, res=scaled(res))
    elif op == "setdata":
        x, t = vector(w), int(w.pop(0))
        obj.set_data(*([form(x, count)] if t == 0 and count % 2 else [form(x, count), t / 4]))
        emit(o, op, x=scaled(x), t=t)
    elif op == "dirread":
        idx = [int(x / UNIT) for x in vector(w)]
        obj.read_dirichlet_indices(tuple(idx) if count % 2 else idx)
        emit(o, op, idx=idx)
    elif op == "dirget":
        emit(o, op, res=seq(obj.dirichlet_indices()))
    elif op == "setref":
        L = int(w[0])
        res = obj.refine(L)
        emit(o, op, L=L)
        emit(o, "getref", res=num(res))
    elif op == "getref":
        emit(o, op, res=num(obj.refine()))
    elif op == "size":
        emit(o, op, res=num(obj.size_of_system()))
    elif op == "zero":
        emit(o, op, res=scaled(obj.zero_vector()))
    elif op == "option":
        name, value = w[0], w[1]
        try:
            emit(o, op, name=name, value=value, st="ok", res=str(option(obj, name, value, count)))
        except Exception as e:
            emit(o, op, name=name, value=value, st="throw", res="")
    elif op == "plot":
        x, t = vector(w), int(w.pop(0))
        t = t if timed else 0
        before = files()
        obj.plot_solution(*([form(x, count)] if not timed or (t == 0 and count % 2) else [form(x, count), t / 4]))
        after = files()
        changed = sorted(n for n in after if after[n])
        emit(o, op, x=scaled(x), t=t, lost=len(set(before) - set(after)), names=changed,
             vals=values(open(changed[0]).read()) if len(changed) == 1 else [])
    else:
        sys.exit(3)
os.chdir("/")
shutil.rmtree(work, ignore_errors=True)
