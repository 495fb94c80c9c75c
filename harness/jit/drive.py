"""Plays a history of edits, processes and include calls on a scratch copy of the Python interface."""
import json, os, re, shutil, subprocess, sys, time

here = os.path.dirname(os.path.abspath(__file__))
repo, sched, outname = os.environ.get("VERIF_REPO", "/repo"), sys.argv[1], sys.argv[2]
base = outname + ".world"
PARTS = ["topology", "geometry", "node_descriptor", "local_solver"]


class World:
    def __init__(self, w):
        shutil.rmtree(base, ignore_errors=True)
        self.root = os.path.join(base, w["dir"])
        os.makedirs(self.root)
        shutil.copytree(repo + "/import", self.root + "/import", ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(self.root + "/cython")
        os.makedirs(self.root + "/build")
        self.clock = time.time() - 10 ** 6
        self.log = os.path.join(base, "log")
        open(self.log, "w").close()
        self.ver, self.child, self.w = {}, None, w
        self.incl = {f: list(x) for f, x in w["incl"].items()}
        for f in w["files"]:
            self.ver[f] = 1
            self.write(f, False)
        for d, _, names in os.walk(self.root + "/import"):
            for n in names:
                os.utime(os.path.join(d, n), (self.clock - 50, self.clock - 50))
            os.utime(d, (self.clock - 50, self.clock - 50))

    def path(self, f):
        return os.path.join(self.root, f)

    def write(self, f, broken):
        p, v = self.path(f), "version %d%s" % (self.ver[f], " broken" if broken else "")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f == "build/cmake_cython.cfg":
            t = "python3 %s/tool.py " % here
            text = ("[compiler]\ncommand=%scompiler\nincludes=-I. -Iinclude -I%s/py\nflags=-O -DCFG=%d\nstandard=20\n[linker]\ncommand=%slinker\nflags=-shared\nlibs=-lx\n"
                    "[cython]\ncommand=%scython\nflags=-3 --cplus\n[python]\nver_maj=%d\nver_min=%d\ndir=%s/py\n"
                    % (t, base, self.ver[f], t, t, sys.version_info.major, sys.version_info.minor, base))
            os.makedirs(base + "/py", exist_ok=True)
            open(base + "/py/Python.h", "w").close()
            os.utime(base + "/py/Python.h", (self.clock - 50, self.clock - 50))
        elif f.endswith(".cfg"):
            n = self.w["n"][os.path.basename(f)[:-4]]
            text = "[default]\nn_replacements = %d\n" % n + "".join("replacement%02d = d%dv%d\n" % (i, i, self.ver[f]) for i in range(2, n + 1))
        elif f.endswith(".pxd"):
            n = self.w["n"][os.path.basename(f)[:-4]]
            text = "# %s\nIncludeFiles\nclass C++ClassName\nname CythonClassName\n" % v + "".join("repl CyReplace%02d\n" % i for i in range(1, n + 1))
        elif f.endswith(".pyx"):
            text = "# %s\nname PythonClassName\nname CythonClassName\n" % v
        else:
            text = "// %s\n" % v + "".join("#include <%s>\n" % x.replace("include/", "", 1) for x in self.incl.get(f, [])) + self.w["body"].get(f, "")
        with open(p, "w") as o:
            o.write(text)
        os.utime(p, (self.clock, self.clock))

    def edit(self, e):
        self.clock += 10
        self.ver[e["file"]] += 1
        if "incl" in e:
            self.incl[e["file"]] = e["incl"]
        self.write(e["file"], e.get("broken", False))

    def process(self):
        if self.child:
            self.child.stdin.close()
            self.child.wait()
        env = dict(os.environ, JIT_ROOT=os.path.realpath(self.root), JIT_LOG=self.log, PYTHONDONTWRITEBYTECODE="1")
        self.child = subprocess.Popen([sys.executable, here + "/child.py"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, env=env, cwd=base)

    def include(self, c):
        self.clock += 10
        n = len(open(self.log).read().split())
        text = "" if not c["code"] else "// code %d\n" % c["code"] + "".join("#include <%s>\n" % x.replace("include/", "", 1) for x in c["codeincl"])
        self.child.stdin.write(json.dumps(dict(c, text=text)) + "\n")
        self.child.stdin.flush()
        line = self.child.stdout.readline()
        r = json.loads(line) if line else {"ok": False, "crash": "process died"}
        for d in ("cython_files", "shared_objects"):
            d = self.root + "/build/" + d
            for f in os.listdir(d) if os.path.isdir(d) else []:
                if os.stat(os.path.join(d, f)).st_mtime > time.time() - 10 ** 5:
                    os.utime(os.path.join(d, f), (self.clock, self.clock))
        done = open(self.log).read().split()[n:]
        ev = {"op": "include", "conf": {k: c[k] for k in ["loop"] + PARTS + ["repl", "code", "codeincl", "extra", "debug"]},
              "ok": r["ok"], "crash": r.get("crash", ""), "compiled": "linker" in done, "tried": "cython" in done}
        m = r.get("made")
        ev["res"] = {"cls": [s.strip('"') for s in m["cls"]], "repl": m["repl"], "code": m["code"], "debug": m["debug"], "left": m["left"], "cfg": m["cfg"],
                     "names": [s == r["name"] or s == r["name"] + "CP" for s in m["names"]],
                     "files": [[f, v] for f, v in sorted(m["files"].items())]} if m else []
        return ev


out, w = open(outname, "w"), None
for line in open(sched):
    e = json.loads(line)
    op = e["op"]
    if op == "world":
        if w and w.child:
            w.child.stdin.close()
            w.child.wait()
        w = World(e)
        w.process()
        ev = {"op": op, "files": e["files"], "incl": [[f, x] for f, x in e["incl"].items()], "defs": e["defs"], "n": [[k, v] for k, v in e["n"].items()]}
    elif op == "edit":
        w.edit(e)
        ev = {"op": op, "file": e["file"], "broken": e.get("broken", False), "incl": w.incl.get(e["file"], [])}
    elif op == "process":
        w.process()
        ev = {"op": op}
    else:
        ev = w.include(e)
    out.write(json.dumps(ev) + "\n")
if w and w.child:
    w.child.stdin.close()
    w.child.wait()
shutil.rmtree(base, ignore_errors=True)
