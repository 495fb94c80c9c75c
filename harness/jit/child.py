"""One Python process of a user: reads configurations, calls include, tells what came back."""
import importlib.abc, importlib.util, io, contextlib, json, os, sys, types

root = os.environ["JIT_ROOT"]
sys.dont_write_bytecode = True
sys.modules["fiber_network"] = types.ModuleType("fiber_network")
sys.path.insert(0, root + "/import")


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            made = json.load(f)
        name = module.__name__
        setattr(module, name, type(name, (), {"made": made}))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        for p in sys.path:
            file = os.path.join(p, name + ".so")
            if name.startswith("mod") and os.path.isfile(file):
                return importlib.util.spec_from_loader(name, Loader(file))
        return None


sys.meta_path.insert(0, Finder())
import HyperHDG

objects = {}
for line in sys.stdin:
    c = json.loads(line)
    if c["object"] in objects:
        conf = objects[c["object"]]
    else:
        conf = objects[c["object"]] = HyperHDG.config()
        conf.global_loop, conf.topology, conf.geometry = c["loop"], c["topology"], c["geometry"]
        conf.node_descriptor, conf.local_solver = c["node_descriptor"], c["local_solver"]
        if c["repl"]:
            conf.cython_replacements = c["repl"]
        if c["text"]:
            conf.cpp_code = c["text"]
        if c["extra"]:
            conf.include_files = c["extra"]
        if c["debug"]:
            conf.debug_mode = True
    out = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            k = HyperHDG.include(conf)
        out = {"ok": True, "made": k.made, "name": k.__name__}
    except AssertionError:
        out = {"ok": False}
    except Exception as e:
        out = {"ok": False, "crash": type(e).__name__ + str(e)[:200]}
    print(json.dumps(out), flush=True)
