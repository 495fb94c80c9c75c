"""Stand-ins of the programs run by include(): cython, compiler and linker.

They record what they were given, so that the module which is loaded in the end tells what it was made from."""
import json, os, re, sys

PLACEHOLDERS = r"CyReplace\d\d|C\+\+ClassName|CythonClassName|PythonClassName|IncludeFiles"


def fail(text):
    sys.stderr.write(text + "\n")
    sys.exit(1)


def note(what):
    with open(os.environ["JIT_LOG"], "a") as f:
        f.write(what + "\n")


def cython(args):
    note("cython")
    base = args[-1][:-len(".pyx")]
    with open(base + ".cpp", "w") as f:
        json.dump({"pyx": open(base + ".pyx").read(), "pxd": open(base + ".pxd").read(), "flags": args[:-1]}, f)


def version(text):
    m = re.search(r"version (\d+)( broken)?", text)
    if m.group(2):
        fail("compile error")
    return int(m.group(1))


def compiler(args):
    note("compiler")
    root = os.environ["JIT_ROOT"]
    src = json.load(open(args[args.index("-c") + 1]))
    dirs = [a[2:] for a in args if a.startswith("-I")]
    text = src["pxd"] + src["pyx"]
    left = re.findall(PLACEHOLDERS, text)
    files, todo, code = {}, re.findall(r'cdef extern from "<(.*)>": pass', src["pxd"]), 0
    seen = set()
    order = []
    while todo:
        name = todo.pop(0)
        where = [p for p in ([name] if name.startswith("/") else [os.path.join(d, name) for d in dirs]) if os.path.isfile(p)]
        if not where:
            fail("no file " + name)
        path = os.path.realpath(where[0])
        if path in seen:
            continue
        seen.add(path)
        content = open(path).read()
        rel = os.path.relpath(path, root)
        if rel.startswith("build/"):
            code = int(re.search(r"code (\d+)", content).group(1))
        else:
            files[rel] = version(content)
        todo += re.findall(r"#include <(HyperHDG/[^>]*)>", content)
    for end in ("pyx", "pxd"):
        files["template." + end] = version(src[end])
    get = lambda key: [s.strip() for s in re.findall(r"^%s (.*)$" % key, text, flags=re.M)]
    flags = [a for a in args if a.startswith("-DCFG=")]
    json.dump({"cls": get("class"), "names": get("name"), "repl": get("repl"), "files": files, "code": code, "left": len(left),
               "debug": "-DNDEBUG" not in args, "cfg": int(flags[0][6:]) if flags else 0, "std": [a for a in args if a.startswith("--std")]},
              open(args[args.index("-o") + 1], "w"))


def linker(args):
    note("linker")
    obj = [a for a in args if a.endswith(".o")][0]
    with open(obj) as f:
        text = f.read()
    with open(args[args.index("-o") + 1], "w") as f:
        f.write(text)


if __name__ == "__main__":
    {"cython": cython, "compiler": compiler, "linker": linker}[sys.argv[1]](sys.argv[2:])
