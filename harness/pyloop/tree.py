"""Makes a scratch source tree with the Python interface of the repository and hypergraphs and local solvers of our own,
and compiles one class with the real Cython and compiler:  tree.py make REPO TREE FLAGS | tree.py compile TREE LOOP KIND DEBUG OUT"""
import json, os, shutil, sys, sysconfig, types

here = os.path.dirname(os.path.abspath(__file__))
harn = os.path.dirname(here)
SOLVER = {"Parabolic": "MockPar", "NonlinearEigenvalue": "MockNon"}


def header(tree, folder, names, text):
    with open("%s/include/HyperHDG/%s/mock.hxx" % (tree, folder), "w") as f:
        f.write('#pragma once\n#include "%s/loopmock.hpp"\n' % harn)
        f.write("#if 0\n" + "".join("\nclass %s\n{\n};\n" % n for n in names) + "#endif\n" + text)


def make(repo, tree, flags):
    for d in ("import", "cython", "include"):
        shutil.copytree(os.path.join(repo, d), os.path.join(tree, d), ignore=shutil.ignore_patterns("__pycache__"))
    os.makedirs(tree + "/build")
    for m in ("tensor_product_chain_complex.git", "tensor_product_polynomials.git"):
        os.makedirs(tree + "/submodules/" + m)
        os.symlink(harn + "/stubs", tree + "/submodules/" + m + "/include")
    inc = sysconfig.get_paths()["include"]
    values = {"CMAKE_CXX_COMPILER": "g++", "Python3_INCLUDE_DIRS": inc, "PROJECT_SOURCE_DIR": tree, "LINKED_STRING": "-llapack -lblas",
              "CMAKE_CXX_FLAGS": "-w -D_GLIBCXX_ASSERTIONS -include %s/prelude.hxx %s" % (harn, flags), "CMAKE_SHARED_LINKER_FLAGS": "",
              "CYTHON_EXECUTABLE": "cython3", "Python3_VERSION_MAJOR": str(sys.version_info.major), "Python3_VERSION_MINOR": str(sys.version_info.minor)}
    text = open(os.path.join(repo, "cmake_cython.cfg.in")).read()
    for k, v in values.items():
        text = text.replace("${%s}" % k, v)
    open(tree + "/build/cmake_cython.cfg", "w").write(text.replace("-O3", "-O0"))
    kinds = {"Text": "std::string", "Numbers": "std::vector<unsigned>"}
    header(tree, "topology", ["Mock" + k for k in kinds], "namespace Topology\n{\n" + "".join("using Mock%s = TopoOf<%s>;\n" % x for x in kinds.items()) + "}\n")
    header(tree, "geometry", ["Mock" + k for k in kinds], "namespace Geometry\n{\n" + "using MockText = GeomOf<TopoOf<std::string>, std::string>;\n"
           "using MockNumbers = GeomOf<TopoOf<std::vector<unsigned>>, unsigned>;\n}\n")
    header(tree, "node_descriptor", ["Mock" + k for k in kinds], "namespace NodeDescriptor\n{\n" + "".join("using Mock%s = NodeOf<TopoOf<%s>>;\n" % x for x in kinds.items()) + "}\n")
    header(tree, "local_solver", ["Mock", "MockPar", "MockNon"], "namespace LocalSolver\n{\nusing Mock = Solver;\nusing MockPar = ParSolver;\nusing MockNon = NonSolver;\n}\n")


def compile_class(tree, loop, kind, debug, out):
    sys.dont_write_bytecode = True
    sys.modules["fiber_network"] = types.ModuleType("fiber_network")
    sys.path.insert(0, tree + "/import")
    import HyperHDG
    conf = HyperHDG.config()
    conf.global_loop, conf.local_solver = loop, SOLVER.get(loop, "Mock")
    conf.topology = conf.geometry = conf.node_descriptor = "Mock" + kind
    conf.cython_replacements = ["string", "string"] if kind == "Text" else ["vector[unsigned int]", "unsigned int"]
    conf.debug_mode = debug == "1"
    cls = HyperHDG.include(conf)
    json.dump({"name": cls.__name__, "file": tree + "/build/shared_objects/" + cls.__name__ + ".so"}, open(out, "w"))


if __name__ == "__main__":
    {"make": make, "compile": compile_class}[sys.argv[1]](*sys.argv[2:])
