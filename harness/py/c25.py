"""C25: the import hook builds marked sources at each import, leaves the others alone, and survives any failure."""
import importlib
import itertools
import logging
import os
import pickle
import shutil
import sys

import pymc
from pymc import check

args = pymc.init(sys.argv[1:])
BIG = args.thorough
logging.disable(logging.CRITICAL)

import cppimport  # noqa: E402
import cppimport.build_module  # noqa: E402
import cppimport.checksum  # noqa: E402
import cppimport.find  # noqa: E402
import cppimport.importer as importer  # noqa: E402
import cppimport.templating  # noqa: E402
import mako.lookup  # noqa: E402,F401
import pybind11  # noqa: E402

cppimport.settings["lock_timeout"] = 3
SUFFIX = importer.get_extension_suffix()
HERE = [p for p in sys.path if os.path.exists(os.path.join(p, "tpl_alpha" + SUFFIX))][0]
TEMPLATES = {}
for f in os.listdir(HERE):
    if f.startswith("tpl_"):
        with open(os.path.join(HERE, f), "rb") as fd:
            TEMPLATES[f[4:-len(SUFFIX)]] = fd.read()


class World:
    fault = None  # (step, kind)
    hit = False
    builds = []


KINDS = {"import": ImportError, "os": PermissionError, "runtime": RuntimeError, "exit": SystemExit, "interrupt": KeyboardInterrupt}


def at(step):
    if World.fault and World.fault[0] == step and not World.hit:
        World.hit = True
        raise KINDS[World.fault[1]]("injected at " + step)


class CompileError(Exception):
    pass


def compiler(data):
    """In place of the compiler: the module tells what was compiled"""
    with open(data["rendered_src_filepath"]) as f:
        source = f.read()
    d = os.path.dirname(data["filepath"])
    text, nested, end = [], "-", "ok"
    for line in source.splitlines():
        w = line.split()
        if line.startswith("VALUE"):
            text.append(line)
        elif line.startswith("#include"):
            with open(os.path.join(d, w[1].strip('"'))) as f:
                text.append(f.read().strip())
        elif line.startswith("ERROR"):
            raise CompileError(line)
        elif line.startswith("END"):
            end = w[1]
        elif line.startswith("NESTED"):
            nested = w[1]
        elif line.startswith("IMPORT"):
            try:
                importlib.import_module(w[1])
            except ImportError:
                pass
    text = " ".join(text)
    cfg = data["cfg"]
    World.builds.append(dict(name=data["fullname"], path=os.path.realpath(data["filepath"]), text=text,
                             include=[os.path.realpath(i) for i in cfg["include_dirs"]], args=list(cfg["extra_compile_args"])))
    data.setdefault("extra_source_filepaths", [])
    blob = TEMPLATES[data["fullname"].split(".")[-1]]
    k = blob.index(b"@@TEXT@@")
    new = b"@@TEXT@@\n" + ("%s\n%s\n%s\n" % (text, nested, end)).encode() + b"\0"
    with open(data["ext_path"], "wb") as f:
        f.write(blob[:k] + new + blob[k + len(new):])
    importlib.invalidate_caches()


STEPS = []


def wrap(where, name, inner=None):
    old = inner or getattr(where, name)

    def f(*a, **k):
        at(name + " begins")
        r = old(*a, **k)
        at(name + " ends")
        return r

    f.__name__ = name
    setattr(where, name, f)
    STEPS.extend([name + " begins", name + " ends"])
    return f


for n in ("run_templating", "checksum_save", "setup_module_data", "build_safely", "load_module"):
    wrap(importer, n)
for n in ("setup_pybind11",):
    wrap(cppimport.templating, n)
wrap(cppimport.find, "find_module_cpppath")
b = wrap(importer, "build_module", compiler)
cppimport.build_module.build_module = b
really_remove = os.remove


def remove(path, *a, **k):
    if str(path).endswith(SUFFIX):
        at("remove begins")
        really_remove(path, *a, **k)
        at("remove ends")
    else:
        really_remove(path, *a, **k)


os.remove = os.unlink = remove
STEPS += ["remove begins", "remove ends"]

before = list(sys.meta_path)
import unpadded  # noqa: E402

INCLUDE = os.path.realpath(os.path.join(os.path.dirname(unpadded.__file__), "include"))
FAULTS = [(s, k) for s in STEPS for k in KINDS if not (s.startswith("remove") and k != "os")]

MARK = "// cppimport\n"
SETUP = "<%\nsetup_unpadded(cfg)\n%>\n"
FILES = {
    "d0/alpha.cpp": MARK + '#include "h.h"\nVALUE alpha ${V}\n' + SETUP,
    "d0/h.h": "header ${V}",
    "d1/beta.cpp": "/*cppimport*/ // and more\nVALUE beta ${V}\n" + SETUP,
    "d0/gamma.cpp": MARK + "VALUE gamma ${V}\nNESTED beta\n" + SETUP,
    "d0/delta.cpp": MARK + "VALUE delta ${V}\nIMPORT beta\nIMPORT pure\nIMPORT missing\n" + SETUP,
    "d0/eps.cpp": MARK + "<%\ntry:\n    import alpha\nexcept ImportError:\n    pass\nimport pure2\nsetup_unpadded(cfg)\n%>\nVALUE eps ${V}\n",
    "d0/plain.cpp": "VALUE plain ${V}\n// cppimport\n" + SETUP,
    "d0/pure.py": "SOURCE = 'pure'\n",
    "d0/pure2.py": "SOURCE = 'pure2'\n",
    "d0/both.cpp": "// marked: cppimport\nVALUE both ${V}\n" + SETUP,
    "d0/both.py": "SOURCE = 'python'\n",
    "d0/shade.cpp": "// nothing\nVALUE shade ${V}\n" + SETUP,
    "d0/shade.py": "SOURCE = 'shade'\n",
    "d0/badtemplate.cpp": MARK + "VALUE badtemplate ${V}\n<%\nraise KeyError(5)\n%>\n" + SETUP,
    "d0/badsyntax.cpp": MARK + "VALUE badsyntax ${V}\n<%\nif\n%>\n" + SETUP,
    "d0/badcode.cpp": MARK + "VALUE badcode ${V}\nERROR in the code\n" + SETUP,
    "d0/badload.cpp": MARK + "VALUE badload ${V}\nEND fails\n" + SETUP,
    "d0/badinit.cpp": MARK + "VALUE badinit ${V}\nEND raises\n" + SETUP,
    "d0/pkg/__init__.py": "",
    "d0/pkg/sub.cpp": MARK + "VALUE sub ${V}\n" + SETUP,
    "d1/bare.cpp": MARK + "VALUE bare ${V}\n",
}
MARKED = {"alpha": None, "beta": "beta %d", "gamma": "gamma %d", "delta": "delta %d", "eps": "eps %d", "both": "both %d",
          "pkg.sub": "sub %d", "bare": "bare %d"}
BROKEN = ["badtemplate", "badsyntax", "badcode", "badload", "badinit"]
OTHERS = {"plain": None, "pure": "pure", "shade": "shade", "missing": None, "pkg": "", "pkg.missing": None, "json.tool": ""}
NAMES = list(MARKED) + BROKEN + list(OTHERS)
FEW = ["alpha", "beta", "gamma", "eps", "badcode", "badload", "plain", "pure", "missing"]


def expected(name, v):
    """What a marked module must tell"""
    t = MARKED[name]
    if name == "alpha":
        return "header %d VALUE alpha %d" % (v["h"], v["alpha"])
    return "VALUE " + t % v[name.split(".")[-1]]


class Disk:
    """The sources of a run and their versions"""

    def __init__(self, root):
        self.root, self.v = root, {}
        os.makedirs(root)
        for f in FILES:
            self.write(f, 0)

    def write(self, f, v):
        p = os.path.join(self.root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fd:
            fd.write(FILES[f].replace("${V}", str(v)))
        self.v[os.path.basename(f).split(".")[0]] = v

    def edit(self, f):
        self.write(f, self.v[os.path.basename(f).split(".")[0]] + 1)


def process(disk, ops, paths="absolute"):
    """One Python process, which goes through the operations. Gives what each of them did."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if not args.replay:
                null = os.open("/dev/null", os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
            out = child(disk, ops, paths)
        except BaseException as e:
            out = "the process ends with %r" % (e,)
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    check(data, "a process died")
    out = pickle.loads(data)
    check(not isinstance(out, str), out)
    return out


def child(disk, ops, paths):
    if paths == "absolute":
        sys.path[:0] = [os.path.join(disk.root, "d0"), os.path.join(disk.root, "d1")]
    elif paths == "current":
        os.chdir(os.path.join(disk.root, "d0"))
        sys.path[:0] = ["", os.path.join("..", "d1")]
    else:
        os.chdir(disk.root)
        sys.path[:0] = ["d0", os.path.join(".", "d1")]
    out, given = [], []
    for op in ops:
        World.fault, World.hit, World.builds = None, False, []
        if op[0] == "dirs":
            given.append((op[1], list(op[1])))
            unpadded.set_extra_include_dirs(given[-1][1])
            out.append(None)
            continue
        if op[0] == "edit":
            disk.edit(op[1])
            out.append(dict(disk.v))
            continue
        _, name, fault = op
        World.fault = fault
        known = name in sys.modules
        path = list(sys.path)
        try:
            m = importlib.import_module(name)
            got = ("module", getattr(m, "SOURCE", ""), getattr(m, "__name__", "?"), type(m).__name__)
        except BaseException as e:
            got = ("failure", type(e).__name__, str(e)[:200], isinstance(e, Exception))
        World.fault = None
        out.append(dict(known=known, got=got, builds=World.builds, hit=World.hit, versions=dict(disk.v),
                        lists=[b for a, b in given if list(a) != b], kept=[m for m in MARKED if m in sys.modules], path=sys.path == path or fault is not None,
                        same=name not in sys.modules or got[0] != "module" or sys.modules[name] is m))
    return out


class Expect:
    """What the operations of one process must do"""

    def __init__(self):
        self.values, self.dirs, self.free = {}, [], set()

    def see(self, op, r):
        if op[0] == "dirs":
            self.dirs = [os.path.realpath(d) for d in op[1]]
            return
        if op[0] == "edit":
            return
        _, name, fault = op
        what = "the import of %s" % name + (" failing when %s (%s)" % fault if r["hit"] else "")
        got, builds = r["got"], r["builds"]
        check(r["path"], "%s changes sys.path" % what)
        check(not r["lists"], "%s changes the list of directories of the user into %r" % (what, r["lists"]))
        check(r["same"], "%s gives another module than the one which is registered" % what)
        # Modules which got loaded on the way
        for b in builds:
            if r["hit"] and fault[1] == "import":
                break  # another importer may have loaded an older version
            check(b["name"] == name, "%s builds %s, although it is imported by a build" % (what, b["name"]))
        if name in MARKED:
            want = expected(name, r["versions"])
            if r["known"]:
                check(not builds, "%s, which is loaded already, builds it again" % what)
            elif not r["hit"]:
                check(builds, "%s does not build it: %r" % (what, got))
            for b in builds:
                if b["name"] != name:
                    continue
                check(b["text"] == want, "%s builds %r instead of %r" % (what, b["text"], want))
                check("-std=c++17" == [a for a in b["args"] if a.startswith("-std")][-1] if name != "bare" else not b["args"],
                      "%s compiles with %r" % (what, b["args"]))
                if name != "bare":
                    inc = b["include"]
                    check(INCLUDE in inc, "%s compiles without the headers of the library" % what)
                    left = [i for i in inc if i not in (INCLUDE, os.path.realpath(pybind11.get_include()),
                                                        os.path.realpath(pybind11.get_include(True)))]
                    check(left == self.dirs, "%s compiles with the directories %r instead of %r" % (what, left, self.dirs))
                else:
                    check(not b["include"], "%s compiles with directories it did not ask for" % what)
            if builds and name in r["kept"]:
                self.values[name] = want
            if not r["hit"]:
                check(got[0] == "module", "%s fails: %r" % (what, got))
                if r["known"]:
                    want = self.values.get(name)
                if want is not None and name not in self.free:
                    check(got[1] == want, "%s gives the module built from %r instead of %r" % (what, got[1], want))
                check(got[3] == "module", "%s gives a %s" % (what, got[3]))
            elif got[0] == "module" and fault[1] != "import":
                check(got[1] == want, "%s gives the module built from %r instead of %r" % (what, got[1], want))
            elif got[0] == "module":  # the other importers may find something under this name
                self.free.add(name)
        elif name in BROKEN:
            check(got[0] == "failure", "%s, which is broken, gives %r" % (what, got))
            if not r["hit"]:
                check(got[3], "%s ends with %r" % (what, got))
        elif r["hit"]:
            check(not builds, "%s builds something" % what)
        else:
            check(not builds, "%s builds something" % what)
            if OTHERS[name] is None:
                check(got[:2] == ("failure", "ModuleNotFoundError"), "%s gives %r" % (what, got))
            else:
                check(got[0] == "module" and got[1] == OTHERS[name], "%s gives %r" % (what, got))


COUNT = itertools.count()


def run(*processes, paths="absolute"):
    """Runs the processes one after another (a list of operations, or the name of a file to edit)"""
    disk = Disk(os.path.join(os.getcwd(), "run%d-%d" % (os.getpid(), next(COUNT))))
    try:
        for p in processes:
            if isinstance(p, str):
                disk.edit(p)
                continue
            rs = process(disk, p, paths)
            e = Expect()
            for op, r in zip(p, rs):
                e.see(op, r)
                if op[0] == "edit":
                    disk.v = r
                if op[0] == "import":
                    pymc.count("imports")
                    pymc.count("builds", len(r["builds"]))
                    if r["hit"]:
                        pymc.count("failures injected: %s" % op[2][0])
                    pymc.outcome((op[1], r["got"], len(r["builds"]), r["hit"]))
    finally:
        shutil.rmtree(disk.root, ignore_errors=True)


def imp(n, fault=None):
    return ("import", n, fault)


ALL = [imp(n) for n in NAMES]
PARTS = 8
SOURCES = ["d0/alpha.cpp", "d0/h.h", "d1/beta.cpp", "d0/gamma.cpp", "d0/eps.cpp", "d0/both.cpp", "d0/pkg/sub.cpp"]


def shard(name, cases, fn, cap=0):
    mine = cases[args.part::PARTS]

    def f(ch):
        c = mine[ch(len(mine))]
        pymc.sample("%s: %s" % (name, c)) if len(pymc.W.samples) < 2 else None
        fn(*c)
    if mine:
        pymc.explore(name, f, cap)


# Sequences of imports in one process, then all of them in another one after an edition
names = NAMES if BIG else FEW
shard("sequences", [(s,) for s in itertools.product(names, repeat=3 if BIG else 2)],
      lambda s: run([imp(n) for n in s] + ALL[:4], [imp(n) for n in reversed(s)]))
# Editions between processes: each import builds what the source is by then
shard("editions", [(a, f, b) for a in NAMES for f in SOURCES for b in list(MARKED)],
      lambda a, f, b: run([imp(a), imp(b)], f, [imp(b), imp(a)]))
if BIG:
    shard("two editions", [(a, f, g, b) for a in MARKED for f in SOURCES for g in SOURCES for b in MARKED],
          lambda a, f, g, b: run([imp(b)], f, [imp(a)], g, [imp(a), imp(b)]))
# A failure at every step of an import, followed by all the imports
shard("failures", [(n, f) for n in ["alpha", "eps", "pkg.sub", "plain", "both", "badload"] for f in FAULTS],
      lambda n, f: run([imp(n, f), imp(n)] + ALL, [imp("alpha"), imp("beta")]))
shard("failures of rebuilds", [(n, f) for n in ["alpha", "gamma", "delta"] for f in FAULTS],
      lambda n, f: run([imp(n)], "d0/h.h", [imp(n, f), imp("beta"), ("edit", "d0/%s.cpp" % n), imp(n)], [imp(n)])
      if not f[0].startswith(("load", "build_safely ends")) else run([imp(n)], "d0/h.h", [imp(n, f), imp("beta"), imp(n)], [imp(n)]))
shard("two failures", [(n, f, m, g) for n in (["alpha", "beta"] if BIG else ["alpha"]) for f in FAULTS[::1 if BIG else 3]
                       for m in ["beta", "pure"] for g in FAULTS[::1 if BIG else 5]],
      lambda n, f, m, g: run([imp(n, f), imp(m, g), imp(n), imp(m), imp("missing"), imp("gamma")]), 0 if BIG else 3000)
# Configuration
DIRS = [[], ["/x"], ["/y", "/z"]]
shard("directories", [(d, a, e, b) for d in DIRS for a in ("alpha", "bare", "badcode", "plain") for e in DIRS for b in ("beta", "gamma", "bare")],
      lambda d, a, e, b: run([("dirs", d), imp(a), ("dirs", e), imp(b), imp("both")]))
# Where the sources are
for p in ("current", "relative"):
    shard("sources, %s" % p, [(a, b) for a in NAMES for b in NAMES], lambda a, b: run([imp(a), imp(b)], [imp(b), imp(a)], paths=p))
check(all(h in sys.meta_path for h in before), "importers are gone")
pymc.finish()
