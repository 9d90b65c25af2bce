"""Builds the Python package and the test modules from /repo, and runs the explorers of the Python side."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/vp/venv/bin/python"


def out(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode("utf-8", "replace").strip()


class Kit:
    def __init__(self, runner):
        self.r = runner
        self.py = VENV if os.path.exists(VENV) else sys.executable
        self.cxx = shutil.which("g++-11") or "g++"
        info = json.loads(out([self.py, "-c", "import json,sysconfig,pybind11;print(json.dumps([sysconfig.get_config_var('EXT_SUFFIX'),"
                                              "sysconfig.get_path('include'),pybind11.get_include()]))"]).splitlines()[-1])
        self.suffix, self.inc = info[0], info[1:]
        self.pkg = os.path.join(runner.build, "pkg")
        self.errors = []

    def compile(self, src, dst, flags):
        cmd = [self.cxx, "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-ftemplate-depth=4000"] + flags
        cmd += ["-I" + os.path.join(self.r.repo, "include"), "-I" + HERE] + ["-I" + i for i in self.inc] + [src, "-o", dst]
        if os.environ.get("VERIF_CCACHE"):
            cmd = ["ccache"] + cmd
        r = None
        for _ in range(2):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                return None
        return cmd, r.stdout.decode("utf-8", "replace")

    def package(self, where, flags):
        """The package `unpadded`, as the build tree holds it"""
        d = os.path.join(where, "unpadded")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(self.r.repo, "py", "unpadded")
        for f in os.listdir(src):
            if f.endswith(".py"):
                shutil.copy(os.path.join(src, f), os.path.join(d, f))
        inc = os.path.join(d, "include")
        if not os.path.exists(inc):
            os.symlink(os.path.join(self.r.repo, "include"), inc)
        return os.path.join(src, "_details.cpp"), os.path.join(d, "_details" + self.suffix), flags

    def control(self):
        """Whether the toolchain works at all"""
        src = os.path.join(self.r.build, "control.cpp")
        with open(src, "w") as f:
            f.write('#include <pybind11/pybind11.h>\nPYBIND11_MODULE(control, m) {}\n')
        return self.compile(src, os.path.join(self.r.build, "control" + self.suffix), []) is None


ASAN = ["-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer"]
VARIANTS = {"py": ["-O1"], "py-asan": ASAN}


def environment(kit, variant, where):
    e = dict(os.environ)
    e["PYTHONPATH"] = os.pathsep.join([where, HERE])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["CCACHE_DISABLE"] = "1"
    e.pop("PYTHONMALLOC", None)
    if variant == "py-asan":
        libs = [out([kit.cxx, "-print-file-name=libasan.so"]), out([kit.cxx, "-print-file-name=libstdc++.so.6"])]
        e["LD_PRELOAD"] = " ".join(os.path.realpath(l) for l in libs)
        e["PYTHONMALLOC"] = "malloc"
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0"
    return e


def main(runner, replay=None):
    kit = Kit(runner)
    spec = runner.spec
    thorough = runner.tier == "thorough"
    variants = spec.get("variants_" + runner.tier, spec.get("variants", ["py"]))
    results, noanswer, todo, runs = [], [], [], []
    for v in variants:
        where = os.path.join(runner.build, v)
        os.makedirs(where, exist_ok=True)
        todo.append(kit.package(where, VARIANTS[v]))
        for name, (src, defs) in dict(spec.get("modules", {}), **(spec.get("modules_thorough", {}) if thorough else {})).items():
            todo.append((os.path.join(HERE, src), os.path.join(where, name + kit.suffix),
                         VARIANTS[v] + ["-DMODULE=" + name] + defs))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        errs = list(pool.map(lambda t: kit.compile(*t), todo))
    bad = [(t, e) for t, e in zip(todo, errs) if e]
    if bad:
        if not kit.control():
            noanswer.append("the toolchain does not work: " + bad[0][1][1][-1000:])
        else:
            for t, (cmd, log) in bad[:3]:
                first = next((l for l in log.splitlines() if "error" in l), log[-300:])
                f = dict(scenario="compilation", index=0, choices=[], msg="%s does not compile: %s" % (os.path.basename(t[0]), first[:400]))
                runner.report(dict(src=os.path.basename(t[0])), "py", None, None, f, cmd, log)
        return runner.finish(results, 0, noanswer)

    jobs = [(v, p) for v in variants for p in range(spec.get("parts_" + runner.tier, spec.get("parts", 1)))]

    def command(v, p, extra):
        where = os.path.join(runner.build, v)
        cmd = [kit.py, "-B", "-X", "faulthandler", os.path.join(HERE, spec["script"]), "--part", str(p)] + extra
        if thorough:
            cmd.append("--thorough")
        return cmd, environment(kit, v, where), where

    def launch(v, p, extra, timeout):
        cmd, env, where = command(v, p, extra)
        scratch = os.path.join(runner.build, "scratch-%s-%d-%d" % (v, p, len(extra)))
        os.makedirs(scratch, exist_ok=True)
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=scratch)
            return r.returncode, r.stdout.decode("utf-8", "replace")[-6000:]
        except subprocess.TimeoutExpired:
            return "timeout", ""
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    if replay:
        rc, text = launch(replay["config"], int(replay["part"] or 0), ["--replay", "%s|%s" % (
            replay["scenario"], ",".join(map(str, replay["choices"])))], 600)
        print(text)
        print("REPRODUCED" if rc else "NOT REPRODUCED")
        return 1 if rc else 0

    def work(job):
        v, p = job
        o = os.path.join(runner.build, "%s-%d.json" % job)
        case = os.path.join(runner.build, "%s-%d.case" % job)
        budget = runner.total_budget
        rc, text = launch(v, p, ["--out", o, "--case", case, "--budget", str(budget)], budget + 200)
        return job, rc, text, o, case

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        for job, rc, text, o, case in pool.map(work, jobs):
            v, p = job
            unit = dict(src=spec["script"])
            fails = []
            if rc in (0, 3):
                try:
                    with open(o) as f:
                        d = json.load(f)
                    results.append(((unit, v, p), d))
                    fails = d["failures"]
                except Exception as e:
                    noanswer.append("unreadable result: %s\n%s" % (e, text[-500:]))
                    continue
            else:
                name, _, ch = runner.read_case(case)
                if name in ("", "?"):
                    # Nothing was run yet: it is either the library which cannot be imported, or the harness
                    name, ch = "startup", []
                what = "the exploration did not end" if rc == "timeout" else "crash (exit status %s)" % rc
                fails = [dict(scenario=name, index=0, choices=ch, msg=what, desc=text[-900:])]
            for f in fails[:3]:
                rep = "%s|%s" % (f["scenario"], ",".join(map(str, f["choices"])))
                rc2, t2 = launch(v, p, ["--replay", rep], 300) if f["scenario"] != "startup" else launch(v, p, ["--replay", "startup|"], 300)
                if rc2 == 0:
                    noanswer.append("the failure of %s does not happen again: %s" % (f["scenario"], f["msg"]))
                    continue
                runner.report(unit, v, p, None, f, command(v, p, ["--replay", rep])[0], t2)
    return runner.finish(results, 0, noanswer, dict(python=out([kit.py, "--version"])))
