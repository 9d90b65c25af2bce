"""Explorers of the programs which use the library: C32 (misuses are refused) and C33 (headers)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
HINTS = ["-DUPD_PLATFORM_ENDIANESS=LITTLE", "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"]
CONFIGS = {"cpp11": ("c++11", []), "cpp17": ("c++17", []), "cpp11-hints": ("c++11", HINTS), "cpp17-hints": ("c++17", HINTS),
           "cpp14": ("c++14", []), "cpp20": ("c++20", [])}


def sh(cmd, cwd, timeout=300):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


class Explorer:
    def __init__(self, runner):
        self.r = runner
        self.cxx = shutil.which("g++-11") or "g++"
        self.results = []
        self.noanswer = []
        self.pool = cf.ThreadPoolExecutor(os.cpu_count() or 4)

    def base(self, config):
        std, defs = CONFIGS[config]
        return [self.cxx, "-std=" + std, "-w", "-fmax-errors=1", "-ftemplate-depth=4000"] + defs + ["-I" + os.path.join(self.r.repo, "include")]

    def write(self, name, text):
        path = os.path.join(self.r.build, name)
        with open(path, "w") as f:
            f.write(text)
        return path

    def report(self, config, scenario, msg, files, commands, log):
        """`files`: name -> text; `commands` to run in the directory which holds them"""
        if len(self.r.violations) >= 6:
            return
        path = os.path.join(self.r.outdir, "replay-%d.json" % len(self.r.violations))
        with open(path, "w") as f:
            json.dump(dict(property=self.r.prop, tier=self.r.tier, config=config, scenario=scenario, message=msg, files=files,
                           commands=commands, log=log[:3000]), f, indent=1)
        self.r.violations.append((path, msg))
        print("%s: %s [%s, %s]" % (self.r.prop, msg, scenario, config))
        print("VIOLATION property=%s replay=%s" % (self.r.prop, path), flush=True)

    def add(self, config, scenario, states, executions, outcomes, samples, counters=None, transitions=None):
        self.results.append(((dict(src="programs"), config, None), dict(
            states=states, transitions=transitions or states, executions=executions, outcomes=outcomes, samples=samples,
            counters=counters or {}, scenarios=[dict(name=scenario, digest="0", complete=True, note="", states=states,
                                                     transitions=transitions or states, depth=1)])))

    def control(self):
        """Whether the toolchain compiles what does not use the library"""
        p = self.write("control.cpp", "#include <vector>\nint main() { return int(std::vector<int>{}.size()); }\n")
        return sh([self.cxx, "-std=c++11", p, "-o", p + ".exe"], self.r.build)[0] == 0

    # ------------------------------------------------------------------------------------------------------ misuses

    def misuses(self, config):
        import misuse
        std, _ = CONFIGS[config]
        d = os.path.join(self.r.build, config)
        os.makedirs(d)
        with open(os.path.join(d, "prelude.hpp"), "w") as f:
            f.write(misuse.PRELUDE)
        base = self.base(config)
        # The headers are read once
        rc, log = sh(base + ["-x", "c++-header", os.path.join(d, "prelude.hpp")], d)
        if rc:
            if not self.control():
                self.noanswer.append("the toolchain does not work: " + log[-500:])
            else:
                self.report(config, "headers", "the headers do not compile: " + log[:300], {"prelude.hpp": misuse.PRELUDE},
                            [base + ["-x", "c++-header", "prelude.hpp"]], log)
            return
        programs = misuse.programs(std if std in ("c++11", "c++14") else "c++17")

        def text(body):
            return '#include "prelude.hpp"\nvoid use() { %s }\n' % body

        def one(i):
            f = os.path.join(d, "%d.cpp" % i)
            with open(f, "w") as fh:
                fh.write(text(programs[i][3]))
            r = sh(base + ["-fsyntax-only", "-I" + d, f], d)
            os.remove(f)
            return r

        right = {}
        for (place, name, ok, body), (rc, log) in zip(programs, self.pool.map(one, range(len(programs)))):
            c = right.setdefault(place, [0, 0])
            c[0 if ok else 1] += 1
            if (rc == 0) == ok:
                continue
            # Once more, without the precompiled headers
            files = {"prelude.hpp": misuse.PRELUDE, "program.cpp": text(body)}
            again = os.path.join(self.r.build, "again")
            shutil.rmtree(again, ignore_errors=True)
            os.makedirs(again)
            for n, t in files.items():
                with open(os.path.join(again, n), "w") as fh:
                    fh.write(t)
            cmd = base + ["-fsyntax-only", "program.cpp"]
            rc, log = sh(cmd, again)
            if (rc == 0) == ok:
                self.r.notes.append("not reproduced: %s: %s" % (place, name))
                self.noanswer.append(self.r.notes[-1])
                continue
            if rc and not self.control():
                self.noanswer.append("the toolchain does not work: " + log[-500:])
                return
            first = next((l for l in log.splitlines() if "error" in l), "")
            self.report(config, place, "a right use is refused: %s: %s" % (body, first[:200]) if ok else "a misuse is accepted: %s" % body,
                        files, [cmd], log)
        for place, (n, m) in sorted(right.items()):
            self.add(config, place, n + m, n + m, 2 if n and m else 1,
                     ["%s: %s -> %s" % (place, p[3][:120], "accepted" if p[2] else "refused") for p in programs if p[0] == place][-1:],
                     dict(right_uses=n, misuses=m))
        shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------------------------------------------------ headers

    def program(self, config, scenario, units, run=True, extra=()):
        """Compiles the units (name -> text) and runs them together: the lines they print"""
        d = os.path.join(self.r.build, config + "-" + scenario.replace(" ", "-"))
        os.makedirs(d)
        base = self.base(config) + list(extra)
        for n, t in units.items():
            with open(os.path.join(d, n), "w") as fh:
                fh.write(t)
        objects = list(self.pool.map(lambda n: sh(base + ["-c", n, "-o", n + ".o"], d), sorted(units)))
        cmds = [base + ["-c", n, "-o", n + ".o"] for n in sorted(units)]
        link = [self.cxx, "-o", "all"] + [n + ".o" for n in sorted(units)] + ([] if run else ["-shared"])
        cmds += [link] + ([["./all"]] if run else [])
        for n, (rc, log) in zip(sorted(units), objects):
            if rc:
                return self.trouble(config, scenario, "%s does not compile: %s" % (n, log[:300]), units, cmds, log)
        rc, log = sh(link, d)
        if rc:
            return self.trouble(config, scenario, "the units cannot be linked together: " + log[:300], units, cmds, log)
        out = ""
        if run:
            rc, out = sh([os.path.join(d, "all")], d)
            if rc or len(set(out.splitlines())) != 1:
                return self.trouble(config, scenario, "the units differ", units, cmds, out)
        shutil.rmtree(d, ignore_errors=True)
        return out

    def trouble(self, config, scenario, msg, files, cmds, log):
        if self.control():
            self.report(config, scenario, msg, files, cmds, log)
        else:
            self.noanswer.append("the toolchain does not work: " + log[-500:])
        return None

    def headers(self, config, depth):
        import headers as h
        base = self.base(config)
        orders = list(h.orders(depth))
        d = os.path.join(self.r.build, config)
        os.makedirs(d)

        def one(o):
            text = h.unit(o, h.usable(o), "use", std_first=False)
            f = os.path.join(d, "-".join(o) + ".cpp")
            with open(f, "w") as fh:
                fh.write(text)
            r = sh(base + ["-fsyntax-only", f], d)
            os.remove(f)
            return text, r

        for o, (text, (rc, log)) in zip(orders, self.pool.map(one, orders)):
            if rc:
                self.trouble(config, "order", "after %s, what they declare cannot be used: %s" % (
                    ", ".join(o), next((l for l in log.splitlines() if "error" in l), "")[:300]), {"program.cpp": text},
                    [base + ["-fsyntax-only", "program.cpp"]], log)
        self.add(config, "orders of inclusion", len(orders), len(orders), 1, [", ".join(o) for o in orders[-2:]])
        n = len(h.PUBLIC)
        rings = {"rotations": [h.PUBLIC[i:] + h.PUBLIC[:i] for i in range(n)],
                 "reversed rotations": [(h.PUBLIC[i:] + h.PUBLIC[:i])[::-1] for i in range(n)]}
        lines = {}
        for name, os_ in rings.items():
            units = {"unit%d.cpp" % i: h.unit(o, h.usable(o), "unit%d" % i, std_first=i % 2 == 0) for i, o in enumerate(os_)}
            units["main.cpp"] = h.MAIN % ("".join("void unit%d();\n" % i for i in range(n)), ", ".join("unit%d" % i for i in range(n)))
            out = self.program(config, name, units)
            if out is not None:
                lines[name] = set(out.splitlines())
                self.add(config, name + " linked together", n, n + n * n, 1, [out.splitlines()[0][:200]], transitions=n * n)
        if len(lines) == 2 and lines["rotations"] != lines["reversed rotations"]:
            self.report(config, "rotations", "what is done depends on the order of inclusion", {}, [], str(lines))

    def binding(self, config):
        """The header of the Python binding, with each other one"""
        import headers as h
        py = "/opt/vp/venv/bin/python"
        py = py if os.path.exists(py) else sys.executable
        rc, log = sh([py, "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include())"], self.r.build)
        if rc:
            self.noanswer.append("pybind11 is not there: " + log[-300:])
            return
        inc = ["-I" + i for i in log.split()[-2:]] + ["-fPIC", "-fvisibility=hidden"]
        base = self.base(config) + inc
        orders = [(h.BINDING,)] + [o for x in h.PUBLIC for o in ((h.BINDING, x), (x, h.BINDING))]
        d = os.path.join(self.r.build, config + "-binding")
        os.makedirs(d)

        def one(o):
            text = h.unit(o, h.usable(o), "use", std_first=False)
            f = os.path.join(d, "-".join(o) + ".cpp")
            with open(f, "w") as fh:
                fh.write(text)
            return text, sh(base + ["-fsyntax-only", f], d)

        for o, (text, (rc, log)) in zip(orders, self.pool.map(one, orders)):
            if rc:
                self.trouble(config, "order", "after %s, what they declare cannot be used: %s" % (
                    ", ".join(o), next((l for l in log.splitlines() if "error" in l), "")[:300]), {"program.cpp": text},
                    [base + ["-fsyntax-only", "program.cpp"]], log)
        self.add(config, "orders of inclusion with the Python binding", len(orders), len(orders), 1, [", ".join(o) for o in orders[-2:]])
        units = {"unit%d.cpp" % i: h.unit(o, [], "unit%d" % i) for i, o in enumerate([(h.BINDING,) + tuple(h.PUBLIC), tuple(h.PUBLIC) + (h.BINDING,)])}
        if self.program(config, "binding units", units, run=False, extra=inc) is not None:
            self.add(config, "two units of the Python binding linked together", 2, 2, 1, [])


def replay(runner, art):
    d = os.path.join(runner.build, "replay")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in art["files"].items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    print(art["message"])
    rc = 0
    for c in art["commands"]:
        rc, log = sh(c, d)
        print(" ".join(c) + "\n" + log[:2000])
        if rc:
            break
    print("exit status of the last command: %d" % rc)
    return 1


def main(runner, art):
    if art:
        return replay(runner, art)
    e = Explorer(runner)
    spec = runner.spec
    for c in spec["configs_" + runner.tier]:
        if spec["programs"] == "misuses":
            e.misuses(c)
        else:
            e.headers(c, 2 if runner.tier == "quick" else 3)
    if spec["programs"] == "headers":
        e.binding("cpp17")
    return runner.finish(e.results, 0, e.noanswer)
