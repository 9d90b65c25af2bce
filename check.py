#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree, explores, replays failures, writes the
evidence file.  Usage: check.py ID [--tier quick|thorough] [--replay FILE] [--repo DIR]

Exit 0: the property held on everything explored. Exit 1 with a line `VIOLATION property=ID replay=FILE`: it is broken.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "g++-11")
if not shutil.which(CXX):
    CXX = "g++"
CLANG = os.environ.get("VERIF_CLANG", "clang++")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["-w", "-ftemplate-depth=4000"]
CLBASE = ["-fbracket-depth=4000"]
GBASE = ["-fno-lifetime-dse"]
NPROC = os.cpu_count() or 4


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    # MSan is only used to ask whether bytes are initialised: the C++ library, which is not instrumented, makes it report others
    e["MSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:symbolize=0"
    return e


class Job:
    def __init__(self, name, unit, config, shard, nshards, part):
        self.name, self.unit, self.config = name, unit, config
        self.shard, self.nshards, self.part = shard, nshards, part
        self.result = None
        self.status = None


class Runner:
    def __init__(self, prop, tier, repo):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.spec = CHECKS[prop]
        self.build = os.path.join(HERE, "build", prop + "-" + tier)
        self.outdir = os.path.join(HERE, "out", prop)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build, exist_ok=True)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)
        self.t0 = time.time()
        self.violations = []
        self.notes = []
        self.total_budget = self.spec.get("budget", {}).get(tier, 200 if tier == "quick" else 2400)

    # ------------------------------------------------------------------------------------------------------- building

    def flags(self, unit, config, part, force_gcc=False):
        conf = CONFIGS[config]
        clang = unit.get("compiler", conf["compiler"]) == "clang" and not force_gcc
        f = [CLANG if clang else CXX, "-std=" + conf["std"]] + conf["defs"] + BASE + (CLBASE if clang else GBASE)
        if "flags" in unit or "flags" in conf:
            f += unit.get("flags", conf.get("flags"))
        elif self.tier == "thorough":
            f += ["-O1"] + SAN
        elif clang:
            f += ["-O0"] + SAN
        else:
            f += ["-O0", "-fsanitize=address"]
        f += ["-I" + os.path.join(self.repo, "include"), "-I" + os.path.join(HERE, "harness")]
        f += unit.get("defs", [])
        f += ["-DMC_CONFIG=\"%s\"" % config]
        if part is not None:
            f.append("-DPART=%d" % part)
        if self.tier == "thorough":
            f.append("-DTHOROUGH=1")
        return f

    def compile(self, unit, config, part):
        src = os.path.join(HERE, "harness", unit["src"])
        exe = os.path.join(self.build, "%s-%s%s" % (os.path.splitext(unit["src"])[0] + unit.get("tag", ""), config,
                                                     "" if part is None else "-p%d" % part))
        cmd, log = [], ""
        for attempt in range(3):
            # The library is built with GCC by its own build: Clang, used for its diagnostics, has no say on what compiles
            cmd = self.flags(unit, config, part, force_gcc=attempt > 0) + [src, "-o", exe]
            if os.environ.get("VERIF_CCACHE"):
                cmd = ["ccache"] + cmd
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                log = r.stdout.decode("utf-8", "replace")
                if r.returncode == 0:
                    return exe, None
            except subprocess.TimeoutExpired:
                log = "the compilation timed out"
        return None, (cmd, log)

    def control_compiles(self):
        """Whether the toolchain works at all, on a program that does not use the library."""
        src = os.path.join(self.build, "control.cpp")
        with open(src, "w") as f:
            f.write('#include "mc.hpp"\nint main(int c, char **v) { mc::init(c, v); return mc::finish(); }\n')
        r = subprocess.run([CXX, "-std=c++11"] + BASE + GBASE + ["-O1"] + SAN + ["-I" + os.path.join(HERE, "harness"), src, "-o",
                           src + ".exe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 0

    # -------------------------------------------------------------------------------------------------------- running

    def read_case(self, path):
        try:
            with open(path, "rb") as f:
                b = f.read()
            name = b[:2000].split(b"\0")[0].decode("latin1")
            index, progress, n = struct.unpack_from("<QQI", b, 2000)
            ch = list(struct.unpack_from("<%di" % min(n, 2000), b, 2020)) if n else []
            return name, index, ch
        except Exception:
            return "?", 0, []

    def launch(self, exe, args, timeout):
        try:
            r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=san_env(),
                               timeout=timeout, cwd=self.build)
            return r.returncode, r.stderr.decode("utf-8", "replace")[-6000:]
        except subprocess.TimeoutExpired:
            return "timeout", ""

    def run_exe(self, exe, unit, tag, shard, nshards):
        out = os.path.join(self.build, tag + ".json")
        case = os.path.join(self.build, tag + ".case")
        remaining = max(20.0, self.total_budget - (time.time() - self.t0))
        args = ["--out", out, "--case", case, "--shard", "%d/%d" % (shard, nshards), "--budget", "%.0f" % remaining]
        if self.tier == "thorough":
            args.append("--thorough")
        rc, err = self.launch(exe, args, remaining + 300)
        data = None
        if rc in (0, 3):
            try:
                with open(out) as f:
                    data = json.load(f)
            except Exception as e:
                return dict(kind="error", msg="unreadable result: %s" % e, err=err)
        if rc == 0:
            return dict(kind="ok", data=data)
        if rc == 3:
            return dict(kind="fail", data=data, failures=data["failures"])
        name, index, ch = self.read_case(case)
        what = {78: "the operation never ends", "timeout": "the exploration did not end"}.get(rc)
        if what is None:
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: MemorySanitizer[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?)", err)
            what = "crash (exit status %s): %s" % (rc, m.group(1) if m else err[-400:])
        return dict(kind="crash", data=None, rc=rc, err=err,
                    failures=[dict(scenario=name, index=index, choices=ch, msg=what, desc="")])

    def confirm(self, exe, f):
        """Runs the failing case alone. Returns (confirmed, text)."""
        rep = "%s|%d|%s" % (f["scenario"], f["index"], ",".join(map(str, f["choices"])))
        args = ["--replay", rep, "--hang", "150"]
        if self.tier == "thorough":
            args.append("--thorough")
        rc, err = self.launch(exe, args, 400)
        if rc == 0:
            return False, err
        return True, err

    def report(self, unit, config, part, exe, f, cmd, err):
        n = len(self.violations)
        path = os.path.join(self.outdir, "replay-%d.json" % n)
        art = dict(property=self.prop, tier=self.tier, unit=unit["src"] + unit.get("tag", ""), config=config, part=part, compile=cmd,
                   scenario=f["scenario"], index=f["index"], choices=f["choices"], message=f["msg"],
                   description=f.get("desc", ""), stderr=err[-3000:],
                   how_to="python3 /verif/check.py %s --replay %s" % (self.prop, path))
        with open(path, "w") as fh:
            json.dump(art, fh, indent=1)
        self.violations.append((path, f))
        print("%s: %s [%s, %s] %s" % (self.prop, f["msg"], f["scenario"], config, f.get("desc", "")))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    # ----------------------------------------------------------------------------------------------------------- main

    def main(self):
        if "python" in self.spec:
            return self.main_python()
        if "programs" in self.spec:
            return self.main_programs()
        units = [u for u in self.spec["units"] if self.tier in u.get("tiers", ["quick", "thorough"])]
        jobs = []
        for u in units:
            configs = u.get("configs_" + self.tier, u.get("configs", self.spec.get("configs", ["cpp11", "cpp17", "cpp11-hints", "cpp17-hints"])))
            parts = u.get("parts")
            if isinstance(parts, dict):
                parts = parts[self.tier]
            for c in configs:
                for p in u.get("partlist", range(parts) if parts else [None]):
                    jobs.append((u, c, p))
        results = []
        broken = None
        digests = {}
        pool_run = cf.ThreadPoolExecutor(NPROC)

        def work(job):
            u, c, p = job
            exe, err = self.compile(u, c, p)
            if exe is None:
                return job, None, err, []
            nsh = u.get("shards_" + self.tier, u.get("shards", 1))
            tag0 = os.path.basename(exe)
            if nsh == 1:
                rs = [self.run_exe(exe, u, tag0, 0, 1)]
            else:
                with cf.ThreadPoolExecutor(nsh) as p2:
                    rs = list(p2.map(lambda k: self.run_exe(exe, u, "%s-s%d" % (tag0, k), k, nsh), range(nsh)))
            return job, exe, None, rs

        all_ok = True
        noanswer = []
        for job, exe, err, rs in pool_run.map(work, jobs):
            u, c, p = job
            if exe is None:
                cmd, log = err
                if not self.control_compiles():
                    noanswer.append("the toolchain does not work: " + log[-1000:])
                    continue
                first = next((l for l in log.splitlines() if "error" in l), log[-300:])
                if len(self.violations) < 6:
                    self.report(u, c, p, None, dict(scenario="compilation", index=0, choices=[], msg="programs of the "
                                "property do not compile: " + first), cmd, log)
                continue
            for r in rs:
                if r["kind"] == "error":
                    noanswer.append(r["msg"] + r.get("err", "")[-500:])
                    continue
                if r["data"]:
                    results.append((job, r["data"]))
                    for s in r["data"]["scenarios"]:
                        if int(s["digest"], 16):
                            digests.setdefault((u["src"] + u.get("tag", ""), p, s["name"]), {})[c] = s["digest"]
                if r["kind"] != "ok":
                    for f in r["failures"][:3]:
                        if len(self.violations) >= 6:
                            break
                        ok, e = self.confirm(exe, f)
                        if not ok and r["kind"] == "crash" and r.get("rc") not in (78, "timeout"):
                            # the crash may need the whole exploration: run it once more
                            r2 = self.run_exe(exe, u, os.path.basename(exe) + "-again", 0, 1)
                            ok = r2["kind"] in ("crash", "fail")
                            e = r.get("err", "")
                        if ok:
                            self.report(u, c, p, exe, f, self.flags(u, c, p), e or r.get("err", ""))
                        else:
                            self.notes.append("not reproduced when replayed alone: %s: %s" % (f["scenario"], f["msg"]))
                            noanswer.append(self.notes[-1])
        # The same scenario must have the same digest in every configuration
        ndig = 0
        for (src, p, name), d in sorted(digests.items(), key=str):
            ndig += len(d)
            if len(set(d.values())) > 1 and len(self.violations) < 6:
                u = next(x for x in units if x["src"] + x.get("tag", "") == src)
                self.report(u, "/".join(sorted(d)), p, None,
                            dict(scenario=name, index=0, choices=[], msg="transcripts differ between configurations: %s" %
                                 ", ".join("%s=%s" % kv for kv in sorted(d.items()))), "", "")
        return self.finish(results, ndig, noanswer)

    def main_programs(self, replay=None):
        sys.path.insert(0, os.path.join(HERE, "harness", "programs"))
        import run
        return run.main(self, replay)

    def main_python(self, replay=None):
        import importlib.util
        spec = importlib.util.spec_from_file_location("pyrun", os.path.join(HERE, "harness", "py", "pyrun.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m.main(self, replay)

    def finish(self, results, ndig, noanswer, extra=None):
        states = sum(d["states"] for _, d in results)
        trans = sum(d["transitions"] for _, d in results)
        execs = sum(d["executions"] for _, d in results)
        outcomes = sum(d["outcomes"] for _, d in results)
        samples, counters, incomplete, scen = [], {}, [], 0
        per_config = {}
        for (u, c, p), d in results:
            per_config[c] = per_config.get(c, 0) + d["executions"]
            for s in d["samples"]:
                if len(samples) < 14 and s[:300] not in samples:
                    samples.append(s[:300])
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for s in d["scenarios"]:
                scen += 1
                if not s["complete"]:
                    incomplete.append("%s [%s]: %s (%d states, depth %d)" % (s["name"], c, s["note"], s["states"], s["depth"]))
        big = {}
        for (u, c, p), d in results:
            for s in d["scenarios"]:
                b = big.setdefault(s["name"], [0, 0, 0])
                b[0] += s["states"]
                b[1] += s["transitions"]
                b[2] = max(b[2], s["depth"])
        top = [dict(scenario=n, states=v[0], transitions=v[1], depth=v[2])
               for n, v in sorted(big.items(), key=lambda kv: -kv[1][0])[:12]]
        if not samples:
            samples = [t["scenario"] for t in top[:5]] or ["(none)"]
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=execs, samples=samples,
                   scenarios=scen, distinct_outcomes=outcomes, executions_per_configuration=per_config,
                   largest_scenarios=top, counters=counters,
                   bounded_scenarios=incomplete[:40], bounded_scenario_count=len(incomplete),
                   exhaustive=not incomplete, rule=self.spec["rule"])
        if ndig:
            cov["digests_compared"] = ndig
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=self.spec.get("level", "model_checking"),
                  coverage=cov, assumptions=self.spec.get("assumptions", []) + self.notes, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d scenarios, %d states, %d transitions, %d executions on the real code, %d outcomes, %.1f s%s" %
              (self.prop, self.tier, scen, states, trans, execs, outcomes, ev["wall_s"],
               ", %d bounded" % len(incomplete) if incomplete else ""))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.build, ignore_errors=True)
        if self.violations:
            return 1
        if noanswer:
            print("NO ANSWER: " + "; ".join(noanswer)[:3000])
            return 2
        if execs == 0:
            print("NO ANSWER: nothing was explored")
            return 2
        return 0

    def replay(self, path):
        with open(path) as f:
            art = json.load(f)
        if "programs" in self.spec:
            return self.main_programs(art)
        if "python" in self.spec:
            if art["scenario"] == "compilation":
                print(json.dumps(art, indent=1))
                return 1
            return self.main_python(art)
        u = next(x for x in self.spec["units"] if x["src"] + x.get("tag", "") == art["unit"])
        if art["scenario"] == "compilation" or "/" in art["config"]:
            print(json.dumps(art, indent=1))
            return 1
        exe, err = self.compile(u, art["config"], art["part"])
        if exe is None:
            print(err[1])
            return 1
        rep = "%s|%d|%s" % (art["scenario"], art["index"], ",".join(map(str, art["choices"])))
        rc, err = self.launch(exe, ["--replay", rep, "--trace", "--hang", "150"] + (["--thorough"] if art["tier"] == "thorough" else []), 400)
        print(err)
        print("REPRODUCED" if rc else "NOT REPRODUCED")
        return 1 if rc else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    if a.replay:
        path = os.path.abspath(a.replay)
        with open(path) as f:
            keep = f.read()
        r = Runner(a.prop, json.loads(keep)["tier"], a.repo)
        with open(path, "w") as f:
            f.write(keep)
        sys.exit(r.replay(path))
    sys.exit(Runner(a.prop, a.tier, a.repo).main())


if __name__ == "__main__":
    main()
