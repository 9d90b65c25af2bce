"""Exhaustive exploration from Python: depth-first over choices, breadth-first over states. Same reports as mc.hpp."""
import json
import mmap
import os
import struct
import sys
import time

ARGS = None


class Fail(Exception):
    pass


class Args:
    def __init__(self, argv):
        self.out = self.case = self.replay = None
        self.thorough = False
        self.part = 0
        self.budget = 600.0
        self.rest = {}
        it = iter(argv)
        for a in it:
            if a == "--thorough":
                self.thorough = True
            elif a == "--part":
                self.part = int(next(it))
            elif a == "--budget":
                self.budget = float(next(it))
            elif a in ("--out", "--case", "--replay"):
                setattr(self, a[2:], next(it))
            else:
                self.rest[a] = next(it)


class World:
    def __init__(self):
        self.t0 = time.time()
        self.scenarios, self.failures, self.samples = [], [], []
        self.counters, self.outcomes = {}, set()
        self.map = None
        self.want = None  # scenario and choices to replay


W = World()


def init(argv):
    global ARGS
    ARGS = Args(argv)
    if ARGS.case:
        with open(ARGS.case, "wb") as f:
            f.write(b"\0" * 12000)
        f = open(ARGS.case, "r+b")
        W.map = mmap.mmap(f.fileno(), 12000)
    if ARGS.replay:
        name, ch = ARGS.replay.rsplit("|", 1)
        W.want = (name, [int(x) for x in ch.split(",") if x])
    return ARGS


def begin(name, choices):
    """Leaves a trace of what is run, for crashes"""
    if W.map is not None:
        b = name.encode()[:1999]
        n = min(len(choices), 2000)
        W.map[0:len(b) + 1] = b + b"\0"
        struct.pack_into("<QQI", W.map, 2000, 0, 0, n)
        if n:
            struct.pack_into("<%di" % n, W.map, 2020, *choices[:n])


def count(k, n=1):
    W.counters[k] = W.counters.get(k, 0) + n


def outcome(x):
    if len(W.outcomes) < 2000000:
        W.outcomes.add(hash(x))


def sample(s):
    if len(W.samples) < 8:
        W.samples.append(s[:300])


def check(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(m) for m in msg))


def over():
    return time.time() - W.t0 > ARGS.budget


def fail(name, choices, msg, desc=""):
    W.failures.append(dict(scenario=name, index=0, choices=list(choices), msg=msg[:1500], desc=desc[:1500]))
    print("MC-FAIL %s: %s %s" % (name, msg, desc), flush=True)


class Ch:
    """A sequence of choices, the first ones being given"""

    def __init__(self, prefix):
        self.prefix, self.arity, self.pos = prefix, [], 0
        self.name = None

    def __call__(self, n, label=None):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            if c >= n:
                raise Fail("harness: divergence while replaying choice %d" % self.pos)
        else:
            c = 0
            self.prefix.append(0)
        self.arity.append(n)
        self.pos += 1
        if W.map is not None and self.pos <= 2000:
            struct.pack_into("<I", W.map, 2016, self.pos)
            struct.pack_into("<i", W.map, 2020 + 4 * (self.pos - 1), c)
        return c

    def of(self, seq, label=None):
        return seq[self(len(seq), label)]


def text(e):
    return "%s: %s" % (type(e).__name__, e)


def explore(name, fn, cap=0):
    if W.want and W.want[0] != name:
        return
    st = dict(name=name, states=1, transitions=0, depth=0, complete=True, note="", executions=0)
    prefix = list(W.want[1]) if W.want else []
    first = True
    while True:
        begin(name, [])
        before = len(prefix)
        ch = Ch(prefix)
        try:
            fn(ch)
        except Fail as e:
            fail(name, ch.prefix[:ch.pos], str(e))
            break
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            import traceback
            fail(name, ch.prefix[:ch.pos], "unexpected exception: " + text(e), traceback.format_exc()[-700:])
            break
        st["executions"] += 1
        st["depth"] = max(st["depth"], ch.pos)
        st["states"] += ch.pos if first else max(0, ch.pos - before + 1)
        first = False
        if W.want:
            break
        del prefix[ch.pos:]
        ar = ch.arity
        while prefix and prefix[-1] + 1 >= ar[len(prefix) - 1]:
            prefix.pop()
        if not prefix:
            break
        prefix[-1] += 1
        if (cap and st["executions"] >= cap) or (st["executions"] % 64 == 0 and over()):
            st["complete"], st["note"] = False, "execution cap or time budget reached"
            break
    st["transitions"] = max(0, st["states"] - 1)
    W.scenarios.append(st)


def bfs(name, make, max_states, max_depth):
    """make() -> system with nops(), enabled(op), apply(op), key(), op_name(op). States are rebuilt by replaying their path."""
    if W.want and W.want[0] != name:
        return
    st = dict(name=name, states=0, transitions=0, depth=0, complete=True, note="", executions=0)

    def run(path):
        begin(name, path)
        s = make()
        for op in path:
            s.apply(op)
        return s

    def names(path):
        try:
            s = make()
            return " ".join(s.op_name(o) for o in path)
        except BaseException as e:
            return "(%s)" % text(e)

    if W.want:
        try:
            s = run(W.want[1])
            s.key()
            if hasattr(s, "close"):
                s.close()
        except BaseException as e:
            fail(name, W.want[1], text(e), names(W.want[1]))
        return
    try:
        s = run([])
        seen = {s.key()}
    except BaseException as e:
        fail(name, [], text(e))
        return
    st["states"] = 1
    frontier = [[]]
    while frontier and not W.failures:
        nxt = []
        for path in frontier:
            base = run(path)
            n = base.nops()
            ops = [o for o in range(n) if base.enabled(o)]
            if hasattr(base, "close"):
                base.close()
            for op in ops:
                p = path + [op]
                try:
                    s = run(p)
                    k = s.key()
                    if hasattr(s, "close"):
                        s.close()
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    fail(name, p, str(e) if isinstance(e, Fail) else "unexpected exception: " + text(e), "after: " + names(p))
                    W.scenarios.append(st)
                    return
                st["executions"] += 1
                st["transitions"] += 1
                if k not in seen:
                    seen.add(k)
                    st["states"] += 1
                    outcome(k)
                    nxt.append(p)
                    st["depth"] = len(p)
                    if len(W.samples) < 8 and len(p) >= 4:
                        sample(name + ": " + names(p))
            if st["states"] >= max_states or over():
                st["complete"], st["note"] = False, "state cap or time budget reached"
                W.scenarios.append(st)
                return
        frontier = nxt
        if frontier and st["depth"] >= max_depth:
            st["complete"], st["note"] = False, "depth cap reached"
            break
    W.scenarios.append(st)


def finish():
    d = dict(states=sum(s["states"] for s in W.scenarios), transitions=sum(s["transitions"] for s in W.scenarios),
             executions=sum(s["executions"] for s in W.scenarios), outcomes=len(W.outcomes), samples=W.samples, counters=W.counters,
             scenarios=W.scenarios, failures=W.failures, digests={})
    if ARGS.out:
        with open(ARGS.out, "w") as f:
            json.dump(d, f)
    else:
        print({k: v for k, v in d.items() if k not in ("samples", "scenarios")})
    sys.stdout.flush()
    os._exit(3 if W.failures else 0)
