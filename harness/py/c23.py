"""C23: the Python dispatcher follows the reference state machine, whatever fails."""
import gc
import sys
import weakref

import pymc
from pymc import check
from wire import *

args = pymc.init(sys.argv[1:])
import unpadded  # noqa: E402
import disp  # noqa: E402

S = unpadded.PacketStatus
LOADING, DROPPED, RESOLVED = S.LOADING_PACKET, S.DROPPED_PACKET, S.RESOLVED_PACKET


class Boom(Exception):
    pass


def s16(x):
    return (x + 0x8000) % 0x10000 - 0x8000


NATIVE = {
    "nothing": lambda: None,
    "twice": lambda x: (2 * x + 1) % 65536,
    "invert": lambda x: 255 - x,
    "rotate": lambda a: [a[1], a[2], a[0]],
    "mix": lambda a, b: a * 1000 + (7 if b else -7),
    "swallow": lambda a: None,
    "source": lambda: [-2, 300],
}
PYTHON = {  # what the Python replacements give
    "nothing": lambda: None,
    "twice": lambda x: 65535 - x,
    "invert": lambda x: x ^ 0x5a,
    "rotate": lambda a: [a[2], 255, a[0]],
    "mix": lambda a, b: -a * 99999 - (1 if b else 0),
    "swallow": lambda a: 5,
    "source": lambda: [-32768 + 1, 32767],
}
RINGS = {
    "k1": (("le", "tc"), [("nothing", void, []), ("twice", u16, [u16]), ("invert", u8, [u8])]),
    "k2": (("be", "ob"), [("rotate", a3u8, [a3u8]), ("mix", i32, [i8, boolean]), ("swallow", void, [u8]), ("source", a2i16, [])]),
    "k3": (("be", "sm"), [("mix", i32, [i8, boolean]), ("nothing", void, [])]),
}


class Failing(Exception):
    def __init__(self, kind):
        self.kind = kind


# Behaviour of the replacements: what they do for a value-returning callback
KINDS = ["good", "raise", "text", "none", "range", "arity", "exit"]


class Obj(object):
    pass


class Model:
    def __init__(self, ring):
        self.fmt, self.sigs = RINGS[ring]
        self.ibuf, self.pending, self.pos = b"", b"", 0
        self.installed = ["native"] * len(self.sigs)
        self.calls = []
        self.native_fails = False

    def loaded(self):
        return self.pos < len(self.pending)

    def put(self, b):
        """Gives the status, or throws Failing"""
        self.ibuf += bytes([b])
        i = self.ibuf[0]
        if i >= len(self.sigs):
            self.ibuf = b""
            return DROPPED
        name, ret, params = self.sigs[i]
        if len(self.ibuf) < 1 + sum(p.size for p in params):
            return LOADING
        p, vals = self.ibuf[1:], []
        for t in params:
            vals.append(t.decode(p[:t.size], self.fmt))
            p = p[t.size:]
        self.ibuf, self.pending, self.pos = b"", b"", 0
        kind = self.installed[i]
        if kind == "native":
            self.calls.append((name, vals))
            if self.native_fails:
                raise Failing("native")
            self.pending = ret.encode(NATIVE[name](*vals), self.fmt)
            return RESOLVED
        if kind != "arity":
            self.calls.append(("py", kind, name, vals))
        if kind in ("raise", "arity", "exit"):
            raise Failing(kind)
        if kind != "good" and ret is not void:
            raise Failing(kind)
        if ret is not void:
            self.pending = ret.encode(PYTHON[name](*vals), self.fmt)
        return RESOLVED

    def get(self):
        if not self.loaded():
            return 0
        self.pos += 1
        return self.pending[self.pos - 1]

    def key(self):
        return (self.ibuf, self.pending[self.pos:], self.pos == 0, tuple(self.installed))


class Sys:
    def __init__(self, ring, alphabet, kinds, packets, few):
        self.ring, self.alphabet, self.kinds, self.packets = ring, alphabet, kinds, packets
        self.mod = getattr(disp, ring)
        self.d = self.mod.Dispatcher()
        self.m = Model(ring)
        self.pylog = []
        self.refs = [None] * len(self.m.sigs)
        self.scar = None
        self.probes = [bytes([i]) + bytes(1 + k for k in range(sum(t.size for t in ps))) for i, (_, _, ps) in enumerate(self.m.sigs)]
        disp.calls()
        disp.fail(False)
        self.ops = [("put", b) for b in alphabet]
        self.ops += [("get",), ("write", None)]
        self.ops += [("write", k) for k in (0, 1)]
        self.ops += [("read", p, None, None) for p in packets]
        if not few:
            self.ops += [("native failure", alphabet[0]), ("native failure", alphabet[1])]
            self.ops += [("read", p, k, w) for p in packets for k in range(len(p)) for w in ("raise", 256, -1, None)]
            self.ops += [("put bad", x) for x in (256, -1, 1 << 80, "a", None, 1.5)]
            self.ops += [("bad call", k) for k in range(8)]
        self.ops += [("replace", i, k) for i in range(len(self.m.sigs)) for k in kinds]
        self.check("creation")

    def nops(self):
        return len(self.ops)

    def enabled(self, op):
        return True

    def op_name(self, op):
        return repr(self.ops[op])

    def close(self):
        """Whatever happened, requests are served; the dispatcher gives up its callbacks when it goes"""
        while self.m.loaded():
            want, got = self.m.get(), self.d.get()
            check(want == got, "unloading a response gives %r instead of %r" % (got, want))
        for k in range(2):
            for p in self.probes:
                for b in p:
                    want, wf = self.model(lambda: self.m.put(b))
                    got, e = self.real(lambda: self.d.put(b))
                    self.same("put, later on,", want, wf, got, e)
                    self.check("later on")
        e = None
        self.d = None
        self.mod = None
        for r in self.refs:
            if r is not None and r() is not None:
                gc.collect()
                check(r() is None, "a callback outlives its dispatcher")

    def calls(self):
        r = [(n, [bool(x) if n == "mix" and k == 1 else x for k, x in enumerate(a)]) for n, a in disp.calls()]
        r = [(n, [list(a)] if n == "rotate" else list(a)) for n, a in r]
        r += self.pylog
        del self.pylog[:]
        return r

    def check(self, what):
        got = self.calls()
        check(got == self.m.calls, "%s: calls %r instead of %r" % (what, got, self.m.calls))
        self.m.calls = []
        check(self.d.is_loaded() is self.m.loaded(), "%s: is_loaded() is %r instead of %r" % (what, self.d.is_loaded(), self.m.loaded()))

    def model(self, f):
        try:
            return f(), None
        except Failing as e:
            return None, e.kind

    def real(self, f):
        try:
            return f(), None
        except Exception as e:
            return None, e.with_traceback(None)  # no cycle through the frames
        except SystemExit as e:
            return None, e.with_traceback(None)  # no cycle through the frames

    def same(self, what, want, wfail, got, e):
        if wfail is None:
            check(e is None, "%s raises %r" % (what, e))
            check(got == want, "%s gives %r instead of %r" % (what, got, want))
        else:
            check(e is not None, "%s gives %r although a callback failed (%s)" % (what, got, wfail))
            if wfail in KINDS:
                self.scar = wfail
            if wfail == "raise":
                check(type(e) is Boom, "%s raises %r instead of what the callback raised" % (what, e))
            elif wfail == "arity":
                check(type(e) is TypeError, "%s raises %r instead of TypeError" % (what, e))
            elif wfail == "exit":
                check(type(e) is SystemExit, "%s raises %r instead of what the callback raised" % (what, e))
            else:
                check(isinstance(e, Exception), "%s raises %r" % (what, e))
            pymc.count("failures of callbacks: " + wfail)

    def apply(self, op):
        o = self.ops[op]
        m, d = self.m, self.d
        if o[0] in ("native failure", "put bad", "bad call"):
            self.scar = o[:2] if o[0] == "native failure" else o[0]
        elif o[0] == "read" and o[2] is not None:
            self.scar = "read failing"
        elif o[0] == "write" and o[1] is not None:
            self.scar = "write failing"
        if o[0] == "put":
            want, wf = self.model(lambda: m.put(o[1]))
            got, e = self.real(lambda: d.put(o[1]))
            self.same("put", want, wf, got, e)
            if want is not None:
                pymc.count(str(want))
        elif o[0] == "native failure":
            m.native_fails = True
            disp.fail(True)
            want, wf = self.model(lambda: m.put(o[1]))
            got, e = self.real(lambda: d.put(o[1]))
            disp.fail(False)
            m.native_fails = False
            self.same("put", want, wf, got, e)
        elif o[0] == "put bad":
            got, e = self.real(lambda: d.put(o[1]))
            check(isinstance(e, TypeError), "put(%r) gives %r %r" % (o[1], got, e))
        elif o[0] == "get":
            want, got = m.get(), d.get()
            check(type(got) is int and want == got, "get gives %r instead of %r" % (got, want))
        elif o[0] == "write":
            out = []

            def sink(b):
                out.append(b)
                if o[1] is not None and len(out) == o[1] + 1:
                    raise Boom
                return "ignored"

            want = []
            raised = False
            while m.loaded():
                want.append(m.get())
                if o[1] is not None and len(want) == o[1] + 1:
                    raised = True
                    break
            got, e = self.real(lambda: d.write_to(sink))
            check((type(e) is Boom) if raised else e is None, "write_to raises %r" % e)
            check(got is None, "write_to gives %r" % got)
            check(out == want and all(type(b) is int for b in out), "write_to puts %r instead of %r" % (out, want))
            if raised:
                pymc.count("failures of putters")
        elif o[0] == "read":
            _, packet, at, what = o
            taken = [0]

            def source():
                k = taken[0]
                taken[0] += 1
                if k == at:
                    if what == "raise":
                        raise Boom
                    return what
                check(k < len(packet), "read_from reads beyond the end of the packet")
                return packet[k]

            # the packet may complete what is loaded: only what the model needs is read
            want, wf, n, src = LOADING, None, 0, None
            while want == LOADING:
                if n == at:
                    src = what
                    n += 1
                    break
                if n >= len(packet):
                    return self.apply_short(packet, at, what)
                want, wf = self.model(lambda: m.put(packet[n]))
                n += 1
                if wf:
                    break
            got, e = self.real(lambda: d.read_from(source))
            if src is not None or (at is not None and n == at + 1 and want == LOADING and wf is None):
                if what == "raise":
                    check(type(e) is Boom, "read_from gives %r, %r although the getter failed" % (got, e))
                else:
                    check(isinstance(e, Exception) and type(e) is not Boom, "read_from gives %r, %r although the getter gave %r" % (got, e, what))
                pymc.count("failures of getters")
            else:
                self.same("read_from", want, wf, got, e)
            check(taken[0] == n, "read_from reads %d bytes instead of %d" % (taken[0], n))
        elif o[0] == "bad call":
            k0 = getattr(self.mod, m.sigs[0][0])
            f = [lambda: d.put(), lambda: d.put(1, 2), lambda: d.get(1), lambda: d.read_from(5), lambda: d.write_to("a"),
                 lambda: d.replace(k0, 5), lambda: d.replace(5, lambda: 0), lambda: d.replace(k0)][o[1]]
            got, e = self.real(f)
            check(isinstance(e, Exception), "a wrong call gives %r" % got)
        elif o[0] == "replace":
            _, i, kind = o
            name, ret, params = m.sigs[i]
            key = getattr(self.mod, name)
            log = self.pylog

            def f(*a):
                log.append(("py", kind, name, list(a)))
                if kind == "raise":
                    raise Boom
                if kind == "exit":
                    raise SystemExit(3)
                if kind == "text":
                    return "text"
                if kind == "none":
                    return None
                if kind == "range":
                    return 1 << 70 if not isinstance(ret, Arr) else [1 << 70] * ret.n
                return PYTHON[name](*a)

            if kind == "arity":
                f = lambda a, b, c, d, e, f: 0  # noqa: E731
            old = self.refs[i]
            self.refs[i] = weakref.ref(f)
            got, e = self.real(lambda: d.replace(key, f))
            check(e is None and got is None, "replace gives %r %r" % (got, e))
            m.installed[i] = kind
            del f
            check(self.refs[i]() is not None, "the callback is not kept")
            if old is not None:
                if old() is not None:
                    gc.collect()
                check(old() is None, "the callback which is replaced is kept")
            pymc.count("replacements")
        self.check(o[0])

    def apply_short(self, packet, at, what):
        """The packet is not enough: the getter fails at its end"""
        taken = [0]

        def source():
            k = taken[0]
            taken[0] += 1
            if k >= len(packet):
                raise Boom
            return packet[k]

        got, e = self.real(lambda: self.d.read_from(source))
        check(type(e) is Boom, "read_from gives %r, %r although the getter failed" % (got, e))
        check(taken[0] == len(packet) + 1, "read_from reads %d bytes instead of %d" % (taken[0], len(packet) + 1))
        self.check("read_from")

    def key(self):
        return self.m.key(), self.scar


def run(name, ring, alphabet, kinds, packets, few, states, depth):
    pymc.bfs("%s %s" % (ring, name), lambda: Sys(ring, alphabet, kinds, packets, few), states, depth)


big = args.thorough
L = 20000 if big else 2000
if args.part == 0:
    run("loading", "k1", [0, 1, 2, 3, 0xff], [], [b"\0", b"\1\2\3", b"\2\7", b"\3"], False, L, 14)
    run("replacements", "k1", [0, 1, 2, 3], ["good", "raise", "text"], [b"\1\2\3", b"\2\7"], True, L, 14)
elif args.part == 1:
    run("loading", "k2", [0, 1, 2, 3, 4], [], [b"\0\1\2\3", b"\1\xff\2", b"\3", b"\x80"], False, L, 14)
    run("replacements", "k2", [0, 1, 3, 2], ["good", "raise", "range"], [b"\0\1\2\3", b"\3"], True, L, 14)
elif args.part == 2:
    run("loading and replacements", "k3", [0, 1, 2, 0x83], KINDS, [b"\0\x85\1", b"\1", b"\2"], False, L * 2, 14)
elif args.part == 3:
    run("all kinds of failures", "k1", [0, 1, 2], KINDS, [b"\1\2\3"], True, L, 14)
    run("all kinds of failures", "k2", [0, 1, 2, 3], KINDS, [b"\0\1\2\3"], True, L, 10)


def shared(ch):
    a, b = Sys("k1", [1, 2], ["good"], [], True), Sys("k1", [1, 2], ["good"], [], True)
    log = a.pylog
    b.pylog = log
    for _ in range(5 if big else 4):
        s = (a, b)[ch(2)]
        s.pylog = log
        a.pylog = b.pylog = log
        s.apply(ch(s.nops()))
        del log[:]
        o = b if s is a else a
        check(o.d.is_loaded() is o.m.loaded(), "the other dispatcher changed")
    pymc.outcome((a.key(), b.key()))


def wide(ch):
    """Callbacks are replaced in a dispatcher with a two-byte index: the right ones serve the right requests"""
    picks = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 259]
    d = widedisp.Dispatcher()
    replaced, calls = {}, []
    for n in range(2 if big else 1):
        i = picks[ch(len(picks))]
        tag = 1000 * (n + 1) + i

        def f(x, tag=tag):
            calls.append((tag, x))
            return tag + x

        d.replace(getattr(widedisp, "g%d" % (i + 100)), f)
        replaced[i] = tag
    j = ch(len(picks) + 3)
    j = picks[j] if j < len(picks) else (260, 261, 65535)[j - len(picks)]
    p = bytes([j % 256, j // 256]) + (b"\x09" if j < 260 else b"\x01" if j == 260 else b"")
    st = [d.put(b) for b in p]
    check(st == [LOADING] * (len(p) - 1) + [RESOLVED if j < 261 else DROPPED], "index %d: the statuses are %r" % (j, st))
    out = []
    d.write_to(out.append)
    want = b"" if j > 260 else ((replaced[j] + 9 if j in replaced else 9 * 259 + j + 100) if j < 260 else 65536 - 300).to_bytes(2, "little")
    check(calls == ([(replaced[j], 9)] if j in replaced else []), "index %d, %r replaced: calls %r" % (j, sorted(replaced), calls))
    check(bytes(out) == want, "index %d, %r replaced: the response is %r instead of %r" % (j, sorted(replaced), bytes(out), want))
    pymc.outcome(j)


if args.part == 4:
    import widedisp
    pymc.explore("more callbacks than a byte can tell", wide)
if args.part == 3:
    pymc.explore("two dispatchers", shared, cap=2000000 if big else 20000)
pymc.finish()
