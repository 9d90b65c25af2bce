"""C22: Python keys encode and decode exactly like the C++ ones, and reject what they cannot take."""
import importlib
import itertools
import sys

import pymc
from pymc import check
from wire import *

args = pymc.init(sys.argv[1:])
import unpadded  # noqa: E402

FORMATS = [("le", "tc"), ("be", "ob"), ("le", "sm"), ("be", "oc")]
fmt = FORMATS[args.part % 4]
FULL = args.thorough


class Boom(Exception):
    pass


class Index:  # usable as an integer
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class BadIndex:
    def __index__(self):
        raise Boom


class BadLen(list):
    def __len__(self):
        raise Boom


class BadItem(list):
    def __getitem__(self, i):
        raise Boom


def lattice(t):
    lo, hi = t.range(fmt[1])
    if t.size == 1:
        return list(range(lo, hi + 1))
    if t.size == 2 and FULL:
        return list(range(lo, hi + 1))
    vs = {lo, hi, 0}
    for k in range(0, 8 * t.size + 1):
        for d in range(-3, 4) if FULL else (-1, 0, 1):
            for s in (1, -1):
                v = s * (1 << k) + d
                if lo <= v <= hi:
                    vs.add(v)
    for k in range(t.size):  # every byte at some positions
        for b in range(0, 256, 1 if FULL else 5):
            v = t.decode(((0x1122334455667788 & ~(0xff << 8 * k) | b << 8 * k) & ((1 << 8 * t.size) - 1)).to_bytes(t.size, "little"), fmt)
            if lo <= v <= hi:
                vs.add(v)
    return sorted(vs)


def good(t, m):
    """Arguments which must be accepted, with the value that they stand for"""
    if isinstance(t, Int):
        return [(v, v) for v in lattice(t)] + [(Index(v), v) for v in (1, t.range(fmt[1])[1])] + [(True, 1)]
    if isinstance(t, Bool):
        return [(True, True), (False, False)]
    if isinstance(t, Arr):
        e = t.elem
        lo, hi = e.range(fmt[1])
        dom = sorted({lo, hi, 0, 1, hi // 3}) if not isinstance(e, Bool) else [False, True]
        out = []
        for v in itertools.product(dom, repeat=t.n):
            out.append((list(v), list(v)))
        out.append((tuple(out[-2][1]), out[-2][1]))
        return out
    out = []
    for a in (0, 1, 0x7f, 0x80, 0xff):
        for b in (0, 1, -1, 0x7fff, -0x7fff, 0x1234):
            o = m.Obj(a, b)
            out.append((o, o))
    return out


def bad(t):
    """Arguments which must be rejected"""
    if isinstance(t, Int):
        lo, hi = t.type_range()
        out = [lo - 1, hi + 1, lo - 256, hi + 256, 1 << 64, -(1 << 64), 1 << 200, -(1 << 200), (hi + 1) * 2, 1.5, float("nan"), "1", "a", b"\1",
               None, [1], {}, object(), Boom, BadIndex()]
        if t.signed:
            out += [hi * 2 + 1, hi + 2]
        if t.size < 8:
            out += [1 << 32 if t.size <= 4 else 1 << 64, (1 << 63) - 1, -(1 << 63), (1 << 64) - 1, -(1 << 32) - 1]
        return out
    if isinstance(t, Bool):
        return []  # nearly everything has a truth value: only looked at for crashes
    if isinstance(t, Arr):
        g = [0] * t.n if not isinstance(t.elem, Bool) else [True] * t.n
        out = [g[:-1], g + g[:1], [], None, 5, 1.5, {}, object(), "a" * t.n, BadLen(g), BadItem(g), [g] * t.n]
        for b in bad(t.elem) if not isinstance(t.elem, Bool) else ():
            for k in range(t.n):
                x = list(g)
                x[k] = b
                out.append(x)
        return out
    return [None, 1, "a", object(), (1, 2), [1, 2]]


def weird(t):
    """Arguments which may be accepted or not, but nothing worse"""
    if isinstance(t, Bool):
        return [2, -1, 0.0, None, "a", "", [], [1], object(), 1 << 80, BadLen([1])]
    if isinstance(t, Int):
        return [1.0, complex(1, 0)]
    if isinstance(t, Arr):
        return [set([0]), b"\0" * t.n, bytearray(t.n), range(t.n), memoryview(b"\0" * t.n), BadLen(), BadItem([0] * t.n)]
    return [type]


def call(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


class Key:
    def __init__(self, m, i, n, spec):
        self.m, self.i, self.n = m, i, n
        self.name, self.ret, self.params = spec
        self.key = getattr(m, self.name)
        self.base = [good(p, m)[len(good(p, m)) // 3] for p in self.params]

    def expected(self, vals):
        return index_bytes(self.i, self.n, fmt) + b"".join(p.encode(v, fmt) for p, v in zip(self.params, vals))

    def alive(self):
        """A valid request still works"""
        got = self.key.encode(*[a for a, _ in self.base])
        check(got == self.expected([v for _, v in self.base]), "a valid request gives %r afterwards" % got)

    def encode(self, ch):
        a, v = [list(x) for x in zip(*self.base)] if self.base else ([], [])
        # up to two arguments differ from the base
        for _ in range(min(len(self.params), 2)):
            k = ch(len(self.params) + 1)
            if k == len(self.params):
                break
            g = self.goods[k]
            x = ch.of(g if len(self.params) == 1 or FULL else g[::1 + len(g) // 40] + g[-3:])
            a[k], v[k] = x
        got, e = call(self.key.encode, *a)
        check(e is None, "encode%r is refused: %r" % (tuple(a), e))
        check(type(got) is bytes, "encode gives a %s" % type(got))
        want = self.expected(v)
        check(got == want, "encode%r gives %s instead of %s" % (tuple(a), got.hex(), want.hex()))
        pymc.outcome(got)
        pymc.count("requests encoded")

    def refuse(self, ch):
        a = [x for x, _ in self.base]
        k = ch(len(self.params))
        bads, odd = bad(self.params[k]), weird(self.params[k])
        c = ch(len(bads) + len(odd))
        a[k] = bads[c] if c < len(bads) else odd[c - len(bads)]
        got, e = call(self.key.encode, *a)
        if c < len(bads):
            check(e is not None, "the argument %d, %r, is accepted: %r" % (k, a[k], got))
            pymc.count("bad arguments refused")
        self.alive()

    def number(self, ch):
        n = ch(len(self.params) + 3)
        a = ([x for x, _ in self.base] + [1, 1, 1])[:n]
        kw = ch(3)
        if n == len(self.params) and kw == 0:
            return
        got, e = call(self.key.encode, *a, **({} if kw == 0 else {"zz": 1} if kw == 1 else {"self": 1}))
        check(isinstance(e, TypeError), "%d arguments instead of %d are not refused properly: %r %r" % (n, len(self.params), got, e))
        self.alive()

    def value_of(self, r):
        return (r.a, r.b) if self.ret is obj else r

    def decoded(self, payload, raw):
        got, e = call(self.key.decode, payload)
        check(e is None, "decode(%r) is refused: %r" % (payload, e))
        want = self.ret.decode(raw, fmt)
        check(self.value_of(got) == want, "decode(%s) gives %r instead of %r" % (raw.hex(), self.value_of(got), want))
        check(self.ret is obj or type(got) is type(want), "decode gives a %s instead of a %s" % (type(got), type(want)))
        pymc.count("responses decoded")
        pymc.outcome((self.name, str(want)))

    def patterns(self):
        n = self.ret.size
        if n == 0:
            return [b""]
        if n == 1 or (n == 2 and FULL):
            return [x.to_bytes(n, "big") for x in range(256 ** n)]
        out = set()
        for bg in (0x00, 0xff, 0x80, 0x7f, 0x5a):
            for k in range(n):
                for b in range(256):
                    x = bytearray([bg] * n)
                    x[k] = b
                    out.add(bytes(x))
        dom = (0, 1, 0x7f, 0x80, 0xfe, 0xff)
        for i in range(n):
            for j in range(i):
                for a, b in itertools.product(dom, dom):
                    x = bytearray(range(0x11, 0x11 + n))
                    x[i], x[j] = a, b
                    out.add(bytes(x))
        return sorted(out)

    def decode(self, ch):
        raw = ch.of(self.pats)
        self.decoded(raw, raw)

    def lengths(self, ch):
        """Every length and kind of payload, with a failure at every position"""
        n = self.ret.size
        raw = bytes((37 * k + 1) % 256 for k in range(n + 4))
        kind = ch(9)
        ln = ch(n + 4)
        p = raw[:ln]
        at = ch(ln) if kind in (6, 7) and ln else None
        if kind in (6, 7) and at is None:
            return
        if kind == 8:
            wrong = ch.of([None, 5, 1.5, object(), Boom, "text", {}, int])
            got, e = call(self.key.decode, wrong)
            if n and not isinstance(wrong, dict):
                check(e is not None, "decode(%r) gives %r" % (wrong, got))
            got, e = call(self.key.decode)
            check(isinstance(e, TypeError), "decode() gives %r %r" % (got, e))
            got, e = call(self.key.decode, p, p)
            check(isinstance(e, TypeError), "decode(p, p) gives %r %r" % (got, e))
            self.decoded(raw, raw[:n])
            return
        if kind in (6, 7):
            items = list(p)
            what = ch.of([256, -1, None, "a", 1.5, 1 << 70, b"\1", object()]) if kind == 6 else None

            def stream():
                for k, b in enumerate(items):
                    if k == at:
                        if kind == 7:
                            raise Boom
                        yield what
                    else:
                        yield b

            got, e = call(self.key.decode, stream() if kind == 7 or at % 2 else [what if k == at else b for k, b in enumerate(items)])
            if at < n:
                check(e is not None, "a payload with %r at %d is accepted: %r" % (what, at, got))
                if kind == 7:
                    check(isinstance(e, Boom), "the exception of the payload becomes %r" % e)
                pymc.count("bad payloads refused")
            elif e is None and ln >= n:
                check(self.value_of(got) == self.ret.decode(raw[:n], fmt), "a payload with something wrong after its end gives %r" % got)
        else:
            payload = [p, bytearray(p), memoryview(p), list(p), tuple(p), (x for x in p)][kind]
            if ln >= n:
                self.decoded(payload, p[:n])
            else:
                got, e = call(self.key.decode, payload)
                check(e is not None, "a payload of %d bytes instead of %d is accepted: %r" % (ln, n, got))
                pymc.count("short payloads refused")
        self.decoded(raw, raw[:n])

    def run(self):
        tag = "%s %s %s(%s)" % ("/".join(fmt), self.name, self.ret.name, ",".join(p.name for p in self.params))
        self.goods = [good(p, self.m) for p in self.params]
        self.pats = self.patterns()
        pymc.explore("encode " + tag, self.encode)
        if self.params:
            pymc.explore("refuse " + tag, self.refuse)
        pymc.explore("number of arguments " + tag, self.number)
        pymc.explore("decode " + tag, self.decode)
        pymc.explore("payloads " + tag, self.lengths)


def names(m, keys, n):
    def go(ch):
        i = ch(len(keys))
        name = keys[i][0]
        k = getattr(m, name, None)
        check(k is not None, "there is no key called", name)
        check(k.index() == i and type(k.index()) is int, "the index of %s is %r instead of %d" % (name, k.index(), i))
        check(callable(getattr(k, "encode", None)) and callable(getattr(k, "decode", None)), "the key has no methods")

    pymc.explore("names " + "/".join(fmt) + " of %d" % n, go)


def main():
    if args.part < 4:
        m = importlib.import_module("keys_%s_%s" % fmt)
        names(m, KEYS, len(KEYS))
        for i, spec in enumerate(KEYS):
            Key(m, i, len(KEYS), spec).run()
    else:
        m = importlib.import_module("wide")
        spec = [("g%03d" % i, u8, [u8]) for i in range(260)] + [("last", i16, [boolean])]
        names(m, spec, len(spec))
        for i in list(range(0, 4)) + list(range(120, 136)) + list(range(250, 261)):
            Key(m, i, len(spec), spec[i]).run()


if args.part >= 4:
    fmt = ("be", "oc")
main()
pymc.finish()
