"""C24: Client.call sends each request once and gives back the response to the request, whatever the interleaving of the calls."""
import asyncio
import importlib
import inspect
import itertools
import sys

import pymc
from pymc import check
from wire import *

args = pymc.init(sys.argv[1:])
import unpadded  # noqa: E402

BIG = args.thorough
FORMATS = [("le", "tc"), ("be", "ob"), ("le", "sm"), ("be", "oc")]
fmt = FORMATS[args.part % 4]
mod = importlib.import_module("keys_%s_%s" % fmt)
INDEX = {k[0]: (i, k[1], k[2]) for i, k in enumerate(KEYS)}


class Boom(Exception):
    pass


class Nasty(BaseException):
    pass


class Token:
    """What a request waits for: suspends once"""

    def __await__(self):
        return (yield self)


# Calls: a key and its arguments. The first ones share a key, so that responses could be mixed up.
CALLS = [("f_i16", [-2]), ("f_i16", [300]), ("f_a3u8", [[1, 2, 3]]), ("f_void", []), ("f_mix_4", [1, -5, True, 70000]), ("out__of_nothing", [])]
VALUES = [-7, 515, [9, 8, 255], None, -100000, 258]  # what is responded
BAD = [("f_i16", [1 << 20]), ("f_i16", []), ("f_a3u8", [[1, 2]]), ("f_void", [1]), ("f_mix_4", [1, 2, True]), ("out__of_nothing", ["a"])]


def payload(c):
    name, a = c
    i, _, ps = INDEX[name]
    return index_bytes(i, len(KEYS), fmt) + b"".join(t.encode(x, fmt) for t, x in zip(ps, a))


class Answer:
    """What a request gives, and what the call must give then"""

    def __init__(self, name, response, want, how):
        self.name, self.response, self.want, self.how = name, response, want, how


def answers(i):
    ret = INDEX[CALLS[i][0]][1]
    data = ret.encode(VALUES[i], fmt)
    out = [Answer("value", data, VALUES[i], "eq")]
    if ret.size:
        out.append(Answer("zero", bytes(ret.size), ret.decode(bytes(ret.size), fmt), "eq"))
        out.append(Answer("short", data[:-1], ValueError, "raises"))
        out.append(Answer("empty", b"", ValueError, "raises"))
    else:
        out.append(Answer("other", None, None, "is"))
        out.append(Answer("list", [], None, "same"))
        out.append(Answer("zero int", 0, None, "same"))
    out += [Answer("none", None, None, "is"), Answer("int", 77777, None, "same"), Answer("bytearray", bytearray(data), None, "same"),
            Answer("text", "text", None, "same"), Answer("exception object", Boom(), None, "same"), Answer("false", False, None, "same"),
            Answer("view", memoryview(data), None, "same"), Answer("object", object(), None, "same"), Answer("bytes type", bytes, None, "same"),
            Answer("tuple", (data,), None, "same")]
    out += [Answer("raise", Boom("no"), None, "raise"), Answer("key error", KeyError(5), None, "raise"),
            Answer("os error", OSError(5, "x"), None, "raise"), Answer("cancelled", asyncio.CancelledError(), None, "raise"),
            Answer("timeout", asyncio.TimeoutError(), None, "raise"), Answer("not implemented", NotImplementedError(), None, "raise"),
            Answer("type error", TypeError("t"), None, "raise"), Answer("base exception", Nasty(), None, "raise")]
    return out


ANSWERS = [answers(i) for i in range(len(CALLS))]
SHAPES = ["one", "two", "future", "now", "refuse", "stubborn", "bad arguments", "late task"]
STEPS = {"one": 1, "two": 2, "future": 1, "now": 0, "refuse": 0, "stubborn": 1, "bad arguments": 0, "late task": 3}


class Client(unpadded.Client):
    """Requests are made by the shape and the answer of the call which is being started"""

    def __init__(self):
        self.sent, self.shape, self.answer, self.tokens = [], None, None, []

    def new_request(self, data):
        self.sent.append(data)
        shape, answer = self.shape, self.answer
        if shape == "refuse":
            raise Boom("refused")
        return getattr(self, shape.replace(" ", "_"))(answer)

    def give(self, answer):
        if answer.how == "raise":
            raise answer.response
        return answer.response

    async def now(self, answer):
        return self.give(answer)

    async def one(self, answer):
        await Token()
        return self.give(answer)

    async def two(self, answer):
        await Token()
        await Token()
        return self.give(answer)

    async def late_task(self, answer):
        for _ in range(3):
            await Token()
        return self.give(answer)

    async def stubborn(self, answer):
        try:
            await Token()
        except asyncio.CancelledError:
            pass
        return self.give(answer)

    def future(self, answer):
        client = self

        class F:
            def __await__(self):
                yield self
                return client.give(answer)

        return F()


class Call:
    def __init__(self, client, which, shape, answer):
        self.client, self.which, self.shape, self.answer = client, which, shape, answer
        self.left, self.state, self.coro = STEPS[shape], "idle", None

    def end(self, how, got):
        """The call ended: `how` is what it was expected to end with"""
        self.state = "done"
        kind, e = got
        if how == "answer":
            a = self.answer
            if a.how == "raise":
                check(kind == "raise" and e is a.response, "a failed request gives %r instead of the failure" % (e,))
            elif a.how == "raises":
                check(kind == "raise" and type(e) is a.want, "the response '%s' gives %r instead of %s" % (a.name, e, a.want.__name__))
            elif a.how == "same":
                check(kind == "value" and e is a.response, "the response '%s' gives %r instead of itself" % (a.name, e))
            elif a.how == "is":
                check(kind == "value" and e is a.want, "the response '%s' gives %r instead of %r" % (a.name, e, a.want))
            else:
                check(kind == "value" and type(e) is type(a.want) and e == a.want,
                      "the response '%s' gives %r instead of %r" % (a.name, e, a.want))
        elif how == "refused":
            check(kind == "raise" and type(e) is Boom, "a refused request gives %r" % (e,))
        elif how == "bad":
            check(kind == "raise" and isinstance(e, Exception), "wrong arguments give %r" % (e,))
        elif how == "thrown":
            check(kind == "raise" and e is got[2], "the call gives %r instead of what is thrown into it" % (e,)) if len(got) > 2 else None

    def run(self, f):
        try:
            y = f()
            return ("yield", y)
        except StopIteration as e:
            return ("value", e.value)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, pymc.Fail)):
                raise
            return ("raise", e)

    def start(self):
        c = self.client
        name, a = (BAD if self.shape == "bad arguments" else CALLS)[self.which]
        c.shape, c.answer = self.shape, self.answer
        n = len(c.sent)

        def first():
            self.coro = c.call(getattr(mod, name), *a)
            return self.coro.send(None)

        got = self.run(first)
        if self.shape == "bad arguments":
            check(len(c.sent) == n, "a request is sent although its arguments are wrong")
            return self.end("bad", got)
        check(len(c.sent) == n + 1, "the call sends %d requests instead of one" % (len(c.sent) - n))
        want = payload(CALLS[self.which])
        check(type(c.sent[-1]) is bytes and c.sent[-1] == want, "the request is %r instead of %r" % (c.sent[-1], want))
        if self.shape == "refuse":
            return self.end("refused", got)
        if self.left == 0:
            return self.end("answer", got)
        check(got[0] == "yield", "the call ends with %r before the response" % (got,))
        self.state = "waiting"

    def proceed(self):
        n = len(self.client.sent)
        got = self.run(lambda: self.coro.send(None))
        self.left -= 1
        check(len(self.client.sent) == n, "another request is sent by the call")
        if self.left == 0:
            return self.end("answer", got)
        check(got[0] == "yield", "the call ends with %r before the response" % (got,))

    def throw(self, e):
        n = len(self.client.sent)
        got = self.run(lambda: self.coro.throw(e))
        check(len(self.client.sent) == n, "another request is sent by the call")
        if self.shape == "stubborn" and isinstance(e, asyncio.CancelledError):
            return self.end("answer", got)
        check(got[0] == "raise" and got[1] is e, "the call gives %r instead of %r which is thrown into it" % (got[1], e))
        self.state = "done"

    def close(self):
        n = len(self.client.sent)
        self.coro.close()
        check(len(self.client.sent) == n, "another request is sent by the call")
        self.state = "done"

    def events(self):
        if self.state == "idle":
            return ["start"]
        if self.state == "waiting":
            return ["proceed", "cancel", "fail", "close"]
        return []

    def fire(self, e):
        if e == "start":
            self.start()
        elif e == "proceed":
            self.proceed()
        elif e == "cancel":
            self.throw(asyncio.CancelledError())
        elif e == "fail":
            self.throw(Boom("thrown"))
        else:
            self.close()
        pymc.count(e)


def interleave(ch, calls, limited):
    while True:
        evs = [(c, e) for c in calls for e in c.events() if not (limited and e in ("fail", "close"))]
        if not evs:
            break
        c, e = evs[ch(len(evs))]
        c.fire(e)
        for o in calls:
            if o.coro is not None and o.shape != "bad arguments":
                st = inspect.getcoroutinestate(o.coro)
                check((st == inspect.CORO_SUSPENDED) == (o.state == "waiting"), "a call is in the state %s instead of %s" % (st, o.state))
    # A call on the same client after all this
    c = Call(calls[0].client, 0, "one", ANSWERS[0][0])
    c.fire("start")
    c.fire("proceed")
    pymc.outcome(tuple(c.client.sent))


def one(shape):
    def f(ch):
        w = ch(len(CALLS))
        if shape in ("refuse", "bad arguments"):
            a = ANSWERS[w][0]
        else:
            a = ANSWERS[w][ch(len(ANSWERS[w]))]
        interleave(ch, [Call(Client(), w, shape, a)], False)
    return f


def several(n, whichs, shapes, kinds, limited, clients=1):
    def f(ch):
        cs = [Client() for _ in range(clients)]
        calls = []
        for i in range(n):
            w = whichs[i]
            s = shapes[ch(len(shapes))]
            a = ANSWERS[w]
            a = [x for x in a if x.name in kinds] if kinds else a
            calls.append(Call(cs[i % clients], w, s, a[0] if s in ("refuse", "bad arguments") else a[ch(len(a))]))
        interleave(ch, calls, limited)
    return f


CAP = 3000000 if BIG else 60000
FEW = ("value", "none", "raise", "short", "int")
if args.part < 4:
    for s in SHAPES:
        pymc.explore("one call, " + s, one(s), CAP)
    pymc.explore("two calls of the same key", several(2, [0, 1], SHAPES, ("value", "raise", "bytearray"), False), CAP)
    pymc.explore("two calls", several(2, [2, 4], ["one", "future", "stubborn"], None if BIG else FEW, False), CAP)
    pymc.explore("two clients", several(2, [0, 0], ["one", "two", "refuse"], FEW, False, 2), CAP)
    pymc.explore("three calls", several(3, [0, 1, 2] if args.part % 2 else [3, 1, 0], ["one", "bad arguments"], ("value", "raise"), not BIG), CAP)
    pymc.explore("three calls in two steps", several(3, [1, 0, 5], ["two"], ("value",), True), CAP)
    if BIG:
        pymc.explore("three calls of any shape", several(3, [0, 1, 4], SHAPES[:6], ("value", "short"), True), CAP)
        pymc.explore("four calls", several(4, [0, 1, 0, 2], ["one"], ("value", "raise"), True), CAP)
        pymc.explore("four calls of two keys", several(4, [0, 4, 4, 1], ["future", "bad arguments"], ("value",), True), CAP)

# Under asyncio: the requests are futures which are resolved, failed or cancelled in every order


class LoopClient(unpadded.Client):
    def __init__(self):
        self.sent, self.futures = [], []

    async def wait(self, f):
        return await f

    def new_request(self, data):
        f = asyncio.get_running_loop().create_future()
        self.sent.append(data)
        self.futures.append(f)
        return self.wait(f) if len(self.futures) % 2 else f


def under_asyncio(n):
    def f(ch):
        async def scenario():
            cl = LoopClient()
            tasks = [asyncio.ensure_future(cl.call(getattr(mod, CALLS[i][0]), *CALLS[i][1])) for i in range(n)]
            await asyncio.sleep(0)
            check(cl.sent == [payload(CALLS[i]) for i in range(n)], "the requests are %r" % (cl.sent,))
            left, want = list(range(n)), {}
            while left:
                i = left.pop(ch(len(left)))
                what = ch(5)
                if what == 0:
                    cl.futures[i].set_result(INDEX[CALLS[i][0]][1].encode(VALUES[i], fmt))
                    want[i] = VALUES[i]
                elif what == 1:
                    want[i] = Boom("failed")
                    cl.futures[i].set_exception(want[i])
                elif what == 2:
                    tasks[i].cancel()
                    want[i] = asyncio.CancelledError
                elif what == 3:
                    want[i] = object()
                    cl.futures[i].set_result(want[i])
                else:
                    cl.futures[i].cancel()
                    want[i] = asyncio.CancelledError
                if ch(2):
                    for _ in range(4):
                        await asyncio.sleep(0)
                    check(all(tasks[j].done() == (j not in left) for j in range(n)), "a call is not where its request is")
            rs = await asyncio.gather(*tasks, return_exceptions=True)
            for i, r in enumerate(rs):
                w = want[i]
                if w is asyncio.CancelledError:
                    check(type(r) is asyncio.CancelledError, "a cancelled call gives %r" % (r,))
                elif type(w) in (Boom, object):
                    check(r is w, "the call gives %r instead of %r" % (r, w))
                else:
                    check(type(r) is type(w) and r == w, "the call gives %r instead of %r" % (r, w))
            check(len(cl.sent) == n, "requests are sent again")
            pymc.outcome(tuple(str(r) for r in rs))

        loop.run_until_complete(scenario())
    return f


async def not_implemented(ch):
    for i in range(len(CALLS)):
        try:
            await unpadded.Client().call(getattr(mod, CALLS[i][0]), *CALLS[i][1])
            check(False, "a client which makes no request calls something")
        except NotImplementedError:
            pass


loop = asyncio.new_event_loop()
pymc.explore("base class", lambda ch: loop.run_until_complete(not_implemented(ch)))
for n in (1, 2, 3):
    pymc.explore("%d tasks" % n, under_asyncio(n), 400000 if BIG else 8000)
pymc.finish()
