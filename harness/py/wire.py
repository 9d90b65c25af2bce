"""The wire format, written independently of the library."""


class Int:
    def __init__(self, size, signed):
        self.size, self.signed = size, signed
        self.name = ("i" if signed else "u") + str(8 * size)

    def range(self, mode):
        if not self.signed:
            return 0, (1 << 8 * self.size) - 1
        m = (1 << (8 * self.size - 1)) - 1
        return (-m if mode in ("sm", "oc") else -m - 1), m

    def type_range(self):
        if not self.signed:
            return 0, (1 << 8 * self.size) - 1
        return -(1 << (8 * self.size - 1)), (1 << (8 * self.size - 1)) - 1

    def encode(self, v, fmt):
        end, mode = fmt
        bits = 8 * self.size
        if not self.signed or mode == "tc":
            u = v % (1 << bits)
        elif mode == "sm":
            u = (1 << (bits - 1)) - v if v < 0 else v
        elif mode == "oc":
            u = (1 << bits) - 1 + v if v < 0 else v
        else:
            u = v + (1 << (bits - 1))
        return u.to_bytes(self.size, "little" if end == "le" else "big")

    def decode(self, b, fmt):
        end, mode = fmt
        bits = 8 * self.size
        u = int.from_bytes(b, "little" if end == "le" else "big")
        if not self.signed:
            return u
        top = u >> (bits - 1)
        if mode == "tc":
            return u - (1 << bits) if top else u
        if mode == "sm":
            return -(u - (1 << (bits - 1))) if top else u
        if mode == "oc":
            return -((1 << bits) - 1 - u) if top else u
        return u - (1 << (bits - 1))


class Bool:
    size, name, signed = 1, "bool", False

    def encode(self, v, fmt):
        return b"\1" if v else b"\0"

    def decode(self, b, fmt):
        return b[0] != 0

    def range(self, mode):
        return 0, 1

    type_range = range


class Arr:
    def __init__(self, elem, n):
        self.elem, self.n, self.size = elem, n, elem.size * n
        self.name = "%s[%d]" % (elem.name, n)

    def encode(self, v, fmt):
        return b"".join(self.elem.encode(x, fmt) for x in v)

    def decode(self, b, fmt):
        s = self.elem.size
        return [self.elem.decode(b[i * s:(i + 1) * s], fmt) for i in range(self.n)]


class Object:  # the user-defined type
    size, name = 3, "Obj"
    fields = (Int(1, False), Int(2, True))

    def encode(self, v, fmt):
        return self.fields[0].encode(v.a, fmt) + self.fields[1].encode(v.b, fmt)

    def decode(self, b, fmt):
        return (self.fields[0].decode(b[:1], fmt), self.fields[1].decode(b[1:], fmt))


class Void:
    size, name = 0, "void"

    def decode(self, b, fmt):
        return None

    def encode(self, v, fmt):
        return b""


u8, i8, u16, i16 = Int(1, False), Int(1, True), Int(2, False), Int(2, True)
u32, i32, u64, i64 = Int(4, False), Int(4, True), Int(8, False), Int(8, True)
boolean, void, obj = Bool(), Void(), Object()
a3u8, a2i16, a2b = Arr(u8, 3), Arr(i16, 2), Arr(boolean, 2)

# Signatures, in the order of the keyring of keys.cpp
KEYS = [("first", void, []), ("f_void", void, []), ("f_u8", u8, [u8]), ("f_i8", i8, [i8]), ("f_bool", boolean, [boolean]),
        ("f_u16", u16, [u16]), ("f_i16", i16, [i16]), ("f_u32", u32, [u32]), ("f_i32", i32, [i32]), ("f_u64", u64, [u64]),
        ("f_i64", i64, [i64]), ("f_a3u8", a3u8, [a3u8]), ("f_a2i16", a2i16, [a2i16]), ("f_a2b", a2b, [a2b]),
        ("f_mix_4", i32, [u8, i16, boolean, u32]), ("only_in", void, [u8, a2i16, i8]), ("out__of_nothing", i16, []),
        ("F64", u64, [i64, u64, i32]), ("by_const_ref", i16, [u16, boolean, a3u8]), ("f_obj", obj, [obj]), ("x", u8, [u8, obj, u8]),
        ("functor", i16, [u8]), ("named_functor", void, [boolean, i8]), ("lambda", u32, [u16, i8])]


def index_bytes(i, n, fmt):
    w = 1 if n < 256 else 2
    return i.to_bytes(w, "little" if fmt[0] == "le" else "big")
