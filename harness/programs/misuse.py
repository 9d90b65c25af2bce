"""The programs of C32: for each place of the API, the right uses, which compile, and the misuses, which do not.

A case is a place - a function with a hole - and what fills the hole. Each filling is right or wrong."""

PRELUDE = r'''
#include <array>
#include <cstdint>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/keyring.hpp>
#include <upd/tuple.hpp>
using namespace std;
using upd::byte_t;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
constexpr auto LE = upd::endianess::LITTLE; constexpr auto BE = upd::endianess::BIG;
constexpr auto TC = upd::signed_mode::TWOS_COMPLEMENT; constexpr auto SM = upd::signed_mode::SIGNED_MAGNITUDE;
constexpr auto ANY = upd::action_features::ANY; constexpr auto WEAK = upd::action_features::WEAK_REFERENCE;
#define H(f) upd::unevaluated<decltype(&f), &f>
// The callbacks of the keyring
i16 add(i8 a, i16 b); void store(u32 v); u8 load(); u32 mix(u8, bool, i64); i32 sum(const u8 (&v)[4]); void raw(const byte_t (&v)[16]);
void words(const u16 (&v)[16]); void longs(const i64 (&v)[2]); void twice_raw(const byte_t (&v)[16], const byte_t (&w)[16]); u8 small(const byte_t (&v)[1]);
using K2 = upd::keyring<BE, SM, H(words), H(longs), H(twice_raw), H(small)>;
using K = upd::keyring<LE, TC, H(add), H(store), H(load), H(mix), H(sum), H(raw)>;
// Callbacks which are not in it
i16 add2(i8 a, i16 b); void store2(u32 v); u8 load2(); i16 sub(i16 a, i8 b); i16 neg(i8 a); i32 add_(i8 a, i16 b); i16 three(i8, i16, i16); u32 get32(); void nop(); void store_(i32 v);
i16 addu(u8 a, i16 b); void voidadd(i8 a, i16 b);
template<upd::action_features F> using D = upd::dispatcher<K, F>;
template<upd::action_features F> using S = upd::single_buffered_dispatcher<D<F>>;
template<upd::action_features F> using DD = upd::double_buffered_dispatcher<D<F>>;
struct Pod { int a; };
struct Opaque { Opaque(int); };
enum Enum { E0 }; enum class Scoped : u8 { S0 };
template<typename T> T &ref();      // any variable
template<typename T> T val();       // any temporary object
// Sources and destinations
struct Src { byte_t operator()(); }; struct SrcInt { int operator()(); }; struct SrcVoid { void operator()(); }; struct SrcPtr { byte_t *operator()(); };
struct SrcPod { Pod operator()(); }; struct SrcArg { byte_t operator()(int); }; struct SrcString { string operator()(); };
struct Dest { void operator()(byte_t); }; struct DestInt { void operator()(int); }; struct DestNone { void operator()(); }; struct DestTwo { void operator()(byte_t, byte_t); };
struct DestPod { void operator()(Pod); }; struct DestPtr { void operator()(byte_t *); }; struct DestString { void operator()(string); };
struct Empty {}; struct Generic { template<typename T> T operator()(T); }; struct Overloaded { int operator()(int); int operator()(); };
float half(float); void pod(Pod); Pod get_pod(); void text(string); void pointer(u8 *); void change(u8 &); void floats(const float (&)[2]); void scoped(Scoped);
u8 *get_pointer(); double get_double(); void cat(const u8 &, u16 &&, const bool);
byte_t src_f(); void src_void(); void dest_f(byte_t); void dest_none();
'''

# What may be given as a source: right and wrong
SOURCES = dict(
    right={"functor": "ref<Src>()", "temporary": "val<Src>()", "int": "ref<SrcInt>()", "function": "src_f", "pointer": "&src_f",
           "std": "ref<function<byte_t()>>()", "lambda": "[]() -> byte_t { return 0; }", "bytes": "ref<byte_t *>()", "cbytes": "ref<const byte_t *>()",
           "array": "ref<byte_t[64]>()", "carray": "ref<const byte_t[64]>()", "vector": "ref<vector<byte_t>>().begin()",
           "list": "ref<list<byte_t>>().cbegin()", "stream": "ref<istream_iterator<byte_t>>()"},
    wrong={"number": "5", "text": "ref<string>()", "nothing": "ref<Empty>()", "object": "ref<Pod>()", "void": "ref<SrcVoid>()", "void function": "src_void",
           "pointer": "ref<SrcPtr>()", "pod": "ref<SrcPod>()", "string": "ref<SrcString>()", "argument": "ref<SrcArg>()", "destination": "ref<Dest>()",
           "pods": "ref<Pod *>()", "strings": "ref<vector<string>>().begin()", "pointers": "ref<byte_t **>()", "inserter": "back_inserter(ref<vector<byte_t>>())",
           "container": "ref<vector<byte_t>>()", "null": "nullptr", "void *": "ref<void *>()", "opaque": "val<Opaque>()"})
DESTS = dict(
    right={"functor": "ref<Dest>()", "temporary": "val<Dest>()", "int": "ref<DestInt>()", "function": "dest_f", "pointer": "&dest_f",
           "std": "ref<function<void(byte_t)>>()", "lambda": "[](byte_t) {}", "bytes": "ref<byte_t *>()", "array": "ref<byte_t[64]>()",
           "vector": "ref<vector<byte_t>>().begin()", "list": "ref<list<byte_t>>().begin()", "inserter": "back_inserter(ref<vector<byte_t>>())"},
    wrong={"number": "5", "text": "ref<string>()", "nothing": "ref<Empty>()", "object": "ref<Pod>()", "none": "ref<DestNone>()", "none function": "dest_none",
           "two": "ref<DestTwo>()", "pod": "ref<DestPod>()", "pointer": "ref<DestPtr>()", "source": "ref<Src>()", "cbytes": "ref<const byte_t *>()",
           "carray": "ref<const byte_t[64]>()", "cvector": "ref<vector<byte_t>>().cbegin()", "pods": "ref<Pod *>()", "vectors": "ref<vector<vector<byte_t>>>().begin()",
           "pointers": "ref<byte_t **>()", "stream": "ref<istream_iterator<byte_t>>()", "container": "ref<vector<byte_t>>()", "null": "nullptr",
           "string": "ref<DestString>()"})

KEY = "upd::key<u8, 0, i16(i8, i16), LE, TC>"
SOURCE_PLACES = {
    "key.read_from(src)": "ref<const K::key_t<H(add)>>().read_from(%s);",
    "dispatcher(src, dest)": "ref<D<WEAK>>()(%s, ref<Dest>());",
    "owning dispatcher(src, dest)": "ref<D<ANY>>()(%s, ref<byte_t *>());",
    "action(src, dest)": "ref<const upd::action>()(%s, ref<Dest>());",
    "action(src)": "ref<const upd::action>()(%s);",
    "no_storage_action(src, dest)": "ref<const upd::no_storage_action>()(%s, ref<Dest>());",
    "single.read_from(src)": "ref<S<WEAK>>().read_from(%s);",
    "double.read_from(src)": "ref<DD<ANY>>().read_from(%s);",
    "single(src, dest)": "ref<S<ANY>>()(%s, ref<Dest>());",
    "double(src, dest)": "ref<DD<WEAK>>()(%s, ref<byte_t *>());",
}
# Those only take invocable sources
GETTER_PLACES = {
    "dispatcher.get_action(src)": "ref<D<WEAK>>().get_action(%s);",
    "owning dispatcher.get_action(src)": "ref<D<ANY>>().get_action(%s);",
    "dispatcher.get_index(src)": "ref<const D<WEAK>>().get_index(%s);",
}
GETTERS = "functor temporary int function pointer std lambda".split()
DEST_PLACES = {
    "message.write_to(dest)": "ref<const K::key_t<H(add)>>()(1, 2).write_to(%s);",
    "dispatcher(src, dest)": "ref<D<WEAK>>()(ref<Src>(), %s);",
    "owning dispatcher(src, dest)": "ref<D<ANY>>()(ref<byte_t *>(), %s);",
    "action(src, dest)": "ref<const upd::action>()(ref<Src>(), %s);",
    "no_storage_action(src, dest)": "ref<const upd::no_storage_action>()(ref<Src>(), %s);",
    "single.write_to(dest)": "ref<S<WEAK>>().write_to(%s);",
    "double.write_to(dest)": "ref<DD<ANY>>().write_to(%s);",
    "single(src, dest)": "ref<S<ANY>>()(ref<Src>(), %s);",
    "double(src, dest)": "ref<DD<WEAK>>()(ref<byte_t *>(), %s);",
    "reply(dest, key)": "ref<DD<WEAK>>().reply(%s, K::key_t<H(raw)>{});",
}


def programs(std):
    """(place, filling, whether it is right, body)"""
    r = []

    def add(place, template, right=(), wrong=()):
        for ok, fillings in ((True, right), (False, wrong)):
            items = fillings.items() if isinstance(fillings, dict) else [(f, f) for f in fillings]
            for name, f in items:
                r.append((place, name, ok, template % f))

    for p, t in SOURCE_PLACES.items():
        add(p, t, SOURCES["right"], SOURCES["wrong"])
    for p, t in GETTER_PLACES.items():
        add(p, t, {g: SOURCES["right"][g] for g in GETTERS}, SOURCES["wrong"])
    for p, t in DEST_PLACES.items():
        add(p, t, DESTS["right"], DESTS["wrong"])

    # Tuples
    ser = ["u8", "i64", "bool", "u16", "char", "i32[3]", "u8[1]", "u8, i16", "signed char", "long", "unsigned long long", "char16_t", "wchar_t"]
    notser = ["float", "double", "void", "u8 *", "const u8", "u8 &", "volatile i16", "string", "Pod", "int, float", "nullptr_t", "u8, Pod", "float[2]", "Pod[2]",
              "int (*)(int)", "vector<u8>", "int Pod::*", "const i32[2]", "Enum", "Scoped", "long double", "Scoped[2]", "float, u8"]
    add("tuple<T>", "upd::tuple<LE, TC, %s> t; t.begin();", ser, notser)
    add("tuple_view<T>", "upd::tuple_view<byte_t *, BE, SM, %s>{ref<byte_t *>()}.get<0>();", ser, notser)
    T = "upd::tuple<LE, TC, u8, i16, i32[2]>"
    V = "upd::tuple_view<const byte_t *, LE, TC, u8, i16, i32[2]>"
    for n, o in ("tuple", T), ("view", V):
        add("%s.get<I>()" % n, "ref<const %s>().get<%%s>();" % o, ["0", "1", "2"], ["3", "4", "100", "-1"])
        add("get<I>(%s)" % n, "upd::get<%%s>(ref<const %s>());" % o, ["0", "1", "2"], ["3", "4", "100", "-1"])
        add("%s.invoke(f)" % n, "ref<const %s>().invoke([](%%s) {});" % o,
            ["u8, i16, const i32 (&)[2]", "int, int, const i32 (&)[2]"],
            ["u8, i16", "u8, i16, i32", "u8, i16, const i32 (&)[2], int", "string, i16, const i32 (&)[2]", "u8, i16, const i32 (&)[3]", "", "u8, i16, const i16 (&)[2]",
             "u8 &, i16, const i32 (&)[2]", "u8, i16, array<i32, 3>"])
        add("tuple_size<%s>" % n, "static_assert(tuple_size<%s>::value == %%s, \"\");" % o, ["3"], ["4", "2"])
    add("tuple.set<I>(v)", "ref<%s>().%%s;" % T,
        ["set<0>(1)", "set<1>(i16(5))", "set<2>(ref<i32[2]>())", "set<0>('a')"],
        ["set<3>(1)", "set<-1>(1)", "set<0>(ref<string>())", "set<0>(ref<int *>())", "set<2>(5)", "set<2>(ref<i32[3]>())", "set<2>(ref<i16[2]>())", "set<1>(ref<Pod>())",
         "set<0>(nullptr)"])
    add("set<I>(tuple, v)", "upd::%s;", ["set<0>(ref<%s>(), 1)" % T, "set<2>(ref<%s>(), ref<i32[2]>())" % T],
        ["set<3>(ref<%s>(), 1)" % T, "set<0>(ref<%s>(), ref<string>())" % T, "set<0>(ref<const %s>(), 1)" % T, "set<2>(ref<%s>(), ref<i32[1]>())" % T])
    add("view.set<I>(v)", "ref<upd::tuple_view<%s, LE, TC, u8, i16>>().set<0>(1);", ["byte_t *", "vector<byte_t>::iterator", "list<byte_t>::iterator"],
        ["const byte_t *", "vector<byte_t>::const_iterator", "list<byte_t>::const_iterator"])
    add("tuple.view<I, L>()", "ref<%s>().view<%%s>();" % T, ["0, 3", "0, 1", "1, 2", "2, 1", "0, 2"], ["0, 4", "3, 1", "1, 3", "2, 2", "-1, 1", "4, 1"])
    add("constant tuple.view<I, L>()", "ref<const %s>().view<%%s>();" % T, ["0, 3", "1, 2"], ["0, 4", "3, 1", "1, 3"])
    add("make_view<I, L>(tuple)", "upd::make_view<%%s>(ref<%s>());" % T, ["0, 3", "1, 2"], ["0, 4", "3, 1"])
    add("constant tuple.view().set()", "ref<%s>().view<0, 2>().set<0>(1);", [T], ["const " + T])
    add("tuple = tuple", "ref<%s>() = val<%%s>();" % "upd::tuple<LE, TC, u8, i16>",
        ["upd::tuple<LE, TC, u8, i16>", "upd::tuple<BE, SM, u8, i16>", "upd::tuple<BE, TC, i64, bool>"],
        ["upd::tuple<BE, TC, u8>", "upd::tuple<BE, TC>", "upd::tuple<BE, TC, u8, i32[2]>", "Pod", "string", "int"])
    add("tuple(values)", "upd::tuple<LE, TC, u8, i16>{%s};", ["u8(1), i16(2)", ""], ["u8(1)", "u8(1), i16(2), i16(3)", "string{}, i16(2)", "u8(1), nullptr", "u8(1), Pod{}"])
    add("make_tuple(format, values)", "upd::make_tuple(%s);",
        ["upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}, 1, u8(2)", "upd::endianess_h<BE>{}, upd::signed_mode_h<SM>{}"],
        ["upd::endianess_h<LE>{}, 1", "upd::signed_mode_h<TC>{}, upd::endianess_h<LE>{}, 1", "upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}, 1.5",
         "upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}, ref<string>()", "upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}, ref<int *>()", "LE, TC, 1"])
    add("make_view<Ts...>(format, iterator)", "upd::make_view<%s>(upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}, ref<byte_t *>()).get<0>();", ["u8", "u8, i16"],
        ["float", "u8, string", "u8 &"])

    # Keyrings and keys
    add("keyring.get(H)", "K{}.get(%s{});", ["H(add)", "H(store)", "H(raw)"], ["H(add2)", "H(sub)", "H(nop)", "upd::unevaluated<int, 0>", "int", "Pod"])
    add("key_t<H>", "val<K::key_t<%s>>().index;", ["H(add)", "H(raw)"], ["H(add2)", "H(sub)"])
    add("keyring", "upd::make_keyring(upd::make_flist(%s), upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}).size;", ["H(add){}", "H(add){}, H(store){}"],
        ["upd::unevaluated<int, 5>{}", "H(add){}, upd::unevaluated<int, 5>{}", "5", "add", "ref<Src>()"])
    add("key(args)", "ref<const K::key_t<H(add)>>()(%s).write_to(ref<Dest>());", ["1, 2", "i8(1), i16(2)", "'a', true"],
        ["", "1", "1, 2, 3", "nullptr, 2", "1, ref<string>()", "ref<Pod>(), 2", "1, ref<int *>()", "Scoped::S0, 2", "1, ref<i16[1]>()", "val<Empty>(), 2"])
    add("key(array)", "ref<const K::key_t<H(sum)>>()(%s).write_to(ref<Dest>());", ["ref<u8[4]>()", "ref<const u8[4]>()"],
        ["", "ref<u8[3]>()", "ref<u8[5]>()", "ref<u16[4]>()", "ref<u8 *>()", "1", "ref<u8[4]>(), 1", "nullptr", "ref<vector<u8>>()"])
    add("key()", "ref<const K::key_t<H(load)>>()(%s).write_to(ref<Dest>());", [""], ["1", "ref<Src>()"])
    add("result of read_from()", "%s>>().read_from(ref<Src>());", [
        "i16 x = ref<const K::key_t<H(add)", "u8 x = ref<const K::key_t<H(load)", "i32 x = ref<const K::key_t<H(add)"],
        ["string x = ref<const K::key_t<H(add)", "int x = ref<const K::key_t<H(store)", "int *x = ref<const K::key_t<H(add)", "Scoped x = ref<const K::key_t<H(load)"])

    # Callables
    fun = {"function": "add", "pointer": "&add", "lambda": "[](i8) -> i16 { return 0; }", "std": "ref<function<void(u32)>>()", "nothing": "[] {}"}
    notfun = {"number": "5", "empty": "ref<Empty>()", "generic": "ref<Generic>()", "overloaded": "ref<Overloaded>()", "float": "[](float) {}", "pointers": "[](u8 *) {}",
              "string": "[](string) {}", "returns float": "[]() -> float { return 0; }", "returns string": "[]() -> string { return {}; }",
              "returns pointer": "[]() -> u8 * { return nullptr; }", "pod": "[](Pod) {}", "reference": "[](u8 &) {}", "text": '"text"', "null": "nullptr", "member": "&Src::operator()"}
    add("action{f}", "upd::action{%s, upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}};", fun, notfun)
    add("key.with_hook(f)", "ref<const K::key_t<H(add)>>().with_hook(%s);", {k: v for k, v in fun.items()}, notfun)
    add("key.with_hook(H)", "ref<const K::key_t<H(add)>>().with_hook(%s{});", ["H(store)", "H(nop)"], ["upd::unevaluated<int, 5>"])
    add("no_storage_action{H}", "upd::no_storage_action{%s{}, upd::endianess_h<LE>{}, upd::signed_mode_h<TC>{}};", ["H(store)", "H(add)"], ["upd::unevaluated<int, 5>", "int"])

    sig = ["H(add)", "H(store)", "H(raw)", "H(cat)"]
    notsig = ["H(half)", "H(pod)", "H(get_pod)", "H(text)", "H(pointer)", "H(change)", "H(floats)", "H(scoped)", "H(get_pointer)", "H(get_double)"]
    for f in "WEAK", "ANY":
        add("dispatcher<%s> of callbacks" % f, "upd::dispatcher<upd::keyring<LE, TC, H(nop), %%s>, %s> d; d(ref<Src>(), ref<Dest>());" % f, sig, notsig)
        add("double_buffered_dispatcher<%s> of callbacks" % f,
            "upd::double_buffered_dispatcher<upd::dispatcher<upd::keyring<BE, SM, %%s>, %s>> d; d(ref<Src>(), ref<Dest>());" % f, sig, notsig)
    for h in ("H(add)", "H(load)"), ("H(half)", "H(get_pod)", "H(get_pointer)", "H(get_double)"):
        for x in h:
            r.append(("key of a callback, response", x, h[0] == "H(add)", "upd::keyring<LE, TC, %s>{}.get(%s{}).read_from(ref<Src>());" % (x, x)))
    for h, a in (("H(add)", "1, 2"), ("H(sum)", "ref<u8[4]>()"), ("H(half)", "1"), ("H(pod)", "ref<Pod>()"), ("H(text)", "ref<string>()"),
                 ("H(pointer)", "ref<u8 *>()"), ("H(floats)", "ref<float[2]>()"), ("H(scoped)", "Scoped::S0")):
        r.append(("key of a callback, request", h, h in ("H(add)", "H(sum)"),
                  "upd::keyring<LE, TC, %s>{}.get(%s{})(%s).write_to(ref<Dest>());" % (h, h, a)))

    # Dispatchers
    for n, t in ("dispatcher", "D"), ("single", "S"), ("double", "DD"):
        for f in "WEAK", "ANY":
            o = "%s<%s>" % (t, f)
            add("%s.replace<I>(H)" % o, "ref<%s>().replace<%%s{});" % o,
                ["0>(H(add2)", "0>(H(add)", "1>(H(store2)", "2>(H(load2)"],
                ["6>(H(add2)", "7>(H(nop)", "255>(H(add2)", "-1>(H(add2)", "0>(H(sub)", "0>(H(neg)", "0>(H(add_)", "0>(H(three)", "0>(H(store)", "0>(H(addu)", "0>(H(voidadd)", "1>(H(add2)",
                 "1>(H(store_)", "2>(H(get32)", "2>(H(nop)", "4>(H(raw)", "0>(upd::unevaluated<int, 5>"])
            if f == "ANY":
                add("%s.replace<I>(f)" % o, "ref<%s>().replace<%%s);" % o,
                    ["0>(add2", "0>([](i8, i16) -> i16 { return 0; }", "1>([](u32) {}", "1>(ref<function<void(u32)>>()", "2>([]() -> u8 { return 0; }"],
                    ["6>([](i8, i16) -> i16 { return 0; }", "0>([](i16, i8) -> i16 { return 0; }", "0>([](i8) -> i16 { return 0; }", "0>([](i8, i16) -> i32 { return 0; }",
                     "0>([](i8, i16) {}", "1>([](i32) {}", "1>([](u32) { return 0; }", "2>([] {}", "2>(sub", "0>(ref<Empty>()", "0>(5", "0>(nullptr", "0>(ref<Generic>()",
                     "4>([](const u8 (&)[3]) -> i32 { return 0; }", "1>(ref<Overloaded>()"])
            else:
                add("%s.replace<I>(f)" % o, "ref<%s>().replace<%%s);" % o, [],
                    ["0>(add2", "0>([](i8, i16) -> i16 { return 0; }", "1>(ref<function<void(u32)>>()", "1>(ref<Dest>()"])
            if n != "dispatcher":
                add("%s.reply(dest, key)" % o, "ref<%s>().reply(ref<Dest>(), %%s);" % o, ["K::key_t<H(raw)>{}", "K::key_t<H(sum)>{}", "K2::key_t<H(small)>{}", "ref<K::key_t<H(raw)>>()", "ref<const K::key_t<H(raw)>>()"],
                    ["K::key_t<H(store)>{}", "K2::key_t<H(words)>{}", "K2::key_t<H(longs)>{}", "K2::key_t<H(twice_raw)>{}", "5", "H(raw){}", "raw", "ref<Pod>()", "nullptr", "K{}", "K::key_t<H(add)>{}", "K::key_t<H(load)>{}", "K::key_t<H(mix)>{}"])
                add("%s.put(byte)" % o, "ref<%s>().put(%%s);" % o, ["byte_t(1)", "1"], ["", "ref<string>()", "nullptr", "1, 2", "ref<Pod>()"])
    add("dispatcher<Keyring>", "val<upd::dispatcher<%s, WEAK>>().size;", ["K", "upd::keyring<BE, SM, H(add)>"], ["int", "Pod", "H(add)", "typename K::flist_t", "D<WEAK>"])
    add("make_dispatcher(keyring, features)", "upd::make_dispatcher(%s);", ["K{}, upd::action_features_h<WEAK>{}", "K{}, upd::action_features_h<ANY>{}"],
        ["K{}", "5, upd::action_features_h<WEAK>{}", "K{}, WEAK", "Pod{}, upd::action_features_h<ANY>{}", "K{}, upd::endianess_h<LE>{}"])
    # A copied action or a copied owning dispatcher would share or lose its callbacks
    add("copy", "auto &a = ref<%s>(); auto b = a; (void)b;", ["K::key_t<H(add)>", "D<WEAK>", "S<WEAK>", "DD<WEAK>", "upd::no_storage_action", T], ["upd::action", "D<ANY>", "S<ANY>", "DD<ANY>"])
    if std == "c++17":
        add("flist", "upd::keyring{upd::flist<%s>}.size;", ["add", "add, store", "add, load, raw"], ["5", "add, 5", "ref", "E0"])
        add("keyring.get<f>()", "K{}.get<%s>();", ["add", "raw"], ["add2", "sub", "nop", "E0", "5"])
        add("key.with_hook<f>()", "ref<const K::key_t<H(add)>>().with_hook<%s>();", ["store", "nop", "neg"], ["5", "E0"])
        for o in "D<WEAK>", "D<ANY>", "S<WEAK>", "DD<ANY>":
            add("%s.replace<I, f>()" % o, "ref<%s>().replace<%%s>();" % o, ["0, add2", "1, store2", "2, load2"],
                ["6, add2", "0, sub", "0, neg", "0, add_", "0, three", "1, add2", "2, nop", "1, store_", "0, 5", "0, addu"])
        add("keyring(flist, format)", "upd::keyring{%s};", ["upd::flist<add>, upd::little_endian, upd::twos_complement", "upd::flist<add, load>"],
            ["upd::flist<add>, 5", "5", "upd::flist<add>, upd::twos_complement, upd::little_endian", "add, load"])
    return r
