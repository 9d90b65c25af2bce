"""The programs of C33: the public headers, alone, in every order, and in several translation units."""
import itertools

PUBLIC = "action buffered_dispatcher dispatcher format key keyring policy tuple type typelist unevaluated upd".split()
BINDING = "python"

# What a program which includes only this header may do with it. Each function returns something which must not depend on the order
USES = {
    "type": "put(sizeof(upd::byte_t)); put(upd::byte_t(300 & 255));",
    "unevaluated": "put(std::is_same<upd::unevaluated<int, 5>::type, int>::value); auto h = UPD_CTREF(twice); (void)h;",
    "format": "put(int(upd::endianess::BIG != upd::endianess::LITTLE)); auto a = upd::little_endian; auto b = upd::twos_complement; (void)a; (void)b;\n"
              "  put(std::is_same<decltype(upd::offset_binary), const upd::signed_mode_h<upd::signed_mode::OFFSET_BINARY>>::value);",
    "policy": "auto p = upd::policy::weak_reference; auto q = upd::policy::any_callback; (void)p; (void)q;\n"
              "  put(std::is_same<upd::action_features_h<upd::action_features::ANY>, decltype(q)>::value);",
    "upd": "int x = 3; auto &&y = UPD_FWD(x); put(y);",
    "typelist": "auto l = upd::make_flist(UPD_CTREF(twice), UPD_CTREF(wide)); (void)l; put(std::is_empty<upd::typelist_t<int, char>>::value);",
    "tuple": "upd::tuple<upd::endianess::BIG, upd::signed_mode::ONES_COMPLEMENT, std::int16_t, std::uint8_t[2], bool> t{std::int16_t(-300), {7, 9}, true};\n"
             "  for (auto b : t) put(b);\n"
             "  put(t.get<0>()); put(upd::get<1>(t)[1]); upd::set<0>(t, 1234); put(t.get<0>()); put(decltype(t)::size);\n"
             "  auto v = upd::make_view<0, 2>(t); put(v.get<0>()); put(t.invoke([](std::int16_t a, const std::uint8_t (&b)[2], bool c) { return a + b[0] + c; }));\n"
             "  auto u = upd::make_tuple(upd::little_endian, upd::offset_binary, -5L); for (auto b : u) put(b);\n"
             "  put(int(std::tuple_size<decltype(t)>::value));",
    "action": "unsigned char in[4] = {1, 2, 3, 4}, out[8] = {};\n"
              "  upd::action a{[](std::uint16_t x) { return x * 3; }, upd::big_endian, upd::twos_complement};\n"
              "  a(in + 0, out + 0); for (int b : out) put(b);\n"
              "  put(a.input_size()); put(a.output_size());\n"
              "  upd::no_storage_action n{upd::unevaluated<decltype(&twice), &twice>{}, upd::little_endian, upd::signed_magnitude};\n"
              "  n(in + 0, out + 0); for (int b : out) put(b);",
    "key": "using K = upd::key<unsigned char, 4, long(std::int16_t, bool), upd::endianess::LITTLE, upd::signed_mode::SIGNED_MAGNITUDE>;\n"
           "  unsigned char out[8] = {}; K{}(std::int16_t(-2), true).write_to(out + 0); for (int b : out) put(b);\n"
           "  put(K{}.read_from(out + 0)); K{}.with_hook([](long x) { put(x); })(out + 0); put(K::payload_length);",
    "keyring": "using K = upd::keyring<upd::endianess::BIG, upd::signed_mode::TWOS_COMPLEMENT, upd::unevaluated<decltype(&twice), &twice>, upd::unevaluated<decltype(&wide), &wide>>;\n"
               "  unsigned char out[8] = {}; K::key_t<upd::unevaluated<decltype(&wide), &wide>>{}(70000, 2).write_to(out + 0); for (int b : out) put(b);\n"
               "  put(K{}.get(upd::unevaluated<decltype(&twice), &twice>{}).read_from(out + 0)); put(int(K::size));\n"
               "  auto k = upd::make_keyring(upd::make_flist(UPD_CTREF(twice)), upd::little_endian, upd::twos_complement); put(k.get(UPD_CTREF(twice)).payload_length);",
    "dispatcher": "DISPATCHERS(upd::dispatcher<)",
    "buffered_dispatcher": "",
}
RING = ("using K = upd::keyring<upd::endianess::LITTLE, upd::signed_mode::TWOS_COMPLEMENT, upd::unevaluated<decltype(&twice), &twice>, "
        "upd::unevaluated<decltype(&wide), &wide>>;\n  ")
# dispatcher.hpp and buffered_dispatcher.hpp do not promise keyring.hpp
USES["dispatcher"] = (RING + "unsigned char in[9] = {0, 5, 1}, out[8] = {};\n"
                      "  upd::dispatcher<K, upd::action_features::WEAK_REFERENCE> d; put(d(in + 0, out + 0)); for (int b : out) put(b);\n"
                      "  auto e = upd::make_dispatcher(K{}, upd::policy::any_callback); e.replace<0>([](std::uint16_t x) { return std::uint16_t(x + 1); });\n"
                      "  put(e(in + 0, out + 0)); for (int b : out) put(b); put(d[1].input_size()); put(int(d.get_action([]() -> unsigned char { return 9; }) == nullptr));")
USES["buffered_dispatcher"] = (RING + "unsigned char in[9] = {1, 5, 1, 0, 0, 7, 8};\n"
                               "  upd::double_buffered_dispatcher<upd::dispatcher<K, upd::action_features::WEAK_REFERENCE>> d;\n"
                               "  for (unsigned char b : in) put(int(d.put(b))); while (d.is_loaded()) put(d.get());\n"
                               "  auto s = upd::make_single_buffered_dispatcher(K{}, upd::policy::any_callback); s.replace<1>([](std::uint32_t x, std::int16_t y) { return std::int64_t(x - y); });\n"
                               "  unsigned char out[8] = {}; put(int(s(in + 0, out + 0))); for (int b : out) put(b); put(int(s.is_loaded()));")
NEEDS = {"dispatcher": ["keyring"], "buffered_dispatcher": ["keyring"]}
STD = "#include <cstddef>\n#include <cstdint>\n#include <type_traits>\n"
COMMON = '''
void put(long long);
std::uint16_t twice(std::uint16_t x);
std::int64_t wide(std::uint32_t x, std::int16_t y);
'''
MAIN = '''#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
static std::vector<long long> log_;
void put(long long x) { log_.push_back(x); }
std::uint16_t twice(std::uint16_t x) { return std::uint16_t(2 * x); }
std::int64_t wide(std::uint32_t x, std::int16_t y) { return std::int64_t(x) * y; }
%s
int main() {
  typedef void (*unit)();
  const unit units[] = {%s};
  // Each unit alone, then each after each other, in both orders
  for (unit u : units) {
    log_.clear();
    u();
    for (long long x : log_)
      std::printf("%%lld ", x);
    std::printf("\\n");
  }
  for (unit u : units) {
    log_.clear();
    u();
    const std::vector<long long> before = log_;
    for (unit v : units) {
      v();
      log_.clear();
      u();
      if (log_ != before) {
        std::printf("a unit behaves otherwise after another one\\n");
        return 1;
      }
    }
  }
}
'''


def includes(order):
    return "".join("#include <upd/%s.hpp>\n" % h for h in order)


def unit(order, uses, name, std_first=True):
    """A translation unit: includes in this order, then what can be done with `uses`"""
    body = "".join("  {\n  %s\n  }\n" % USES[u] for u in uses if u in USES)
    return (STD if std_first else "") + includes(order) + ("" if std_first else STD) + COMMON + "void %s() {\n%s}\n" % (name, body)


def orders(depth):
    for n in range(1, depth + 1):
        for o in itertools.permutations(PUBLIC, n):
            yield o


def usable(order):
    """What can be done after these inclusions"""
    return sorted(h for h in order if h in USES and all(n in order for n in NEEDS.get(h, [])))
