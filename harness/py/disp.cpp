// Dispatchers exposed to Python. The C++ callbacks log their calls.
#include <vector>

#include "sigs.hpp"

namespace log_ {
std::vector<std::pair<std::string, std::vector<long long>>> calls;
bool fail = false;
void add(const char *name, std::vector<long long> args) {
  calls.emplace_back(name, args);
  if (fail)
    throw std::runtime_error{"C++ failure"};
}
} // namespace log_

void nothing() { log_::add("nothing", {}); }
std::uint16_t twice(std::uint16_t x) {
  log_::add("twice", {x});
  return std::uint16_t(x * 2 + 1);
}
std::uint8_t invert(std::uint8_t x) {
  log_::add("invert", {x});
  return std::uint8_t(255 - x);
}
a3u8 rotate(a3u8 a) {
  log_::add("rotate", {a[0], a[1], a[2]});
  return a3u8{{a[1], a[2], a[0]}};
}
std::int32_t mix(std::int8_t a, bool b) {
  log_::add("mix", {a, b});
  return a * 1000 + (b ? 7 : -7);
}
void swallow(std::uint8_t a) { log_::add("swallow", {a}); }
a2i16 source() {
  log_::add("source", {});
  return a2i16{{std::int16_t(-2), std::int16_t(300)}};
}

constexpr upd::keyring k1{upd::flist<nothing, twice, invert>, upd::little_endian, upd::twos_complement};
constexpr upd::keyring k2{upd::flist<rotate, mix, swallow, source>, upd::big_endian, upd::offset_binary};
constexpr upd::keyring k3{upd::flist<mix, nothing>, upd::big_endian, upd::signed_magnitude};

PYBIND11_MODULE(MODULE, m) {
  auto m1 = m.def_submodule("k1"), m2 = m.def_submodule("k2"), m3 = m.def_submodule("k3");
  upd::py::declare_dispatcher(m1, "Dispatcher", k1);
  upd::py::declare_dispatcher(m2, "Dispatcher", k2);
  upd::py::declare_dispatcher(m3, "Dispatcher", k3);
  m.def("calls", []() {
    auto r = log_::calls;
    log_::calls.clear();
    return r;
  });
  m.def("fail", [](bool b) { log_::fail = b; });
}
