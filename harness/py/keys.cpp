// A keyring over all the signatures, exposed to Python, in the format (ENDIANESS, SIGNED_MODE)
#include "sigs.hpp"

void first();
#define DECLARE(R, NAME, ARGS) R NAME ARGS;
#define NAME(R, NAME, ARGS) , NAME
SIGS(DECLARE)

struct {
  std::int16_t operator()(std::uint8_t) { return 0; };
} functor;
struct Named {
  void operator()(bool, std::int8_t) const {};
} named_functor;
auto lambda = [](std::uint16_t, std::int8_t) -> std::uint32_t { return 0; };

constexpr upd::keyring kring{upd::flist<first SIGS(NAME), functor, named_functor, lambda>, upd::ENDIANESS, upd::SIGNED_MODE};

PYBIND11_MODULE(MODULE, m) {
  pybind11::class_<Obj>{m, "Obj", pybind11::module_local()}
      .def(pybind11::init([](int a, int b) {
        return Obj{std::uint8_t(a), std::int16_t(b)};
      }))
      .def_readonly("a", &Obj::a)
      .def_readonly("b", &Obj::b);
  upd::py::unpack_keyring(m, kring);
}
