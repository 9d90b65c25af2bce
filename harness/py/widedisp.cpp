// A dispatcher of more callbacks than one byte can tell
#include <upd/keyring.hpp>
#include <upd/python.hpp>

#define F10(p) F(p##0) F(p##1) F(p##2) F(p##3) F(p##4) F(p##5) F(p##6) F(p##7) F(p##8) F(p##9)
#define F100(p) F10(p##0) F10(p##1) F10(p##2) F10(p##3) F10(p##4) F10(p##5) F10(p##6) F10(p##7) F10(p##8) F10(p##9)
#define ALL F100(1) F100(2) F10(30) F10(31) F10(32) F10(33) F10(34) F10(35)
#define F(n) std::uint16_t g##n(std::uint8_t x) { return std::uint16_t(x * 259 + n); }
ALL
#undef F
std::int16_t last(bool b) { return b ? -300 : 5; }
#define F(n) g##n,
constexpr upd::keyring kring{upd::flist<ALL last>, upd::little_endian, upd::twos_complement};

PYBIND11_MODULE(MODULE, m) { upd::py::declare_dispatcher(m, "Dispatcher", kring); }
