// More keys than one byte can tell
#include <upd/keyring.hpp>
#include <upd/python.hpp>

#define F10(p) F(p##0) F(p##1) F(p##2) F(p##3) F(p##4) F(p##5) F(p##6) F(p##7) F(p##8) F(p##9)
#define F100(p) F10(p##0) F10(p##1) F10(p##2) F10(p##3) F10(p##4) F10(p##5) F10(p##6) F10(p##7) F10(p##8) F10(p##9)
#define ALL F100(g0) F100(g1) F10(g20) F10(g21) F10(g22) F10(g23) F10(g24) F10(g25)
#define F(n) std::uint8_t n(std::uint8_t);
ALL
#undef F
std::int16_t last(bool);
#define F(n) n,
constexpr upd::keyring kring{upd::flist<ALL last>, upd::big_endian, upd::ones_complement};

PYBIND11_MODULE(MODULE, m) { upd::py::unpack_keyring(m, kring); }
