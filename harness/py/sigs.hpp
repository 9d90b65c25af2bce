// Callbacks exposed to Python. Their names must not be in a namespace.
#include <array>
#include <cstdint>
#include <string>

#include <upd/keyring.hpp>
#include <upd/python.hpp>

struct Obj {
  std::uint8_t a;
  std::int16_t b;
};
template<>
struct upd_extension<Obj> {
  template<typename View>
  static void serialize(const Obj &o, View &view) {
    view.template set<0>(o.a);
    view.template set<1>(o.b);
  }
  static Obj unserialize(std::uint8_t a, std::int16_t b) { return Obj{a, b}; }
};
using a3u8 = std::array<std::uint8_t, 3>;
using a2i16 = std::array<std::int16_t, 2>;
using a2b = std::array<bool, 2>;

// SIG(return type, name, parameters); the types have the names that the explorers know
#define SIGS(SIG)                                                                                                      \
  SIG(void, f_void, ())                                                                                                \
  SIG(std::uint8_t, f_u8, (std::uint8_t))                                                                              \
  SIG(std::int8_t, f_i8, (std::int8_t))                                                                                \
  SIG(bool, f_bool, (bool))                                                                                            \
  SIG(std::uint16_t, f_u16, (std::uint16_t))                                                                           \
  SIG(std::int16_t, f_i16, (std::int16_t))                                                                             \
  SIG(std::uint32_t, f_u32, (std::uint32_t))                                                                           \
  SIG(std::int32_t, f_i32, (std::int32_t))                                                                             \
  SIG(std::uint64_t, f_u64, (std::uint64_t))                                                                           \
  SIG(std::int64_t, f_i64, (std::int64_t))                                                                             \
  SIG(a3u8, f_a3u8, (a3u8))                                                                                            \
  SIG(a2i16, f_a2i16, (a2i16))                                                                                         \
  SIG(a2b, f_a2b, (a2b))                                                                                               \
  SIG(std::int32_t, f_mix_4, (std::uint8_t, std::int16_t, bool, std::uint32_t))                                        \
  SIG(void, only_in, (std::uint8_t, a2i16, std::int8_t))                                                               \
  SIG(std::int16_t, out__of_nothing, ())                                                                               \
  SIG(std::uint64_t, F64, (std::int64_t, std::uint64_t, std::int32_t))                                                 \
  SIG(std::int16_t, by_const_ref, (const std::uint16_t &, const bool &, const a3u8 &))                                 \
  SIG(Obj, f_obj, (Obj))                                                                                               \
  SIG(std::uint8_t, x, (std::uint8_t, Obj, std::uint8_t))

