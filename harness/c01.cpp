// C01 (ENC): every integer is encoded as exactly the bytes its format prescribes.
// C02 (DEC): every byte pattern decodes to the integer it denotes.
#include "rig.hpp"
using namespace rig;

#if !defined(DEC)
#define DEC 0
#endif

static inline bool in_domain(V v, const Leaf &l, signed_mode s) { return v >= leaf_min(l, s) && v <= leaf_max(l); }

#if DEC == 0
template<typename T, endianess E, signed_mode S>
void encode_one(T x, const Leaf &l) {
  constexpr std::size_t n = sizeof(T);
  byte want[n];
  ref_store(want, V(x), l, E, S);
  using t1 = upd::tuple<E, S, T>;
  static_assert(t1::size == n, "");
  t1 t(x);
  MC_CHECK(std::memcmp(t.begin(), want, n) == 0 && t.end() == t.begin() + n,
           fmt_name(E, S) << " " << TT<T>::name() << " " << vstr(V(x)) << ": tuple holds " << mc::hex(t.begin(), n) << " instead of "
                          << mc::hex(want, n));
  // in the middle of a tuple, over previous content
  upd::tuple<E, S, u8, T, i8> m(u8(0xa5), V(x) == leaf_max(l) ? T(0) : T(leaf_max(l)), i8(0x3c));
  const byte before = m[0], after = m[n + 1];
  m.template set<1>(x);
  MC_CHECK(std::memcmp(m.begin() + 1, want, n) == 0,
           fmt_name(E, S) << " " << TT<T>::name() << " " << vstr(V(x)) << ": set stores " << mc::hex(m.begin() + 1, n) << " instead of "
                          << mc::hex(want, n));
  MC_CHECK(m[0] == before && m[n + 1] == after && m.size == n + 2, "set writes out of the element");
  // through a view, in an array of integers
  byte raw[2 * n];
  std::memset(raw, 0x77, sizeof raw);
  auto v = upd::make_view<T[2]>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, static_cast<byte *>(raw));
  const T arr[2] = {T(1), x};
  v.template set<0>(arr);
  MC_CHECK(std::memcmp(raw + n, want, n) == 0,
           fmt_name(E, S) << " " << TT<T>::name() << "[2] " << vstr(V(x)) << ": the second element is " << mc::hex(raw + n, n));
  const T back = t.template get<0>();
  MC_CHECK(back == x, fmt_name(E, S) << " " << TT<T>::name() << " " << vstr(V(x)) << " is read back as " << vstr(V(back)));
}
#endif

#if DEC == 1
template<typename T, endianess E, signed_mode S>
void decode_one(const byte *p, const Leaf &l) {
  constexpr std::size_t n = sizeof(T);
  V want = ref_get(p, l, E, S);
  upd::tuple<E, S, T> t;
  for (std::size_t i = 0; i < n; i++)
    t[i] = p[i];
  const T a = t.template get<0>();
  MC_CHECK(V(a) == want, fmt_name(E, S) << " " << TT<T>::name() << " " << mc::hex(p, n) << ": tuple gives " << vstr(V(a))
                                        << " instead of " << vstr(want));
  if (l.boolean) { // an object that is neither true nor false is a wrong value too
    unsigned char rep;
    std::memcpy(&rep, &a, 1);
    MC_CHECK(rep == (want ? 1 : 0), "decoded boolean has the representation " << int(rep));
  }
  byte raw[n + 2] = {0xff, 0};
  std::memcpy(raw + 1, p, n);
  raw[n + 1] = 0xff;
  const byte *rp = raw;
  auto v = upd::make_view<u8, T, i8>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, rp);
  const T b = v.template get<1>();
  MC_CHECK(V(b) == want, fmt_name(E, S) << " " << TT<T>::name() << " " << mc::hex(p, n) << ": view gives " << vstr(V(b))
                                        << " instead of " << vstr(want));
  upd::tuple<E, S, T[2]> arr;
  for (std::size_t i = 0; i < n; i++)
    arr[n + i] = p[i];
  const auto c = upd::get<0>(arr);
  MC_CHECK(V(c[1]) == want && V(c[0]) == ref_get(arr.begin(), l, E, S),
           fmt_name(E, S) << " " << TT<T>::name() << "[2] " << mc::hex(p, n) << ": element is " << vstr(V(c[1])) << " instead of "
                          << vstr(want));
  if (in_domain(want, l, S)) { // round trip of the value
    upd::tuple<E, S, T> u(T{});
    u.template set<0>(a);
    const T again = u.template get<0>();
    MC_CHECK(V(again) == want, fmt_name(E, S) << " " << TT<T>::name() << " " << vstr(want) << " does not survive a round trip: "
                                              << vstr(V(again)));
  }
}
#endif

template<typename T, endianess E, signed_mode S>
void one(const byte *pattern) { // the pattern gives the value (two's complement) to be encoded, or the bytes to be decoded
  static const Leaf l = leaves_of<T>()[0];
#if DEC == 1
  decode_one<T, E, S>(pattern, l);
#else
  V v = ref_get(pattern, l, LE, TC);
  if (in_domain(v, l, S))
    encode_one<T, E, S>(T(v), l);
  else
    return;
#endif
  mc::step();
}

template<typename T>
void all_formats(const byte *p) {
  one<T, LE, SM>(p);
  one<T, LE, OC>(p);
  one<T, LE, TC>(p);
  one<T, LE, OB>(p);
  one<T, BE, SM>(p);
  one<T, BE, OC>(p);
  one<T, BE, TC>(p);
  one<T, BE, OB>(p);
}

static void put_le(byte *p, mc::u64 v) {
  for (int i = 0; i < 8; i++)
    p[i] = byte(v >> (8 * i));
}

template<typename T>
void run(const char *name) {
  constexpr int n = sizeof(T);
  const std::string nm = std::string(name);
  if (n <= 2) {
    mc::sweep(nm + " all patterns", 0, 1ull << (8 * n), [](mc::u64 i) {
      byte p[8];
      put_le(p, i);
      all_formats<T>(p);
      if ((i & 0xff) == 0)
        mc::outcome(i);
    });
    return;
  }
  // powers of two and their surroundings
  mc::sweep(nm + " +-2^k+d", 0, mc::u64(8 * n) * 2 * 9, [](mc::u64 i) {
    mc::u64 k = i / 18, d = i % 9, neg = (i / 9) & 1;
    mc::u64 v = 1ull << k;
    if (neg)
      v = 0 - v;
    byte p[8];
    put_le(p, v + d - 4);
    all_formats<T>(p);
    mc::outcome(v + d - 4);
  });
  // every byte at every position, in front of various backgrounds
  mc::sweep(nm + " every byte", 0, mc::u64(n) * 256 * 6, [](mc::u64 i) {
    static const byte bg[6] = {0x00, 0xff, 0x5a, 0x80, 0x7f, 0x01};
    byte p[8];
    for (int k = 0; k < 8; k++)
      p[k] = bg[i % 6] ^ (i % 6 == 2 ? byte(k) : byte(0));
    p[i / (256 * 6)] = byte(i / 6);
    all_formats<T>(p);
    mc::outcome(mc::hash_bytes(p, n));
  });
  // combinations of boundary bytes
  {
    static const byte a6[6] = {0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff}, a4[4] = {0x00, 0x7f, 0x80, 0xff};
    const bool wide = n == 4 || mc::thorough();
    mc::u64 m = wide ? 6 : 4, tot = 1;
    for (int k = 0; k < n; k++)
      tot *= m;
    mc::u64 step = n == 8 && !mc::thorough() ? 4 : 1; // quick: the lowest byte of 64-bit patterns stays at its first value
    mc::sweep(nm + " boundary bytes", 0, tot / step, [=](mc::u64 i) {
      byte p[8] = {0};
      mc::u64 j = i * step;
      for (int k = 0; k < n; k++, j /= m)
        p[k] = wide ? a6[j % m] : a4[j % m];
      all_formats<T>(p);
    });
  }
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  run<bool>("bool");
  run<u8>("u8");
  run<i8>("i8");
  run<char>("char");
  run<u16>("u16");
#elif PART == 1
  run<i16>("i16");
  run<char16_t>("char16_t");
#elif PART == 2
  run<u32>("u32");
  run<i32>("i32");
  run<wchar_t>("wchar_t");
  run<char32_t>("char32_t");
#elif PART == 3
  run<unsigned long>("unsigned long");
  run<long>("long");
#elif PART == 4
  run<unsigned long long>("unsigned long long");
  run<long long>("long long");
#elif PART == 5 // thorough, optimized: all the 32-bit patterns
  for (int k = 0; k < 256; k++) {
    mc::u64 lo = mc::u64(k) << 24, hi = lo + (1ull << 24);
    auto f = [](mc::u64 i) {
      byte p[8];
      put_le(p, i);
      all_formats<u32>(p);
      all_formats<i32>(p);
    };
    mc::sweep("32-bit patterns, block " + std::to_string(k), lo, hi, f);
  }
#endif
  return mc::finish();
}
