// What the harnesses share: an independent oracle of the wire format, the user-defined types, logging callbacks, a reference
// model of the dispatchers, and byte sources and sinks. Only the public interface of the library is used. C++11 and C++17.
#pragma once

#include <array>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/format.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
#include <upd/tuple.hpp>
#include <upd/typelist.hpp>
#include <upd/unevaluated.hpp>

#include "mc.hpp"

namespace rig {

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using byte = upd::byte_t;
using bytes = std::vector<byte>;
using V = __int128;
using Vals = std::vector<V>;
using upd::endianess;
using upd::signed_mode;

constexpr endianess LE = endianess::LITTLE, BE = endianess::BIG;
constexpr signed_mode SM = signed_mode::SIGNED_MAGNITUDE, OC = signed_mode::ONES_COMPLEMENT,
                      TC = signed_mode::TWOS_COMPLEMENT, OB = signed_mode::OFFSET_BINARY;

inline std::string fmt_name(endianess e, signed_mode s) {
  return std::string(e == LE ? "LE" : "BE") + (s == SM ? "/SM" : s == OC ? "/OC" : s == TC ? "/TC" : "/OB");
}

inline std::string vstr(V v) {
  if (v == 0)
    return "0";
  bool neg = v < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
  std::string s;
  for (; u; u /= 10)
    s.insert(s.begin(), char('0' + int(u % 10)));
  return (neg ? "-" : "") + s;
}
inline std::string vstr(const Vals &v) {
  std::string s = "(";
  for (std::size_t i = 0; i < v.size(); i++)
    s += (i ? "," : "") + vstr(v[i]);
  return s + ")";
}

// ------------------------------------------------------------------------------------------ oracle of the wire format

struct Leaf { // a primitive integer on the wire; a `pad` leaf carries no value: encoded as zero, ignored when decoded
  unsigned size;
  bool sgn, boolean, pad;
  bool operator==(const Leaf &o) const {
    return size == o.size && sgn == o.sgn && boolean == o.boolean && pad == o.pad;
  }
};
using Leaves = std::vector<Leaf>;

inline V leaf_max(const Leaf &l) {
  if (l.boolean)
    return 1;
  return (V(1) << (8 * l.size - (l.sgn ? 1 : 0))) - 1;
}
// Smallest value that the representation can express
inline V leaf_min(const Leaf &l, signed_mode s) {
  if (!l.sgn)
    return 0;
  V m = -leaf_max(l);
  return (s == TC || s == OB) ? m - 1 : m;
}

inline void ref_store(byte *out, V v, const Leaf &l, endianess e, signed_mode s) {
  unsigned bits = 8 * l.size;
  V mask = (V(1) << bits) - 1, half = V(1) << (bits - 1), u = v;
  if (l.sgn)
    switch (s) {
    case SM:
      u = v < 0 ? half + (-v) : v;
      break;
    case OC:
      u = v < 0 ? mask - (-v) : v;
      break;
    case TC:
      u = v < 0 ? mask + 1 + v : v;
      break;
    case OB:
      u = v + half;
      break;
    }
  for (unsigned i = 0; i < l.size; i++) {
    unsigned k = e == LE ? i : l.size - 1 - i;
    out[i] = byte((u >> (8 * k)) & 0xff);
  }
}
inline void ref_put(bytes &out, V v, const Leaf &l, endianess e, signed_mode s) {
  out.resize(out.size() + l.size);
  ref_store(&out[out.size() - l.size], v, l, e, s);
}

inline V ref_get(const byte *p, const Leaf &l, endianess e, signed_mode s) {
  unsigned bits = 8 * l.size;
  V mask = (V(1) << bits) - 1, half = V(1) << (bits - 1), u = 0;
  for (unsigned i = 0; i < l.size; i++) {
    unsigned k = e == LE ? i : l.size - 1 - i;
    u += V(p[i]) << (8 * k);
  }
  if (l.boolean)
    return u != 0;
  if (!l.sgn)
    return u;
  bool top = u >= half;
  switch (s) {
  case SM:
    return top ? -(u - half) : u;
  case OC:
    return top ? -(mask - u) : u;
  case TC:
    return top ? u - (mask + 1) : u;
  case OB:
    return u - half;
  }
  return 0;
}

inline bytes ref_encode(const Leaves &ls, const Vals &vs, endianess e, signed_mode s) {
  bytes out;
  std::size_t k = 0;
  for (const Leaf &l : ls)
    ref_put(out, l.pad ? V(0) : vs.at(k++), l, e, s);
  return out;
}
inline Vals ref_decode(const Leaves &ls, const byte *p, endianess e, signed_mode s) {
  Vals out;
  for (const Leaf &l : ls) {
    if (!l.pad)
      out.push_back(ref_get(p, l, e, s));
    p += l.size;
  }
  return out;
}
inline std::size_t wire_size(const Leaves &ls) {
  std::size_t n = 0;
  for (const Leaf &l : ls)
    n += l.size;
  return n;
}
inline std::size_t nvals(const Leaves &ls) {
  std::size_t n = 0;
  for (const Leaf &l : ls)
    n += !l.pad;
  return n;
}
inline Leaves value_leaves(const Leaves &ls) {
  Leaves r;
  for (const Leaf &l : ls)
    if (!l.pad)
      r.push_back(l);
  return r;
}

// ------------------------------------------------------------------------------------------------- user-defined types

struct O { // 5 bytes on the wire, sizeof 6
  u8 a;
  u16 b;
  i16 c;
};
struct P { // 5 bytes on the wire, sizeof 8
  u32 x;
  u8 y;
};
struct W { // 3 bytes on the wire, sizeof 1
  u8 v;
};
struct N { // nested: 8 bytes on the wire
  O o;
  i8 k;
  W w;
};
struct D { // with an array: 5 bytes on the wire, sizeof 5
  std::array<u8, 3> d;
  bool f;
  i8 g;
};

} // namespace rig

template<>
struct upd_extension<rig::O> {
  template<typename View>
  static void serialize(const rig::O &o, View &view) {
    view.template set<0>(o.a);
    view.template set<1>(o.b);
    view.template set<2>(o.c);
  }
  static rig::O unserialize(rig::u8 a, rig::u16 b, rig::i16 c) { return rig::O{a, b, c}; }
};
template<>
struct upd_extension<rig::P> {
  template<typename View>
  static void serialize(const rig::P &p, View &view) {
    view = upd::make_tuple(upd::big_endian, upd::ones_complement, p.x, p.y);
  }
  static rig::P unserialize(rig::u32 x, rig::u8 y) { return rig::P{x, y}; }
};
template<>
struct upd_extension<rig::W> {
  template<typename View>
  static void serialize(const rig::W &w, View &view) {
    upd::set<0>(view, w.v);
    upd::set<1>(view, rig::u16(0));
  }
  static rig::W unserialize(rig::u8 v, rig::u16) { return rig::W{v}; }
};
template<>
struct upd_extension<rig::N> {
  template<typename View>
  static void serialize(const rig::N &n, View &view) {
    view.template set<0>(n.o);
    view.template set<1>(n.k);
    view.template set<2>(n.w);
  }
  static rig::N unserialize(rig::O o, rig::i8 k, rig::W w) { return rig::N{o, k, w}; }
};
template<>
struct upd_extension<rig::D> {
  template<typename View>
  static void serialize(const rig::D &d, View &view) {
    view.template set<0>(d.d);
    view.template set<1>(d.f);
    view.template set<2>(d.g);
  }
  static rig::D unserialize(std::array<rig::u8, 3> d, bool f, rig::i8 g) { return rig::D{d, f, g}; }
};

namespace rig {

// ------------------------------------------------------------------------------------------------------- type traits

template<typename T>
struct TT {
  static_assert(std::is_integral<T>::value, "");
  static void leaves(Leaves &l) {
    l.push_back(Leaf{unsigned(sizeof(T)), std::is_signed<T>::value, std::is_same<T, bool>::value, false});
  }
  static void fill(T &x, const V *&p) { x = T(*p++); }
  static void flat(const T &x, Vals &v) { v.push_back(V(x)); }
  static std::string name() {
    return std::is_same<T, bool>::value ? "bool"
                                        : (std::is_signed<T>::value ? "i" : "u") + std::to_string(8 * sizeof(T));
  }
};
template<typename T, std::size_t K>
struct TT<T[K]> {
  static void leaves(Leaves &l) {
    for (std::size_t i = 0; i < K; i++)
      TT<T>::leaves(l);
  }
  static void fill(T (&x)[K], const V *&p) {
    for (auto &e : x)
      TT<T>::fill(e, p);
  }
  static void flat(const T (&x)[K], Vals &v) {
    for (auto &e : x)
      TT<T>::flat(e, v);
  }
  static void flat(const std::array<T, K> &x, Vals &v) {
    for (auto &e : x)
      TT<T>::flat(e, v);
  }
  static std::string name() { return TT<T>::name() + "[" + std::to_string(K) + "]"; }
};
template<typename T, std::size_t K>
struct TT<std::array<T, K>> {
  static void leaves(Leaves &l) { TT<T[K]>::leaves(l); }
  static void fill(std::array<T, K> &x, const V *&p) {
    for (auto &e : x)
      TT<T>::fill(e, p);
  }
  static void flat(const std::array<T, K> &x, Vals &v) {
    for (auto &e : x)
      TT<T>::flat(e, v);
  }
  static std::string name() { return "array<" + TT<T>::name() + "," + std::to_string(K) + ">"; }
};
template<>
struct TT<O> {
  static void leaves(Leaves &l) {
    TT<u8>::leaves(l);
    TT<u16>::leaves(l);
    TT<i16>::leaves(l);
  }
  static void fill(O &x, const V *&p) {
    TT<u8>::fill(x.a, p);
    TT<u16>::fill(x.b, p);
    TT<i16>::fill(x.c, p);
  }
  static void flat(const O &x, Vals &v) {
    v.push_back(x.a);
    v.push_back(x.b);
    v.push_back(x.c);
  }
  static std::string name() { return "O"; }
};
template<>
struct TT<P> {
  static void leaves(Leaves &l) {
    TT<u32>::leaves(l);
    TT<u8>::leaves(l);
  }
  static void fill(P &x, const V *&p) {
    TT<u32>::fill(x.x, p);
    TT<u8>::fill(x.y, p);
  }
  static void flat(const P &x, Vals &v) {
    v.push_back(x.x);
    v.push_back(x.y);
  }
  static std::string name() { return "P"; }
};
template<>
struct TT<W> {
  static void leaves(Leaves &l) {
    TT<u8>::leaves(l);
    l.push_back(Leaf{2, false, false, true});
  }
  static void fill(W &x, const V *&p) { TT<u8>::fill(x.v, p); }
  static void flat(const W &x, Vals &v) { v.push_back(x.v); }
  static std::string name() { return "W"; }
};
template<>
struct TT<N> {
  static void leaves(Leaves &l) {
    TT<O>::leaves(l);
    TT<i8>::leaves(l);
    TT<W>::leaves(l);
  }
  static void fill(N &x, const V *&p) {
    TT<O>::fill(x.o, p);
    TT<i8>::fill(x.k, p);
    TT<W>::fill(x.w, p);
  }
  static void flat(const N &x, Vals &v) {
    TT<O>::flat(x.o, v);
    v.push_back(x.k);
    TT<W>::flat(x.w, v);
  }
  static std::string name() { return "N"; }
};
template<>
struct TT<D> {
  static void leaves(Leaves &l) {
    TT<u8[3]>::leaves(l);
    TT<bool>::leaves(l);
    TT<i8>::leaves(l);
  }
  static void fill(D &x, const V *&p) {
    TT<std::array<u8, 3>>::fill(x.d, p);
    TT<bool>::fill(x.f, p);
    TT<i8>::fill(x.g, p);
  }
  static void flat(const D &x, Vals &v) {
    TT<std::array<u8, 3>>::flat(x.d, v);
    v.push_back(x.f);
    v.push_back(x.g);
  }
  static std::string name() { return "D"; }
};

template<typename T>
using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

template<typename T>
struct ret_leaves {
  static Leaves get() {
    Leaves l;
    TT<bare<T>>::leaves(l);
    return l;
  }
  static std::string name() { return TT<bare<T>>::name(); }
};
template<>
struct ret_leaves<void> {
  static Leaves get() { return {}; }
  static std::string name() { return "void"; }
};

template<typename T>
Leaves leaves_of() {
  Leaves l;
  TT<bare<T>>::leaves(l);
  return l;
}

template<typename T>
struct Box { // holds any T, including arrays
  T v;
  explicit Box(const Vals &vals) : v() {
    const V *p = vals.data();
    TT<T>::fill(v, p);
  }
  Box(const V *&p) : v() { TT<T>::fill(v, p); }
};

// Own index sequence (C++11)
template<std::size_t... Is>
struct seq {};
template<std::size_t I, std::size_t... Is>
struct mkseq : mkseq<I - 1, I - 1, Is...> {};
template<std::size_t... Is>
struct mkseq<0, Is...> {
  using type = seq<Is...>;
};
template<std::size_t I>
using mkseq_t = typename mkseq<I>::type;

template<typename... Ts>
struct types {
  static constexpr std::size_t size = sizeof...(Ts);
};
template<std::size_t I, typename L>
struct nth;
template<std::size_t I, typename T, typename... Ts>
struct nth<I, types<T, Ts...>> : nth<I - 1, types<Ts...>> {};
template<typename T, typename... Ts>
struct nth<0, types<T, Ts...>> {
  using type = T;
};

// ------------------------------------------------------------------------------------------------- signatures and log

struct Sig {
  Leaves in, out;
  std::vector<Leaves> params;
  bool is_void;
  std::size_t in_size, out_size;
  std::string name;
};

template<typename F>
struct SigOf;
template<typename R, typename... A>
struct SigOf<R(A...)> {
  static Sig get() {
    Sig s;
    s.out = ret_leaves<R>::get();
    s.is_void = std::is_void<R>::value;
    s.params = std::vector<Leaves>{leaves_of<A>()...};
    for (auto &p : s.params)
      s.in.insert(s.in.end(), p.begin(), p.end());
    s.in_size = wire_size(s.in);
    s.out_size = wire_size(s.out);
    s.name = ret_leaves<R>::name() + "(";
    std::vector<std::string> names{TT<bare<A>>::name()...};
    for (std::size_t i = 0; i < names.size(); i++)
      s.name += (i ? "," : "") + names[i];
    s.name += ")";
    return s;
  }
};

struct Ev { // a call of a callback
  int id;
  Vals args;
  bool operator==(const Ev &o) const { return id == o.id && args == o.args; }
  bool operator!=(const Ev &o) const { return !(*this == o); }
};
inline std::string evstr(const Ev &e) { return "#" + std::to_string(e.id) + vstr(e.args); }
inline std::string evstr(const std::vector<Ev> &l) {
  std::string s = "[";
  for (auto &e : l)
    s += evstr(e) + " ";
  return s + "]";
}

struct Boom { // thrown by failing callbacks, sources and sinks
  int tag;
};

struct World {
  std::vector<Ev> log;
  bool forced = false; // the next calls return `ret` instead of the default function of their arguments
  Vals ret;
  bool (*fail_hook)(int) = nullptr; // callbacks throw Boom when it returns true
};
inline World &world() {
  static World w;
  return w;
}

// Deterministic return value of callback `id` for arguments `args`; always within the range of every representation
inline Vals default_ret(int id, const Vals &args, const Leaves &out) {
  u64 h = 0x1234567ull + u64(id) * 0x9e3779b97f4a7c15ull;
  for (V a : args)
    h = mc::mix(h, u64(a) ^ u64(a >> 64));
  Vals r;
  for (const Leaf &l : out) {
    if (l.pad)
      continue;
    h = mc::mix(h, r.size() + 1);
    V m = leaf_max(l), v = V(h) * 3 + 1;
    r.push_back(l.sgn ? v % (2 * m + 1) - m : v % (m + 1));
  }
  return r;
}

inline Vals on_call(int id, const Vals &args, const Leaves &out) {
  World &w = world();
  w.log.push_back(Ev{id, args});
  if (w.fail_hook && w.fail_hook(id))
    throw Boom{id};
  return w.forced ? w.ret : default_ret(id, args, out);
}

template<typename R>
struct Ret {
  static R get(int id, const Vals &args) {
    static const Leaves out = ret_leaves<R>::get();
    Box<bare<R>> b(on_call(id, args, out));
    return b.v;
  }
};
template<>
struct Ret<void> {
  static void get(int id, const Vals &args) { on_call(id, args, Leaves{}); }
};

template<typename... A>
Vals flatten(const A &...a) {
  Vals v;
  using discard = int[];
  (void)discard{0, (TT<A>::flat(a, v), 0)...};
  return v;
}

// The callbacks. Distinct `I` are distinct functions.
template<int I, typename R, typename... A>
R cb(A... a) {
  return Ret<R>::get(I, flatten<bare<A>...>(a...));
}

// A function object with the same behaviour under identity `id`
template<typename F>
struct Fo;
template<typename R, typename... A>
struct Fo<R(A...)> {
  int id;
  R operator()(A... a) const { return Ret<R>::get(id, flatten<bare<A>...>(a...)); }
};

template<int I, typename F>
struct CbH;
template<int I, typename R, typename... A>
struct CbH<I, R(A...)> {
  using ptr = R (*)(A...);
  using H = upd::unevaluated<R (*)(A...), &cb<I, R, A...>>;
  static R call(A... a) { return cb<I, R, A...>(static_cast<A>(a)...); }
};

// A keyring over the signatures Fs, whose callbacks have the identities Base, Base + 1...
template<endianess E, signed_mode S, int Base, typename Is, typename... Fs>
struct ring_impl;
template<endianess E, signed_mode S, int Base, std::size_t... Is, typename... Fs>
struct ring_impl<E, S, Base, seq<Is...>, Fs...> {
  using flist = upd::flist_t<typename CbH<Base + int(Is), Fs>::H...>;
  using keyring = upd::keyring<E, S, typename CbH<Base + int(Is), Fs>::H...>;
  using list = types<Fs...>;
  static constexpr endianess end = E;
  static constexpr signed_mode mode = S;
  static constexpr int base = Base;
  static constexpr std::size_t size = sizeof...(Fs);
  template<std::size_t I>
  using F = typename nth<I, list>::type;
  template<std::size_t I>
  using H = typename CbH<Base + int(I), F<I>>::H;
  template<std::size_t I>
  using Key = typename keyring::template key_t<H<I>>;
  static const std::vector<Sig> &sigs() {
    static const std::vector<Sig> s{SigOf<Fs>::get()...};
    return s;
  }
  static std::string name() {
    std::string s = "{";
    std::size_t n = 0;
    for (auto &x : sigs()) {
      if (n++ == 8) {
        s += MC_STR(";... " << size << " callbacks");
        break;
      }
      s += (n > 1 ? ";" : "") + x.name;
    }
    return s + "}" + fmt_name(E, S);
  }
};
template<endianess E, signed_mode S, typename... Fs>
using Ring = ring_impl<E, S, 0, mkseq_t<sizeof...(Fs)>, Fs...>;
template<endianess E, signed_mode S, int Base, typename... Fs>
using RingB = ring_impl<E, S, Base, mkseq_t<sizeof...(Fs)>, Fs...>;

// Specification of a keyring, as seen by the models
struct Spec {
  std::vector<Sig> sigs;
  endianess e;
  signed_mode s;
  unsigned w; // index width
  int base;

  bytes index_bytes(u64 i) const {
    bytes b;
    ref_put(b, V(i), Leaf{w, false, false, false}, e, s);
    return b;
  }
  bytes request(std::size_t i, const Vals &args) const {
    bytes b = index_bytes(i), p = ref_encode(sigs[i].in, args, e, s);
    b.insert(b.end(), p.begin(), p.end());
    return b;
  }
  std::size_t max_in() const {
    std::size_t m = 0;
    for (auto &x : sigs)
      m = x.in_size > m ? x.in_size : m;
    return m;
  }
  std::size_t max_out() const {
    std::size_t m = 0;
    for (auto &x : sigs)
      m = x.out_size > m ? x.out_size : m;
    return m;
  }
};
inline unsigned index_width(u64 n) { return n < 256 ? 1 : n < 65536 ? 2 : n < (1ull << 32) ? 4 : 8; }
template<typename Rg>
Spec spec_of() {
  return Spec{Rg::sigs(), Rg::end, Rg::mode, index_width(Rg::size), Rg::base};
}

// ---------------------------------------------------------------------------------- reference model of the dispatchers

enum Status { LOADING, DROPPED, RESOLVED };
inline Status to_status(upd::packet_status s) {
  switch (s) {
  case upd::packet_status::LOADING_PACKET:
    return LOADING;
  case upd::packet_status::DROPPED_PACKET:
    return DROPPED;
  case upd::packet_status::RESOLVED_PACKET:
    return RESOLVED;
  }
  mc::fail(MC_STR("status " << int(s) << " is not an enumerator"));
}
inline const char *sname(int s) { return s == LOADING ? "LOADING" : s == DROPPED ? "DROPPED" : s == RESOLVED ? "RESOLVED" : "?"; }

struct Model {
  const Spec *sp;
  bytes ibuf;
  bytes pending;
  std::size_t pos = 0;
  std::vector<int> installed;   // identity of the callback at each index
  std::vector<Ev> log;          // expected calls
  bool fail_next = false;       // the next call throws
  int trail = -2;               // the last packet: its index, or -1 if it was dropped
  explicit Model(const Spec &s) : sp(&s) {
    for (std::size_t i = 0; i < s.sigs.size(); i++)
      installed.push_back(s.base + int(i));
  }
  bool loaded() const { return pos < pending.size(); }
  u64 index() const { return u64(ref_get(ibuf.data(), Leaf{sp->w, false, false, false}, sp->e, sp->s)); }
  Status put(byte b) {
    ibuf.push_back(b);
    if (ibuf.size() < sp->w)
      return LOADING;
    u64 i = index();
    if (i >= sp->sigs.size()) {
      ibuf.clear();
      trail = -1;
      return DROPPED;
    }
    const Sig &sg = sp->sigs[i];
    if (ibuf.size() < sp->w + sg.in_size)
      return LOADING;
    Vals args = ref_decode(sg.in, ibuf.data() + sp->w, sp->e, sp->s);
    ibuf.clear();
    trail = int(i);
    pending.clear();
    pos = 0;
    log.push_back(Ev{installed[i], args});
    if (fail_next) {
      fail_next = false;
      throw Boom{installed[i]};
    }
    pending = ref_encode(sg.out, world().forced ? world().ret : default_ret(installed[i], args, sg.out), sp->e, sp->s);
    return RESOLVED;
  }
  // Whether loading `b` would complete a request
  bool completes(byte b) const {
    Model m = *this;
    m.fail_next = false;
    return m.put(b) == RESOLVED;
  }
  byte get() { return loaded() ? pending[pos++] : byte(0); }
  bytes drain() {
    bytes r(pending.begin() + pos, pending.end());
    pos = pending.size();
    return r;
  }
  bytes rest() const { return bytes(pending.begin() + pos, pending.end()); }
  std::string key() const {
    std::string k(reinterpret_cast<const char *>(ibuf.data()), ibuf.size());
    k += "|";
    bytes r = rest();
    k.append(reinterpret_cast<const char *>(r.data()), r.size());
    k += "|" + std::to_string(pos == 0) + "|";
    for (int i : installed)
      k += std::to_string(i) + ",";
    return k;
  }
};

// ------------------------------------------------------------------------------------------------- sources and sinks

struct Src { // gives the bytes of [p, p + n), and refuses to be read beyond them
  const byte *p;
  std::size_t n, pos;
  explicit Src(const bytes &b) : p(b.data()), n(b.size()), pos(0) {}
  Src(const Src &) = delete;
  Src(Src &&) = default;
  byte operator()() {
    if (pos >= n)
      mc::fail("a byte was read beyond the end of the packet");
    return p[pos++];
  }
};

struct Sink {
  bytes out;
  std::size_t limit;
  explicit Sink(std::size_t limit = 1 << 20) : limit(limit) {}
  Sink(const Sink &) = delete;
  Sink(Sink &&) = default;
  void operator()(byte b) {
    if (out.size() >= limit)
      mc::fail("the output never ends");
    out.push_back(b);
  }
};

// Single pass input iterator over a shared cursor: counts what is really read
struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = byte;
  using difference_type = std::ptrdiff_t;
  using pointer = const byte *;
  using reference = byte;
  struct Post {
    byte b;
    byte operator*() const { return b; }
  };
  Src *s;
  byte operator*() const {
    if (s->pos >= s->n)
      mc::fail("an iterator was dereferenced beyond the end of the packet");
    return s->p[s->pos];
  }
  InIt &operator++() {
    s->pos++;
    return *this;
  }
  Post operator++(int) {
    Post r{**this};
    s->pos++;
    return r;
  }
  bool operator==(const InIt &o) const { return s == o.s; }
  bool operator!=(const InIt &o) const { return s != o.s; }
};

// Output iterator over a shared sink
struct OutIt {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = void;
  using pointer = void;
  using reference = void;
  Sink *s;
  struct Ref {
    Sink *s;
    const Ref &operator=(byte b) const {
      (*s)(b);
      return *this;
    }
  };
  Ref operator*() const { return Ref{s}; }
  OutIt &operator++() { return *this; }
  OutIt &operator++(int) { return *this; }
};

// A heap block of exactly n bytes: any access around it is detected
struct Exact {
  byte *p;
  std::size_t n;
  explicit Exact(std::size_t n, int fill = 0xcd) : p(new byte[n]), n(n) { std::memset(p, fill, n); }
  explicit Exact(const bytes &b) : p(new byte[b.size()]), n(b.size()) { std::copy(b.begin(), b.end(), p); }
  Exact(const Exact &) = delete;
  ~Exact() { delete[] p; }
  bytes get() const { return bytes(p, p + n); }
};

// Reads one packet from `from` (consumed bytes are counted through `src.pos`) in one of the available forms.
// T is anything with `read_from` and `operator<<`.
enum { IN_FORMS = 8 };
inline const char *in_form(int f) {
  static const char *n[] = {"function", "temporary function", "iterator", "pointer", "list iterator",
                            "<< function", "<< iterator", "<< pointer"};
  return n[f];
}
// Pointer and list iterator forms cannot tell how many bytes were consumed: `exact` bytes are offered and assumed to be read
// up to the end; memory error detection watches over the end of the block.
template<typename R, typename T>
struct Reader {
  static R run(T &t, int form, Src &src, std::size_t exact) {
    switch (form) {
    case 0:
      return t.read_from(src);
    case 1:
      return t.read_from([&src]() -> byte { return src(); });
    case 2:
      return t.read_from(InIt{&src});
    case 3: {
      Exact b(bytes(src.p + src.pos, src.p + src.pos + exact));
      src.pos += exact;
      return t.read_from(static_cast<const byte *>(b.p));
    }
    case 4: {
      std::list<byte> l(src.p + src.pos, src.p + src.pos + exact);
      src.pos += exact;
      return t.read_from(l.begin());
    }
    case 5:
      return t << src;
    case 6:
      return t << InIt{&src};
    default: {
      Exact b(bytes(src.p + src.pos, src.p + src.pos + exact));
      src.pos += exact;
      return t << b.p;
    }
    }
  }
};

enum { OUT_FORMS = 8 };
inline const char *out_form(int f) {
  static const char *n[] = {"function", "temporary function", "iterator", "pointer", "back inserter",
                            ">> function", ">> iterator", ">> pointer"};
  return n[f];
}
// Writes everything `t` has to write; `exact` is the number of bytes expected (pointer forms offer exactly as many)
template<typename T>
bytes drain_form(T &t, int form, std::size_t exact) {
  Sink s;
  switch (form) {
  case 0:
    t.write_to(s);
    return s.out;
  case 1:
    t.write_to([&s](byte b) { s(b); });
    return s.out;
  case 2:
    t.write_to(OutIt{&s});
    return s.out;
  case 3: {
    Exact b(exact);
    t.write_to(b.p);
    return b.get();
  }
  case 4: {
    bytes o;
    t.write_to(std::back_inserter(o));
    return o;
  }
  case 5:
    t >> s;
    return s.out;
  case 6:
    t >> OutIt{&s};
    return s.out;
  default: {
    Exact b(exact);
    t >> b.p;
    return b.get();
  }
  }
}

// ------------------------------------------------------------------------------------------------------- value domains

// Boundary values of a leaf, for a representation
inline Vals boundary(const Leaf &l, signed_mode s, int level = 2) {
  Vals r;
  V mx = leaf_max(l), mn = leaf_min(l, s);
  auto add = [&](V v) {
    if (v < mn || v > mx)
      return;
    for (V x : r)
      if (x == v)
        return;
    r.push_back(v);
  };
  add(0);
  add(mx);
  add(mn);
  if (level >= 1) {
    add(1);
    add(-1);
    V pat = 0;
    for (unsigned i = 0; i < l.size; i++) // every byte distinct
      pat = pat * 256 + (0x12 + 0x11 * i);
    add(pat);
    add(-pat);
  }
  if (level >= 2) {
    add(mx - 1);
    add(mn + 1);
    for (unsigned k = 7; k < 8 * l.size; k += 8)
      for (int d = -1; d <= 1; d++) {
        add((V(1) << k) + d);
        add(-(V(1) << k) + d);
        add((V(1) << (k + 1)) + d);
        add(-(V(1) << (k + 1)) + d);
      }
  }
  return r;
}

// All the value lists of `ls` where each leaf takes its values in the boundary domain; the product is cut to the lists that
// deviate from a base list in at most `dev` leaves
inline std::vector<Vals> value_lists(const Leaves &all, signed_mode s, int level, unsigned dev) {
  Leaves ls = value_leaves(all);
  std::vector<Vals> dom;
  for (auto &l : ls)
    dom.push_back(boundary(l, s, level));
  Vals base;
  for (std::size_t i = 0; i < ls.size(); i++) { // all distinct as far as possible
    V m = leaf_max(ls[i]);
    V v = V(0x5a3c7e19ull) * (i + 3) % (m + 1);
    base.push_back(v);
  }
  std::vector<Vals> out;
  struct Rec {
    static void go(std::size_t i, unsigned dev, Vals &cur, const std::vector<Vals> &dom, std::vector<Vals> &out) {
      if (i == cur.size()) {
        out.push_back(cur);
        return;
      }
      go(i + 1, dev, cur, dom, out);
      if (dev == 0)
        return;
      V keep = cur[i];
      for (V v : dom[i])
        if (v != keep) {
          cur[i] = v;
          go(i + 1, dev - 1, cur, dom, out);
        }
      cur[i] = keep;
    }
  };
  Rec::go(0, dev, base, dom, out);
  return out;
}

// ------------------------------------------------------------------------------------------------- objects under test

// Owns an object placed on zeroed memory, so that its representation can be used as a part of a state key
template<typename T>
struct Slot {
  unsigned char *mem;
  T *obj;
  template<typename... A>
  explicit Slot(A &&...a) {
    void *m = nullptr;
    if (posix_memalign(&m, alignof(T) < 16 ? 16 : alignof(T), sizeof(T)) != 0)
      std::abort();
    mem = static_cast<unsigned char *>(m);
    std::memset(mem, 0, sizeof(T));
    obj = ::new (static_cast<void *>(mem)) T(static_cast<A &&>(a)...);
  }
  Slot(const Slot &) = delete;
  ~Slot() {
    obj->~T();
    std::free(mem);
  }
  T &operator*() { return *obj; }
  T *operator->() { return obj; }
};

// Words that differ between two fresh objects are addresses of owned memory and are left out of the keys
template<typename T>
struct RawKey {
  std::vector<bool> skip;
  RawKey() {
    Slot<T> a, b;
    for (std::size_t i = 0; i < sizeof(T); i += 8) {
      std::size_t n = sizeof(T) - i < 8 ? sizeof(T) - i : 8;
      skip.push_back(std::memcmp(a.mem + i, b.mem + i, n) != 0);
    }
  }
  static const RawKey &get() {
    static RawKey k;
    return k;
  }
  std::string operator()(const Slot<T> &s) const {
    std::string r;
    for (std::size_t i = 0, w = 0; i < sizeof(T); i += 8, w++) {
      std::size_t n = sizeof(T) - i < 8 ? sizeof(T) - i : 8;
      if (!skip[w])
        r.append(reinterpret_cast<const char *>(s.mem + i), n);
    }
    return r;
  }
};

template<typename Rg, bool Dbl, upd::action_features AF>
struct Disp {
  using ring = Rg;
  using plain = upd::dispatcher<typename Rg::keyring, AF>;
  using type = typename std::conditional<Dbl, upd::double_buffered_dispatcher<plain>,
                                         upd::single_buffered_dispatcher<plain>>::type;
  static constexpr bool dbl = Dbl;
  static constexpr upd::action_features af = AF;
  static std::string name() {
    return std::string(Dbl ? "double" : "single") + (AF == upd::action_features::ANY ? "/any " : "/weak ") + Rg::name();
  }
};
constexpr upd::action_features ANY = upd::action_features::ANY, WEAK = upd::action_features::WEAK_REFERENCE;

inline void expect_log(const Model &m, const char *what) {
  MC_CHECK(world().log == m.log, what << ": calls " << evstr(world().log) << " instead of " << evstr(m.log));
}

} // namespace rig
