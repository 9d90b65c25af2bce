// Operations on real objects which use nothing but memory of their own: no allocation, no shared log. C++11.
#pragma once

#include "mc.hpp"

#include <array>
#include <cstdint>
#include <iterator>
#include <new>
#include <type_traits>
#include <utility>

#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
#include <upd/tuple.hpp>
#include <upd/unevaluated.hpp>

namespace lite {

using byte = upd::byte_t;
using u8 = std::uint8_t;
using i8 = std::int8_t;
using u16 = std::uint16_t;
using i16 = std::int16_t;
using u32 = std::uint32_t;
using i32 = std::int32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using upd::endianess;
using upd::signed_mode;

// What an operation has produced
struct Trace {
  u32 n;
  u64 h;
  void add(u64 v) {
    n++;
    h = (h ^ v) * 1099511628211ull;
    h ^= h >> 31;
  }
  bool operator==(const Trace &o) const { return n == o.n && h == o.h; }
};
// The trace of the operation under way, where the callbacks write
extern Trace *current;
inline void note(u64 v) { current->add(v); }

struct Pt { // 3 bytes on the wire
  i16 x;
  u8 y;
};

// Values that depend on the operation, all of them in the domain of the four representations
struct Rnd {
  u64 s;
  u64 next() {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return s >> 24;
  }
  template<typename T>
  T get() {
    T v = T(next());
    return std::is_signed<T>::value && v == T(u64(1) << (8 * sizeof(T) - 1)) ? T(v + 1) : v;
  }
  bool flag() { return next() & 1; }
};

// -- callbacks

inline i16 cb_mul(u8 a, i16 b) {
  note(a);
  note(u64(b));
  return i16(a ^ (b / 2));
}
inline void cb_void() { note(7); }
inline u32 cb_pt(Pt p, bool f) {
  note(u64(p.x));
  note(p.y);
  note(f);
  return u32(p.x) * 3u + p.y;
}
inline Pt cb_ret(i32 v) {
  note(u64(v));
  return Pt{i16((v >> 3) & 0x3fff), u8(v)};
}
inline i64 cb_arr(const u16 (&a)[3]) {
  i64 r = 0;
  for (u16 v : a) {
    note(v);
    r = r * 251 + v;
  }
  return r;
}
inline std::array<u8, 5> cb_reta(u8 v) {
  note(v);
  return std::array<u8, 5>{{v, u8(v + 1), u8(v ^ 0x55), 4, u8(v * 3)}};
}
inline i16 cb_mul2(u8 a, i16 b) {
  note(1000 + a);
  note(u64(b));
  return i16(a + (b / 4));
}
inline void cb_void2() { note(8); }

} // namespace lite

template<>
struct upd_extension<lite::Pt> {
  template<typename View>
  static void serialize(const lite::Pt &p, View &view) {
    view.template set<0>(p.x);
    view.template set<1>(p.y);
  }
  static lite::Pt unserialize(lite::i16 x, lite::u8 y) { return lite::Pt{x, y}; }
};

namespace lite {

template<typename F, F Ftor>
using H = upd::unevaluated<F, Ftor>;
#define LITE_H(CB) ::lite::H<decltype(&::lite::CB), &::lite::CB>

template<endianess E, signed_mode S>
using ring_t = upd::keyring<E, S, LITE_H(cb_mul), LITE_H(cb_void), LITE_H(cb_pt), LITE_H(cb_ret), LITE_H(cb_arr), LITE_H(cb_reta)>;

constexpr auto WEAK = upd::action_features::WEAK_REFERENCE;
constexpr auto ANY = upd::action_features::ANY;

struct Bytes { // a small buffer, used as a source and as a destination
  byte b[64];
  unsigned w = 0, r = 0;
  void operator()(byte v) { b[w++ & 63] = v; }
  byte operator()() { return b[r++ & 63]; }
  void log() const {
    note(w);
    for (unsigned i = 0; i < w; i++)
      note(b[i & 63]);
  }
};
struct Put {
  Bytes *o;
  void operator()(byte v) const { (*o)(v); }
};
struct Get {
  Bytes *o;
  byte operator()() const { return (*o)(); }
};

// Sends the request of a key, whatever its arguments
template<endianess E, signed_mode S>
struct Client {
  using R = ring_t<E, S>;
  static constexpr unsigned N = 6;

#define LITE_KEY(CB) key_of<LITE_H(CB)>
  template<typename K>
  using key_of = typename R::template key_t<K>;

  static void request(unsigned i, Rnd &r, Bytes &o) {
    Put p{&o};
    switch (i) {
    case 0: {
      u8 a = r.get<u8>();
      i16 b = r.get<i16>();
      LITE_KEY(cb_mul){}(a, b).write_to(p);
      break;
    }
    case 1:
      LITE_KEY(cb_void){}().write_to(p);
      break;
    case 2: {
      Pt v{r.get<i16>(), r.get<u8>()};
      bool f = r.flag();
      LITE_KEY(cb_pt){}(v, f).write_to(p);
      break;
    }
    case 3: {
      i32 v = r.get<i32>();
      LITE_KEY(cb_ret){}(v).write_to(p);
      break;
    }
    case 4: {
      u16 v[3] = {r.get<u16>(), r.get<u16>(), r.get<u16>()};
      LITE_KEY(cb_arr){}(v).write_to(p);
      break;
    }
    default: {
      u8 v = r.get<u8>();
      byte tmp[8];
      LITE_KEY(cb_reta){}(v).write_to(tmp + 1);
      for (unsigned k = 0; k < LITE_KEY(cb_reta)::payload_length; k++)
        o(tmp[1 + k]);
    }
    }
  }
  static void response(unsigned i, Bytes &o) {
    Get s{&o};
    switch (i) {
    case 0:
      note(u64(LITE_KEY(cb_mul){}.read_from(s)));
      break;
    case 1:
      LITE_KEY(cb_void){}.read_from(s);
      break;
    case 2:
      note(LITE_KEY(cb_pt){}.read_from(s));
      break;
    case 3: {
      Pt p = LITE_KEY(cb_ret){}.read_from(s);
      note(u64(p.x));
      note(p.y);
      break;
    }
    case 4:
      note(u64(LITE_KEY(cb_arr){}.read_from(s)));
      break;
    default: {
      const byte *it = o.b + (o.r & 63);
      auto a = LITE_KEY(cb_reta){}.read_from(it);
      for (u8 v : a)
        note(v);
    }
    }
  }
};


// ---------------------------------------------------------------------------------------------------- the operations
// Each is a type constructed from a seed, whose run() works on what the object holds and writes its results with note().

template<endianess E, signed_mode S>
struct Tuples {
  static const char *name() { return "tuple"; }
  Rnd r;
  upd::tuple<E, S, i16, bool, u32, i64, std::array<i16, 3>> t;
  explicit Tuples(u64 seed) : r{seed} {}
  struct Log {
    i32 operator()(i16 a, bool b, u32 c, i64 d, const std::array<i16, 3> &e) const {
      note(u64(a));
      note(b);
      note(c);
      note(u64(d));
      for (i16 v : e)
        note(u64(v));
      return a;
    }
  };
  void log() {
    for (byte b : t)
      note(b);
    note(u64(t.template get<0>()));
    note(upd::get<1>(t));
    note(t.template get<2>());
    note(u64(t.template get<3>()));
    auto a = t.template get<4>();
    for (i16 v : a)
      note(u64(v));
  }
  void run() {
    t.template set<0>(r.get<i16>());
    upd::set<3>(t, r.get<i64>());
    t.template set<4>(std::array<i16, 3>{{r.get<i16>(), r.get<i16>(), r.get<i16>()}});
    log();
    t.template set<1>(r.flag());
    t.template set<2>(r.get<u32>());
    t[1] = r.get<u8>();
    log();
    note(u64(t.invoke(Log{})));
    const auto copy = t;
    upd::tuple<E, S, i16, bool, u32, i64, std::array<i16, 3>> u{i16(5), true, u32(9), i64(-7), copy.template get<4>()};
    t = std::move(u);
    log();
    note(copy.template get<2>());
  }
};

struct It { // a random access iterator which is not a pointer
  using iterator_category = std::random_access_iterator_tag;
  using value_type = byte;
  using difference_type = std::ptrdiff_t;
  using pointer = byte *;
  using reference = byte &;
  byte *p;
  byte &operator*() const { return *p; }
  It &operator++() { return ++p, *this; }
  It operator++(int) { return It{p++}; }
  It &operator--() { return --p, *this; }
  It operator--(int) { return It{p--}; }
  It &operator+=(std::ptrdiff_t n) { return p += n, *this; }
  It &operator-=(std::ptrdiff_t n) { return p -= n, *this; }
  It operator+(std::ptrdiff_t n) const { return It{p + n}; }
  It operator-(std::ptrdiff_t n) const { return It{p - n}; }
  std::ptrdiff_t operator-(const It &o) const { return p - o.p; }
  byte &operator[](std::ptrdiff_t n) const { return p[n]; }
  bool operator==(const It &o) const { return p == o.p; }
  bool operator!=(const It &o) const { return p != o.p; }
  bool operator<(const It &o) const { return p < o.p; }
};

template<endianess E, signed_mode S>
struct Views {
  static const char *name() { return "view"; }
  static constexpr endianess E2 = E == endianess::LITTLE ? endianess::BIG : endianess::LITTLE;
  Rnd r;
  byte mem[24];
  explicit Views(u64 seed) : r{seed} {
    for (byte &b : mem)
      b = r.get<u8>();
  }
  void run() {
    auto v = upd::make_view<i16, Pt, u32>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, mem + 1);
    note(u64(v.template get<0>()));
    Pt p = v.template get<1>();
    note(u64(p.x));
    note(p.y);
    v.template set<1>(Pt{r.get<i16>(), r.get<u8>()});
    upd::set<2>(v, r.get<u32>());
    v = upd::make_tuple(upd::endianess_h<E2>{}, upd::offset_binary, r.get<i16>(), Pt{r.get<i16>(), 3}, r.get<u32>());
    for (byte b : v)
      note(b);
    auto t = upd::make_tuple(upd::endianess_h<E2>{}, upd::signed_mode_h<S>{}, r.get<u8>(), r.get<i16>(), r.get<i32>());
    auto w = upd::make_view<1, 2>(t);
    w.template set<0>(r.get<i16>());
    note(u64(w.template get<1>()));
    for (byte b : t)
      note(b);
    auto x = upd::make_view<i32, Pt, std::array<u16, 2>>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, It{mem + 12});
    x.template set<0>(r.get<i32>());
    x.template set<1>(Pt{r.get<i16>(), r.get<u8>()});
    x.template set<2>(std::array<u16, 2>{{r.get<u16>(), r.get<u16>()}});
    note(u64(x.template get<0>()));
    note(x.template get<1>().y);
    note(x.template get<2>()[1]);
    for (byte b : mem)
      note(b);
  }
};

// Requests and responses, as the caller sees them
template<endianess E, signed_mode S, unsigned I>
struct Keys {
  static const char *name() {
    static const char *n[] = {"key 0", "key 1", "key 2", "key 3", "key 4", "key 5"};
    return n[I];
  }
  Rnd r;
  Bytes out, in;
  explicit Keys(u64 seed) : r{seed} {
    for (byte &b : in.b)
      b = byte(r.get<u8>() & 0x7f) | 1;
  }
  void run() {
    Client<E, S>::request(I, r, out);
    out.log();
    Client<E, S>::response(I, in);
    note(in.r);
  }
};

template<typename D>
struct Plain {
  Rnd r;
  D d;
  explicit Plain(u64 seed) : r{seed} {}
  void one(unsigned i) {
    Bytes q, a;
    Client<D::endianess, D::signed_mode>::request(i, r, q);
    if (r.flag())
      note(d(Get{&q}, Put{&a}));
    else {
      const byte *it = q.b;
      byte *ot = a.b;
      note(d(it, ot));
      a.w = unsigned(d[i].output_size());
    }
    a.log();
    Client<D::endianess, D::signed_mode>::response(i, a);
  }
};
template<endianess E, signed_mode S>
struct PlainWeak : Plain<upd::dispatcher<ring_t<E, S>, WEAK>> {
  static const char *name() { return "dispatcher, weak"; }
  using Plain<upd::dispatcher<ring_t<E, S>, WEAK>>::Plain;
  void run() {
    this->one(0);
    this->d.template replace<0>(LITE_H(cb_mul2){});
    this->one(2);
    this->one(0);
    byte bad = 77;
    note(this->d.get_action([&] { return bad; }) == nullptr);
  }
};
template<endianess E, signed_mode S>
struct PlainAny : Plain<upd::dispatcher<ring_t<E, S>, ANY>> {
  static const char *name() { return "dispatcher, any"; }
  explicit PlainAny(u64 seed) : Plain<upd::dispatcher<ring_t<E, S>, ANY>>(seed) {
    Trace *c = ::lite::current;
    u64 k = seed;
    this->d.template replace<3>([k](i32 v) {
      note(k);
      note(u64(v));
      return Pt{i16((v ^ i32(k)) & 0x3fff), 9};
    });
    ::lite::current = c;
  }
  void run() {
    this->one(3);
    this->one(4);
    this->one(1);
    auto moved = std::move(this->d);
    this->d = std::move(moved);
    this->one(5);
  }
};

// A whole session on a buffered dispatcher, with bytes of an incomplete packet left in the buffers
template<typename B, endianess E, signed_mode S>
struct Buffered {
  Rnd r;
  B d;
  explicit Buffered(u64 seed) : r{seed} {}
  void pull(Bytes &a) {
    while (d.is_loaded())
      a(d.get());
    note(d.get());
  }
  void bytewise(unsigned i) {
    Bytes q, a;
    Client<E, S>::request(i, r, q);
    for (unsigned k = 0; k < q.w; k++)
      note(unsigned(d.put(q.b[k])));
    pull(a);
    a.log();
    Client<E, S>::response(i, a);
  }
  void streamed(unsigned i) {
    Bytes q, a;
    Client<E, S>::request(i, r, q);
    note(unsigned(d.read_from(Get{&q})));
    d.write_to(Put{&a});
    a.log();
  }
  void drop() {
    note(unsigned(d.put(200)));
    note(d.is_loaded());
  }
  void partial(unsigned i) {
    Bytes q;
    Client<E, S>::request(i, r, q);
    for (unsigned k = 0; k + 1 < q.w; k++)
      note(unsigned(d.put(q.b[k])));
    note(d.is_loaded());
  }
};
#define LITE_BUFFERED(NAME, TEXT, KIND, FEATURES, ...)                                                                 \
  template<endianess E, signed_mode S>                                                                                 \
  struct NAME : Buffered<upd::KIND<upd::dispatcher<ring_t<E, S>, FEATURES>>, E, S> {                                   \
    static const char *name() { return TEXT; }                                                                         \
    using Buffered<upd::KIND<upd::dispatcher<ring_t<E, S>, FEATURES>>, E, S>::Buffered;                                \
    void run() { __VA_ARGS__; }                                                                                        \
  }
LITE_BUFFERED(DoubleWeak, "double, weak", double_buffered_dispatcher, WEAK, this->bytewise(3); this->drop(); this->streamed(0);
              this->d.template replace<0>(LITE_H(cb_mul2){}); this->bytewise(0); this->partial(4));
LITE_BUFFERED(SingleWeak, "single, weak", single_buffered_dispatcher, WEAK, this->streamed(2); this->drop(); this->bytewise(5);
              this->partial(2));
LITE_BUFFERED(DoubleAny, "double, any", double_buffered_dispatcher, ANY, this->bytewise(0); this->streamed(4);
              B_moved(this->d); this->bytewise(1); this->partial(0));
template<typename B>
void B_moved(B &b) {
  B other{std::move(b)};
  b = std::move(other);
}
LITE_BUFFERED(SingleAny, "single, any", single_buffered_dispatcher, ANY, this->bytewise(3); this->partial(3));

// Replies
template<endianess E, signed_mode S>
struct Reply {
  static const char *name() { return "reply"; }
  static u8 cb_sink(const std::array<byte, 4> &a) { return a[0]; }
  using back = upd::keyring<E, S, H<u8 (*)(const std::array<byte, 4> &), &Reply::cb_sink>>;
  Rnd r;
  upd::double_buffered_dispatcher<upd::dispatcher<ring_t<E, S>, WEAK>> d;
  explicit Reply(u64 seed) : r{seed} {}
  void run() {
    typename back::template key_t<H<u8 (*)(const std::array<byte, 4> &), &Reply::cb_sink>> k;
    for (unsigned i : {0u, 2u, 3u}) {
      Bytes q, a;
      Client<E, S>::request(i, r, q);
      note(unsigned(d.read_from(Get{&q})));
      note(d.reply(Put{&a}, k));
      a.log();
    }
  }
};

// Hooks and free-standing actions
template<endianess E, signed_mode S>
struct Hooks {
  static const char *name() { return "hook"; }
  Rnd r;
  upd::action act;
  static void got(i16 v) { note(u64(v) + 5); }
  explicit Hooks(u64 seed) : r{seed} {
    u64 k = seed;
    typename ring_t<E, S>::template key_t<LITE_H(cb_mul)> key;
    act = key.with_hook([k](i16 v) {
      note(k);
      note(u64(v));
    });
  }
  void run() {
    Bytes in;
    for (byte &b : in.b)
      b = byte(r.get<u8>() & 0x7f) | 2;
    act(Get{&in}, Put{&in});
    typename ring_t<E, S>::template key_t<LITE_H(cb_mul)> key;
    auto weak = key.with_hook(H<void (*)(i16), &Hooks::got>{});
    weak(Get{&in}, Put{&in});
    upd::action other{std::move(act)};
    other(Get{&in});
    act = std::move(other);
    const byte *it = in.b;
    act(it, Put{&in});
    note(act.input_size());
    note(weak.input_size());
    note(weak.output_size());
  }
};

// Constant objects used by several at once
template<endianess E, signed_mode S>
struct Shared {
  static const char *name() { return "shared constants"; }
  struct Consts {
    upd::tuple<E, S, i16, u32, std::array<u8, 4>, Pt> t{i16(-1234), u32(567890), std::array<u8, 4>{{1, 2, 3, 250}}, Pt{-9, 8}};
    ring_t<E, S> ring{};
    typename ring_t<E, S>::template key_t<LITE_H(cb_mul)> key{};
    upd::action any{&cb_mul, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}};
    upd::no_storage_action weak{LITE_H(cb_pt){}, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}};
    upd::dispatcher<ring_t<E, S>, WEAK> d;
  };
  static const Consts &consts() {
    static const Consts c;
    return c;
  }
  Rnd r;
  explicit Shared(u64 seed) : r{seed} { consts(); }
  struct Sum {
    i32 operator()(i16 a, u32 b, const std::array<u8, 4> &c, Pt p) const { return i32(a + b + c[3] + c[0]) * p.x + p.y; }
  };
  void run() {
    const Consts &c = consts();
    unsigned from = r.get<u8>() & 3;
    for (unsigned n = 0; n < 4; n++)
      switch ((n + from) & 3) {
      case 0:
        note(u64(c.t.template get<0>()));
        note(u64(c.t.invoke(Sum{})));
        note(c.t.template view<1, 2>().template get<0>());
        break;
      case 1: {
        Bytes q, a;
        c.key(r.get<u8>(), r.get<i16>()).write_to(Put{&q});
        q.log();
        q.r = 1;
        c.any(Get{&q}, Put{&a});
        a.log();
        note(u64(c.key.read_from(Get{&a})));
        break;
      }
      case 2: {
        Bytes q, a;
        Client<E, S>::request(2, r, q);
        q.r = 1;
        c.weak(Get{&q}, Put{&a});
        a.log();
        break;
      }
      default: {
        Bytes q, a;
        Client<E, S>::request(3, r, q);
        auto i = c.d.get_index(Get{&q});
        note(i);
        const upd::no_storage_action &act = c.d[i];
        act(Get{&q}, Put{&a});
        a.log();
      }
      }
  }
};

template<endianess E, signed_mode S, typename G>
void all_operations(G &g) {
  g.template add<Tuples<E, S>>();
  g.template add<Views<E, S>>();
  g.template add<Keys<E, S, 0>>();
  g.template add<Keys<E, S, 2>>();
  g.template add<Keys<E, S, 3>>();
  g.template add<Keys<E, S, 4>>();
  g.template add<Keys<E, S, 5>>();
  g.template add<PlainWeak<E, S>>();
  g.template add<PlainAny<E, S>>();
  g.template add<DoubleWeak<E, S>>();
  g.template add<SingleWeak<E, S>>();
  g.template add<DoubleAny<E, S>>();
  g.template add<SingleAny<E, S>>();
  g.template add<Reply<E, S>>();
  g.template add<Hooks<E, S>>();
  g.template add<Shared<E, S>>();
}

} // namespace lite
