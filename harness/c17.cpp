// C17: both sides number the callbacks identically, on the smallest sufficient index.
#define KEYS_ONLY
#include "keys.hpp"
using namespace rig;

// A keyring over Cs::call, in the order of Cs
template<endianess E, signed_mode S, typename... Cs>
struct Numbered {
  static constexpr std::size_t size = sizeof...(Cs);
  template<typename C>
  using H = upd::unevaluated<decltype(C::call) *, &C::call>;
  using keyring = upd::keyring<E, S, H<Cs>...>;
};

template<typename T>
struct SigC;
template<int I, typename F>
struct SigC<CbH<I, F>> : SigOf<F> {
  static constexpr int id = I;
  using sig = F;
};

struct Packet {
  u64 index, stat;
  std::size_t width;
  bytes sent;

};

// One key, obtained in every way
template<typename N, typename C, typename F = typename SigC<C>::sig>
struct Ways;
template<endianess E, signed_mode S, typename... Cs, typename C, typename R, typename... A>
struct Ways<Numbered<E, S, Cs...>, C, R(A...)> {
  template<typename K>
  static Packet use(const K &k, const Vals &v) {
    return use_(k, v, mkseq_t<sizeof...(A)>{});
  }
  template<typename K, std::size_t... Is>
  static Packet use_(const K &k, const Vals &v, seq<Is...>) {
    const V *p = v.data();
    Boxes<A...> b(p);
    Packet r;
    r.index = u64(k.index);
    r.stat = u64(K::index);
    r.width = sizeof(typename K::index_t);
    auto m = k(box_at<Is>::get(b)...);
    m.write_to(std::back_inserter(r.sent));
    return r;
  }
#if __cplusplus >= 201703L
  enum { count = 8 };
#else
  enum { count = 5 };
#endif
  static Packet run(int way, const Vals &v) {
    using Nb = Numbered<E, S, Cs...>;
    using Kr = typename Nb::keyring;
    using H = typename Nb::template H<C>;
    switch (way) {
    case 0:
      return use(Kr{}.get(H{}), v);
    case 1: {
      constexpr typename Kr::template key_t<H> k{};
      return use(k, v);
    }
    case 2: {
      auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(Cs::call)...), upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
      return use(kr.get(UPD_CTREF(C::call)), v);
    }
    case 3: {
      const auto kr = upd::make_keyring(upd::flist_t<typename Nb::template H<Cs>...>{}, upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
      auto k = kr.get(H{});
      return use(k, v);
    }
    case 4: {
      using K = upd::key<typename Kr::index_t, SigC<C>::id, R(A...), E, S>; // the type documented for the keys
      K k;
      return use(k, v);
    }
#if __cplusplus >= 201703L
    case 5: {
      constexpr upd::keyring kr{upd::flist<Cs::call...>, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}};
      return use(kr.template get<C::call>(), v);
    }
    case 6: {
      return use(Kr{}.template get<C::call>(), v);
    }
    default: {
      upd::keyring kr{upd::make_flist(UPD_CTREF(Cs::call)...), upd::endianess_h<E>{}, upd::signed_mode_h<S>{}};
      return use(kr.get(UPD_CTREF(C::call)), v);
    }
#endif
    }
    mc::fail("harness: way");
  }
};

// Everything able to call the callback number i with a packet
struct CalleeIf {
  virtual ~CalleeIf() {}
  virtual bytes serve(const bytes &packet, std::size_t out) = 0;
};
template<typename D>
struct Plain : CalleeIf {
  D d;
  explicit Plain(D &&x) : d(std::move(x)) {}
  bytes serve(const bytes &p, std::size_t) override {
    Src s(p);
    Sink o;
    d(s, o);
    MC_CHECK(s.pos == p.size(), "the dispatcher reads " << s.pos << " bytes of " << p.size());
    return o.out;
  }
};
template<typename D>
struct Lookup : CalleeIf { // through get_action or operator[]
  D d;
  bool direct;
  explicit Lookup(D &&x, bool direct) : d(std::move(x)), direct(direct) {}
  bytes serve(const bytes &p, std::size_t) override {
    Src s(p);
    Sink o;
    if (direct) {
      auto i = d.get_index(s);
      d[i](s, o);
    } else {
      auto *a = d.get_action(s);
      MC_CHECK(a != nullptr, "no action for " << mc::hex(p));
      (*a)(s, o);
    }
    MC_CHECK(s.pos == p.size(), "the action reads up to " << s.pos << " bytes of " << p.size());
    return o.out;
  }
};
template<typename D>
struct Buffered : CalleeIf {
  D d;
  explicit Buffered(D &&x) : d(std::move(x)) {}
  bytes serve(const bytes &p, std::size_t) override {
    for (std::size_t i = 0; i < p.size(); i++) {
      Status st = to_status(d.put(p[i]));
      MC_CHECK(st == (i + 1 == p.size() ? RESOLVED : LOADING), sname(st) << " after " << i + 1 << " bytes of " << p.size());
    }
    Sink o;
    d.write_to(o);
    return o.out;
  }
};
template<template<typename> class B, typename D>
std::unique_ptr<CalleeIf> callee(D &&d) {
  return std::unique_ptr<CalleeIf>(new B<bare<D>>(std::move(d)));
}
template<typename D>
std::unique_ptr<CalleeIf> lookup(D &&d, bool direct) {
  return std::unique_ptr<CalleeIf>(new Lookup<bare<D>>(std::move(d), direct));
}

template<typename Kr>
std::vector<std::unique_ptr<CalleeIf>> callees(bool all) {
  using PA = upd::dispatcher<Kr, ANY>;
  using PW = upd::dispatcher<Kr, WEAK>;
  std::vector<std::unique_ptr<CalleeIf>> r;
  r.push_back(callee<Plain>(PW{}));
  r.push_back(callee<Buffered>(upd::make_single_buffered_dispatcher(Kr{}, upd::policy::any_callback)));
  if (!all)
    return r;
#ifndef FEW
  r.push_back(callee<Plain>(PA{Kr{}, upd::policy::any_callback}));
  r.push_back(callee<Plain>(upd::make_dispatcher(Kr{}, upd::policy::weak_reference)));
  r.push_back(lookup(upd::make_dispatcher(Kr{}, upd::policy::any_callback), true));
  r.push_back(lookup(PW{Kr{}, upd::policy::weak_reference}, false));
  r.push_back(callee<Buffered>(upd::single_buffered_dispatcher<PW>{}));
  r.push_back(callee<Buffered>(upd::make_double_buffered_dispatcher(Kr{}, upd::policy::weak_reference)));
  r.push_back(callee<Buffered>(upd::double_buffered_dispatcher<PA>{Kr{}, upd::policy::any_callback}));
#endif
  return r;
}

template<typename N, typename Is>
struct Check;
template<endianess E, signed_mode S, typename... Cs, std::size_t... Is>
struct Check<Numbered<E, S, Cs...>, seq<Is...>> {
  using Nb = Numbered<E, S, Cs...>;
  using Kr = typename Nb::keyring;
  template<std::size_t I>
  using C = typename nth<I, types<Cs...>>::type;

  // Only the keys at positions Is are obtained; all the indexes are routed
  static void go(const char *label) {
    static const std::vector<Sig> sigs{SigC<Cs>::get()...};
    static const std::vector<int> ids{SigC<Cs>::id...};
    using Fp = Packet (*)(int, const Vals &);
    static const Fp ways[] = {&Ways<Nb, C<Is>>::run...};
    static const int nways[] = {int(Ways<Nb, C<Is>>::count)...};
    static const std::size_t at[] = {Is...};
    const std::size_t n = sizeof...(Cs), nk = sizeof...(Is);
    static const unsigned w = index_width(n);
    auto ds = callees<Kr>(true);
    const std::string name = MC_STR(n << " callbacks, " << label << " " << fmt_name(E, S));
    mc::explore(name + ": keys", [&](mc::Ch &ch) {
      int k = ch(int(nk), "key"), way = ch(nways[k], "way");
      const std::size_t i = at[k];
      const Sig &sg = sigs[i];
      Vals v;
      for (auto &l : sg.in)
        v.push_back(leaf_max(l) - V(i % 3));
      Vals v2;
      for (std::size_t j = 0; j < v.size(); j++)
        v2.push_back(v[j] < 0 ? 0 : v[j]);
      Packet p = ways[k](way, v2);
      MC_CHECK(p.index == i && p.stat == i, "the key of callback " << i << " has index " << p.index << "/" << p.stat);
      MC_CHECK(p.width == w && sizeof(typename Kr::index_t) == w, "the index takes " << p.width << " bytes instead of " << w);
      MC_CHECK(u64(Kr::size) == n, "the keyring holds " << u64(Kr::size) << " callbacks instead of " << n);
      bytes want;
      ref_put(want, V(i), Leaf{w, false, false, false}, E, S);
      bytes payload = ref_encode(sg.in, v2, E, S);
      want.insert(want.end(), payload.begin(), payload.end());
      MC_CHECK(p.sent == want, "the request to callback " << i << " is " << mc::hex(p.sent) << " instead of " << mc::hex(want));
      for (std::size_t d = 0; d < ds.size(); d++) {
        world() = World{};
        bytes out = ds[d]->serve(p.sent, sg.out_size);
        MC_CHECK(world().log.size() == 1 && world().log[0] == (Ev{ids[i], v2}),
                 "dispatcher " << d << " calls " << evstr(world().log) << " instead of #" << ids[i] << vstr(v2));
        MC_CHECK(out == ref_encode(sg.out, default_ret(ids[i], v2, sg.out), E, S), "response " << mc::hex(out) << " to callback " << i);
      }
      mc::count("keys routed", ds.size());
    });
    mc::explore(name + ": indexes", [&](mc::Ch &ch) {
      int i = ch(int(n), "index");
      const Sig &sg = sigs[i];
      bytes pkt;
      ref_put(pkt, V(i), Leaf{w, false, false, false}, E, S);
      Vals v;
      for (std::size_t j = 0; j < sg.in.size(); j++)
        v.push_back(V(i + int(j)) % 2);
      bytes payload = ref_encode(sg.in, v, E, S);
      pkt.insert(pkt.end(), payload.begin(), payload.end());
      for (std::size_t d = 0; d < ds.size(); d++) {
        world() = World{};
        bytes out = ds[d]->serve(pkt, sg.out_size);
        MC_CHECK(world().log.size() == 1 && world().log[0] == (Ev{ids[i], v}),
                 "index " << i << " calls " << evstr(world().log) << " instead of #" << ids[i] << vstr(v) << " in dispatcher " << d);
      }
      mc::count("indexes routed", ds.size());
    });
  }
};

// Keyrings by size and by family of signatures
template<int Fam, std::size_t I>
struct Pick;
#define FAMILY(N, ...)                                                                                                 \
  template<std::size_t I>                                                                                              \
  struct Pick<N, I> {                                                                                                  \
    using list = types<__VA_ARGS__>;                                                                                   \
    using type = typename nth<I % list::size, list>::type;                                                             \
  };
FAMILY(0, void())
FAMILY(1, u8(u8))
FAMILY(2, void(), u8(), void(u8), u8(u8), u16(), void(u16), bool(bool), i8(i8))
FAMILY(3, u8(u8, u16), u8(u16, u8), u8(u8, u8, u8), u8(i8, u16), u8(u8, i16), u8(const u8 &, u16), i8(u8, u16))

template<endianess E, signed_mode S, int Fam, std::size_t N, typename At = mkseq_t<N>>
struct Make {
  template<typename Is>
  struct mk;
  template<std::size_t... Is>
  struct mk<seq<Is...>> {
    using type = Numbered<E, S, CbH<int(Is), typename Pick<Fam, Is>::type>...>;
  };
  using type = typename mk<mkseq_t<N>>::type;
  static void go() {
    static const char *n[] = {"identical procedures", "identical functions", "alike signatures", "permuted signatures"};
    Check<type, At>::go(n[Fam]);
  }
};
// Several positions of N: the first ones, the last ones, around powers of two, and every 16th
template<std::size_t N>
using Ends = seq<0, 1, 2, 15, 16, 31, 32, 63, 64, N / 2, 125, N - 3, N - 2, N - 1>;

template<std::size_t Lo, std::size_t Hi>
struct Sizes {
  static void go() {
    Make<(Lo % 2 ? LE : BE), (Lo % 4 == 0 ? TC : Lo % 4 == 1 ? OB : Lo % 4 == 2 ? SM : OC), int(Lo % 4), Lo>::go();
    Make<LE, TC, int((Lo + 2) % 4), Lo>::go();
    Sizes<Lo + 1, Hi>::go();
  }
};
template<std::size_t Hi>
struct Sizes<Hi, Hi> {
  static void go() {}
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  Sizes<1, 13>::go();
#elif PART == 1
  Sizes<13, 19>::go();
#elif PART == 2
  Sizes<19, 24>::go();
#elif PART == 3
  Make<LE, TC, 2, 255, Ends<255>>::go();
  Make<BE, SM, 0, 256, Ends<256>>::go();
#elif PART == 4
  Make<LE, TC, 3, 257, Ends<257>>::go();
  Make<BE, OB, 1, 254, Ends<254>>::go();
#elif PART == 5
  Make<BE, TC, 1, 300, Ends<300>>::go();
  Make<LE, SM, 2, 130, Ends<130>>::go();
#elif PART == 6
  Sizes<24, 28>::go();
#elif PART == 7
  Sizes<28, 32>::go();
#elif PART == 8
  Sizes<32, 35>::go();
#elif PART == 9
  Sizes<35, 38>::go();
#elif PART == 10
  Sizes<38, 41>::go();
#elif PART == 11
  Make<LE, TC, 2, 127>::go();
  Make<BE, TC, 1, 128>::go();
#elif PART == 12
  Make<LE, OB, 3, 129>::go();
  Make<BE, OC, 2, 126, Ends<126>>::go();
#elif PART == 13
  Make<LE, TC, 2, 256>::go();
#elif PART == 14
  Make<BE, SM, 1, 255>::go();
#elif PART == 15
  Make<BE, SM, 2, 520, Ends<520>>::go();
#elif PART == 16
  Make<LE, TC, 0, 257>::go();
#elif PART == 17
  Make<LE, TC, 1, 300>::go();
#endif
  return mc::finish();
}
