// C19: behaviour and wire format are identical in every build configuration.
// Nothing is compared with an oracle here: every scenario leaves a digest of its complete transcript, and the digests of all the
// configurations are compared with one another by check.py. The interfaces that C++17 adds are used where they exist.
#include "disp.hpp"
#include "keys.hpp"
#include "tup.hpp"
using namespace rig;

#define SEVENTEEN (__cplusplus >= 201703L)

static mc::u64 hv(mc::u64 h, V v) { return mc::mix(mc::mix(h, mc::u64(v)), mc::u64(v >> 64)); }
static mc::u64 hvs(mc::u64 h, const Vals &v) {
  h = mc::mix(h, v.size());
  for (V x : v)
    h = hv(h, x);
  return h;
}
template<typename B>
static mc::u64 hb(mc::u64 h, const B &b) {
  for (byte x : b)
    h = mc::mix(h, x);
  return mc::mix(h, 0x100);
}

// ------------------------------------------------------------------------------------------------------------ integers

template<typename T, endianess E, signed_mode S>
mc::u64 integer(mc::u64 h, const byte *p) { // both the encoding of a value and the decoding of the pattern
  static const Leaf l = leaves_of<T>()[0];
  V v = ref_get(p, l, LE, TC);
  if (v >= leaf_min(l, S) && v <= leaf_max(l)) {
#if SEVENTEEN
    const upd::tuple t{upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, u8(1), T(v), T(v)};
#else
    const auto t = upd::make_tuple(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, u8(1), T(v), T(v));
#endif
    h = hb(h, t);
    h = hv(h, V(upd::get<2>(t)));
  }
  upd::tuple<E, S, u8, T> t;
  for (std::size_t i = 0; i < sizeof(T); i++)
    t[1 + i] = p[i];
  const T a = t.template get<1>();
  h = hv(h, V(a));
  byte raw[2 * sizeof(T)];
  std::memcpy(raw, p, sizeof(T));
  std::memcpy(raw + sizeof(T), p, sizeof(T));
  const byte *rp = raw;
  auto arr = upd::make_view<T[2]>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, rp).template get<0>();
  return hv(hv(h, V(arr[0])), V(arr[1]));
}
template<typename T>
mc::u64 integers(mc::u64 h, const byte *p) {
  h = integer<T, LE, SM>(h, p);
  h = integer<T, LE, OC>(h, p);
  h = integer<T, LE, TC>(h, p);
  h = integer<T, LE, OB>(h, p);
  h = integer<T, BE, SM>(h, p);
  h = integer<T, BE, OC>(h, p);
  h = integer<T, BE, TC>(h, p);
  return integer<T, BE, OB>(h, p);
}
template<typename T>
void sweep_integers(const std::string &name) {
  auto pat = [](byte *p, mc::u64 v) {
    for (int i = 0; i < 8; i++)
      p[i] = byte(v >> (8 * i));
  };
  const int n = int(sizeof(T));
  if (n <= 2) {
    for (int blk = 0; blk < (n == 1 ? 1 : 16); blk++) {
      const std::string nm = MC_STR(name << " patterns, block " << blk);
      mc::u64 h = 0, len = n == 1 ? 256 : 4096;
      mc::sweep(nm, blk * len, (blk + 1) * len, [&](mc::u64 i) {
        byte p[8];
        pat(p, i);
        h = integers<T>(h, p);
      });
      mc::digest(nm, h);
    }
    return;
  }
  {
    const std::string nm = name + " +-2^k+d";
    mc::u64 h = 0;
    mc::sweep(nm, 0, mc::u64(8 * n) * 2 * 9, [&](mc::u64 i) {
      byte p[8];
      pat(p, ((i / 9) & 1 ? 0 - (1ull << (i / 18)) : 1ull << (i / 18)) + i % 9 - 4);
      h = integers<T>(h, p);
    });
    mc::digest(nm, h);
  }
  for (int pos = 0; pos < n; pos++) {
    const std::string nm = MC_STR(name << " every byte at " << pos);
    mc::u64 h = 0;
    mc::sweep(nm, 0, 256 * 6, [&](mc::u64 i) {
      static const byte bg[6] = {0x00, 0xff, 0x5a, 0x80, 0x7f, 0x01};
      byte p[8];
      for (int k = 0; k < 8; k++)
        p[k] = bg[i % 6] ^ (i % 6 == 2 ? byte(k) : byte(0));
      p[pos] = byte(i / 6);
      h = integers<T>(h, p);
    });
    mc::digest(nm, h);
  }
  {
    static const byte a4[4] = {0x00, 0x7f, 0x80, 0xff};
    const std::string nm = name + " boundary bytes";
    mc::u64 h = 0, tot = 1;
    const int m = mc::thorough() || n == 4 ? 4 : 3;
    for (int k = 0; k < n; k++)
      tot *= m;
    mc::sweep(nm, 0, tot, [&](mc::u64 i) {
      byte p[8] = {0};
      for (int k = 0; k < n; k++, i /= m)
        p[k] = a4[i % m];
      h = integers<T>(h, p);
    });
    mc::digest(nm, h);
  }
}

// -------------------------------------------------------------------------------------------------------------- tuples

template<endianess E, signed_mode S, typename... Ts>
struct Tup {
  using T = upd::tuple<E, S, Ts...>;
  using other = upd::tuple<(E == LE ? BE : LE), (S == TC ? OB : S == OB ? TC : S == SM ? OC : SM), Ts...>;
  template<std::size_t... Is>
  static void run(seq<Is...>) {
    Leaves ls;
    using discard = int[];
    (void)discard{(TT<Ts>::leaves(ls), 0)...};
    const std::vector<Vals> lists = value_lists(ls, S, 1, mc::thorough() ? 3 : 2);
    std::string name = "tuple " + fmt_name(E, S) + "<";
    (void)discard{((name += TT<Ts>::name() + ","), 0)...};
    name += ">";
    mc::u64 h = mc::mix(T::size, sizeof...(Ts));
    mc::sweep(name, 0, lists.size(), [&](mc::u64 i) {
      const V *p = lists[i].data();
      Boxes<Ts...> b(p);
      T t;
      h = hb(h, t);
      (void)discard{0, (t.template set<Is>(box_at<Is>::get(b)), 0)...};
      h = hb(h, t);
      h = hvs(h, Ops<T, Ts...>::invoke(t));
      (void)discard{0, (one(h, t.template get<Is>(), std::integral_constant<std::size_t, Is>{}), 0)...};
      // through the other format and back
      other o;
      (void)discard{0, (o.template set<Is>(box_at<Is>::get(b)), 0)...};
      h = hb(h, o);
      assign(h, t, o, has_c_array<Ts...>{});
      // parts
      auto v = t.template view<0, sizeof...(Ts)>();
      h = hvs(h, Ops<decltype(v), Ts...>::invoke(v));
      auto last = upd::make_view<sizeof...(Ts) - 1, 1>(t);
      h = hvs(h, Ops<decltype(last), typename nth<sizeof...(Ts) - 1, types<Ts...>>::type>::invoke(last));
      // the same bytes held by a list
      std::list<byte> l(t.begin(), t.end());
      auto lv = upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, l.begin());
      h = hvs(h, Ops<decltype(lv), Ts...>::invoke(lv));
    });
    mc::digest(name, h);
  }
  template<typename R, std::size_t I>
  static void one(mc::u64 &h, const R &r, std::integral_constant<std::size_t, I>) {
    Vals v;
    TT<typename nth<I, types<Ts...>>::type>::flat(r, v);
    h = hvs(h, v);
  }
  static void assign(mc::u64 &h, T &t, const other &o, std::false_type) {
    t = other(o);
    h = hb(h, t);
  }
  static void assign(mc::u64 &, T &, const other &, std::true_type) {}
};
template<typename... Ts>
void tuples() {
  using Is = mkseq_t<sizeof...(Ts)>;
  Tup<LE, SM, Ts...>::run(Is{});
  Tup<LE, OC, Ts...>::run(Is{});
  Tup<LE, TC, Ts...>::run(Is{});
  Tup<LE, OB, Ts...>::run(Is{});
  Tup<BE, SM, Ts...>::run(Is{});
  Tup<BE, OC, Ts...>::run(Is{});
  Tup<BE, TC, Ts...>::run(Is{});
  Tup<BE, OB, Ts...>::run(Is{});
}

// ---------------------------------------------------------------------------------------------------------------- keys

template<typename Rg, typename Is = mkseq_t<Rg::size>>
void keys_of(int level, unsigned dev) {
  static const Spec sp = spec_of<Rg>();
  static const KeyTable<Rg, Is> kt;
  for (std::size_t ki = 0; ki < kt.keys.size(); ki++) {
    const std::size_t i = kt.at[ki];
    const Sig &sg = sp.sigs[i];
    const KeyIf &k = *kt.keys[ki];
    const std::vector<Vals> args = value_lists(sg.in, sp.s, level, dev), rets = value_lists(sg.out, sp.s, level, dev);
    const std::size_t n = args.size() > rets.size() ? args.size() : rets.size();
    const std::string name = MC_STR(Rg::name() << " key " << i);
    mc::u64 h = mc::mix(k.index(), mc::mix(k.payload_length(), k.tuple_size()));
    mc::sweep(name, 0, n, [&](mc::u64 x) {
      const Vals &a = args[x % args.size()];
      for (const bytes &b : k.send(a, int(x % OUT_FORMS), sp.w + sg.in_size, 1))
        h = hb(h, b);
      for (const bytes &b : k.send_tuple(a))
        h = hb(h, b);
      // a response, through the key and a hook; whatever its bytes
      bytes r = ref_encode(sg.out, rets[x % rets.size()], sp.e, sp.s);
      Src s(r);
      h = hvs(h, k.read(int(x % IN_FORMS), s, r.size()));
      h = mc::mix(h, s.pos);
      auto hook = k.hook(int(x % HOOKS));
      h = mc::mix(h, hook->in() * 1000 + hook->out());
      hook_log().calls.clear();
      Src s2(r);
      hook->run(s2, int(x % PROC_FORMS), r.size(), 0);
      for (auto &c : hook_log().calls)
        h = hvs(h, c);
      // an action of its callback
      auto act = k.action(int(x % ACTIONS));
      h = mc::mix(h, act->in() * 1000 + act->out());
      bytes q = ref_encode(sg.in, a, sp.e, sp.s);
      Src s3(q);
      world() = World{};
      world().forced = true;
      world().ret = rets[x % rets.size()];
      h = hb(h, act->run(s3, int(x % PROC_FORMS), q.size(), sg.out_size));
      for (auto &e : world().log)
        h = hvs(h, e.args);
    });
    mc::digest(name, h);
  }
}

// --------------------------------------------------------------------------------------------------------- dispatchers

template<typename T>
struct Target {
  std::size_t n;
};
template<typename Di>
struct Make {
  using T = typename Di::type;
  using Kr = typename Di::ring::keyring;
  static T run() {
#if SEVENTEEN
    if constexpr (Di::dbl)
      return upd::double_buffered_dispatcher{Kr{}, upd::action_features_h<Di::af>{}};
    else
      return upd::single_buffered_dispatcher{Kr{}, upd::action_features_h<Di::af>{}};
#else
    return T{Kr{}, upd::action_features_h<Di::af>{}};
#endif
  }
};

// All the sequences of operations of a given length: the bytes of the alphabet, get, write_to, and a reply
template<typename Di>
void histories(const bytes &alpha, int len) {
  using T = typename Di::type;
  using Rg = typename Di::ring;
  static const Spec sp = spec_of<Rg>();
  using Back = upd::keyring<BE, TC, typename CbH<900, void(const u8 (&)[4])>::H>;
  for (std::size_t first = 0; first < alpha.size() + 1; first++) {
    const std::string name = Di::name() + MC_STR(" histories from " << first);
    mc::u64 total = 0;
    mc::explore(name, [&](mc::Ch &ch) {
      world() = World{};
      T d = Make<Di>::run();
      Model m(sp);
      bool any = false;
      mc::u64 h = 1;
      for (int k = 0; k < len; k++) {
        int op = k == 0 ? int(first) : ch(int(alpha.size()) + 3, "op");
        const bool reply = op == int(alpha.size()) + 2;
        if (op < int(alpha.size())) {
          if (d.is_loaded() && !Di::dbl)
            return; // the documentation forbids it
          bool c = m.completes(alpha[op]);
          m.put(alpha[op]);
          any |= c;
          h = mc::mix(h, mc::u64(d.put(alpha[op])));
        } else if (op == int(alpha.size())) {
          m.get();
          h = mc::mix(h, d.get());
        } else if (!reply) {
          m.drain();
          h = hb(h, drain_form(d, 4, 0));
        } else {
          if (!any)
            return;
          bytes o;
          bool r = d.reply(std::back_inserter(o), upd::key<typename Back::index_t, 0, void(const u8(&)[4]), BE, TC>{});
          m.drain();
          h = mc::mix(h, r);
          // the callback of the other side gets 4 bytes, which begin with the response
          h = hb(h, o);
          if (!r)
            drain_form(d, 4, 0);
        }
        h = mc::mix(h, d.is_loaded());
      }
      for (auto &e : world().log)
        h = hvs(mc::mix(h, mc::u64(e.id)), e.args);
      total = mc::mix(total, h);
    });
    mc::digest(name, total);
  }
}
struct Go {
  bytes alpha;
  int len;
  template<typename Di>
  void run() {
    histories<Di>(alpha, len);
  }
};

// Sizes known at compile time, and whole requests on plain and buffered dispatchers
template<typename Rg>
struct Sizes {
  template<upd::action_features AF>
  static mc::u64 plain(mc::u64 h) {
    using P = upd::dispatcher<typename Rg::keyring, AF>;
#if SEVENTEEN
    upd::dispatcher d{typename Rg::keyring{}, upd::action_features_h<AF>{}};
#else
    P d{typename Rg::keyring{}, upd::action_features_h<AF>{}};
#endif
    const Spec sp = spec_of<Rg>();
    h = mc::mix(h, P::size * 8 + sizeof(typename P::index_t));
    for (std::size_t i = 0; i < sp.sigs.size() + 1; i++) {
      bytes pkt = sp.index_bytes(i);
      if (i < sp.sigs.size()) {
        h = mc::mix(h, d[typename P::index_t(i)].input_size());
        h = mc::mix(h, d[typename P::index_t(i)].output_size());
        for (std::size_t j = 0; j < sp.sigs[i].in_size; j++)
          pkt.push_back(byte(0x80 + 37 * j + i));
      }
      world() = World{};
      Src s(pkt);
      Sink o;
      h = mc::mix(h, d(s, o));
      h = hb(h, o.out);
      for (auto &e : world().log)
        h = hvs(mc::mix(h, mc::u64(e.id)), e.args);
    }
    return h;
  }
  template<typename Di>
  static mc::u64 buffered(mc::u64 h) {
    typename Di::type d = Make<Di>::run();
    const Spec sp = spec_of<Rg>();
    for (std::size_t i = 0; i < sp.sigs.size() + 1; i++) {
      bytes pkt = sp.index_bytes(i);
      for (std::size_t j = 0; i < sp.sigs.size() && j < sp.sigs[i].in_size; j++)
        pkt.push_back(byte(0x80 + 37 * j + i));
      world() = World{};
      Src s(pkt);
      h = mc::mix(h, mc::u64(d.read_from(s)));
      h = hb(h, drain_form(d, 0, 0));
      for (auto &e : world().log)
        h = hvs(mc::mix(h, mc::u64(e.id)), e.args);
    }
    return h;
  }
  static void run() {
    const std::string name = Rg::name() + " sizes and requests";
    mc::u64 h = 0;
    mc::explore(name, [&](mc::Ch &ch) {
      using S = Disp<Rg, false, ANY>;
      using Dd = Disp<Rg, true, WEAK>;
      switch (ch(5)) {
      case 0:
        h = mc::mix(h, S::type::buffer_size);
        h = mc::mix(h, Dd::type::input_buffer_size);
        h = mc::mix(h, Dd::type::output_buffer_size);
        break;
      case 1:
        h = plain<ANY>(h);
        break;
      case 2:
        h = plain<WEAK>(h);
        break;
      case 3:
        h = buffered<S>(h);
        break;
      default:
        h = buffered<Dd>(h);
      }
    });
    mc::digest(name, h);
  }
};
template<typename... Rgs>
void sizes() {
  using discard = int[];
  (void)discard{(Sizes<Rgs>::run(), 0)...};
}

using A3 = std::array<u16, 3>;
using C3 = const u8 (&)[3];

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  sweep_integers<bool>("bool");
  sweep_integers<u8>("u8");
  sweep_integers<i8>("i8");
  sweep_integers<char>("char");
  sweep_integers<u16>("u16");
  sweep_integers<i16>("i16");
#elif PART == 1
  sweep_integers<u32>("u32");
  sweep_integers<i32>("i32");
  sweep_integers<u64>("u64");
  sweep_integers<i64>("i64");
  sweep_integers<long long>("long long");
  sweep_integers<wchar_t>("wchar_t");
#elif PART == 2
  tuples<bool, i16, u32>();
  tuples<O, u8>();
  tuples<i8, i16[3], bool>();
  tuples<N, W>();
  tuples<std::array<i32, 2>, D>();
  tuples<P, i64>();
#elif PART == 3
  keys_of<Ring<LE, TC, void(), u16(u8), O(i16, bool), A3(C3), W(P, ::rig::N)>>(2, 2);
  keys_of<Ring<BE, SM, i64(u32, i32), D(D), bool(bool), void(const O &, i8)>>(2, 2);
  keys_of<Ring<BE, OB, u8(u8, u8, u8), ::rig::N(i8), i16()>>(2, 2);
  keys_of<Ring<LE, OC, i32(i32), ::rig::P(A3), i8(W)>>(2, 2);
  keys_of<WideRing<BE, TC, 257, void(i8), u8(u8)>, seq<0, 1, 254, 255, 256>>(1, 1);
#elif PART == 4
  const int len = mc::thorough() ? 7 : 5;
  all_dispatchers<Ring<LE, TC, u16(u8), void(), i8(bool)>>(Go{{0, 1, 2, 0xff}, len});
  all_dispatchers<Ring<BE, OC, O(i8), u32()>>(Go{{0, 1, 0x80}, len});
#elif PART == 5
  const int len = mc::thorough() ? 8 : 6;
  all_dispatchers<WideRing<BE, TC, 256, void(), u8(u8)>>(Go{{0, 1, 0xff}, len});
  sizes<Ring<LE, TC, void()>, Ring<BE, SM, u8(), void(u16)>, Ring<LE, OB, O(P), ::rig::N(W)>, Ring<BE, OC, A3(C3, bool), i64(i8, i16, i32, i64)>,
        WideRing<LE, TC, 255, void(), u8(u8)>, WideRing<BE, TC, 257, u64(u64), O(O)>>();
#endif
  return mc::finish();
}
