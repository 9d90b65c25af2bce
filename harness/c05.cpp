// C05: announced sizes equal the number of bytes really exchanged.
#include "keys.hpp"
using namespace rig;

template<typename Di>
struct Dsp {
  // sizes announced by the actions of a dispatcher
  static void check(const Spec &sp) {
    typename Di::plain d;
    const typename Di::plain &c = d;
    for (std::size_t i = 0; i < sp.sigs.size(); i++) {
      using idx = typename Di::plain::index_t;
      MC_CHECK(d[idx(i)].input_size() == sp.sigs[i].in_size && c[idx(i)].input_size() == sp.sigs[i].in_size,
               "the dispatcher announces an input of " << d[idx(i)].input_size() << " bytes instead of " << sp.sigs[i].in_size << " for " << sp.sigs[i].name);
      MC_CHECK(d[idx(i)].output_size() == sp.sigs[i].out_size && c[idx(i)].output_size() == sp.sigs[i].out_size,
               "the dispatcher announces an output of " << d[idx(i)].output_size() << " bytes instead of " << sp.sigs[i].out_size << " for " << sp.sigs[i].name);
      // and really exchanges them
      bytes pkt = sp.index_bytes(i);
      for (std::size_t k = 0; k < sp.sigs[i].in_size + 8; k++)
        pkt.push_back(byte(k * 11));
      Src src(pkt);
      Sink out;
      d(src, out);
      MC_CHECK(src.pos == sp.w + sp.sigs[i].in_size, "the dispatcher fetches " << src.pos << " bytes for " << sp.sigs[i].name);
      MC_CHECK(out.out.size() == sp.sigs[i].out_size, "the dispatcher emits " << out.out.size() << " bytes for " << sp.sigs[i].name);
      typename Di::type b;
      const typename Di::type &cb = b;
      MC_CHECK(b[idx(i)].input_size() == sp.sigs[i].in_size && cb[idx(i)].output_size() == sp.sigs[i].out_size,
               "the buffered dispatcher announces other sizes for " << sp.sigs[i].name);
    }
  }
};

template<typename Rg>
void go() {
  static const Spec sp = spec_of<Rg>();
  static const KeyTable<Rg> kt;
  mc::explore(Rg::name(), [&](mc::Ch &ch) {
    world() = World{};
    std::size_t i = std::size_t(ch(int(Rg::size), "signature"));
    const Sig &sg = sp.sigs[i];
    const KeyIf &k = *kt.keys[i];
    const int what = ch(2 + ACTIONS + HOOKS, "object");
    const int pat = ch(3, "values");
    Vals args;
    for (const Leaf &l : value_leaves(sg.in))
      args.push_back(pat == 0 ? V(0) : pat == 1 ? leaf_max(l) : l.sgn ? -leaf_max(l) : leaf_max(l) / 3);
    if (what == 0) { // keys
      MC_CHECK(k.payload_length() == sp.w + sg.in_size,
               sg.name << ": payload_length is " << k.payload_length() << " instead of " << sp.w + sg.in_size);
      MC_CHECK(k.tuple_size() == sg.in_size, sg.name << ": the size of the tuple of parameters is " << k.tuple_size());
      for (int form : {0, 2, 4}) {
        bytes b = k.send(args, form, sp.w + sg.in_size, 1)[0];
        MC_CHECK(b.size() == k.payload_length(), sg.name << ": the request has " << b.size() << " bytes");
        mc::count("bytes emitted", b.size());
      }
    } else if (what == 1) { // responses
      bytes r(sg.out_size + 8, byte(pat * 85));
      for (int form : {0, 2}) {
        Src src(r);
        k.read(form, src, sg.out_size);
        MC_CHECK(src.pos == sg.out_size, sg.name << ": the key consumes " << src.pos << " bytes of the response instead of " << sg.out_size);
        mc::count("bytes consumed", src.pos);
      }
    } else {
      const bool hook = what >= 2 + ACTIONS;
      auto a = hook ? k.hook(what - 2 - ACTIONS) : k.action(what - 2);
      std::size_t in = hook ? sg.out_size : sg.in_size, out = hook ? 0 : sg.out_size;
      MC_CHECK(a->in() == in, sg.name << ": the " << (hook ? "hook" : "action") << " (" << what << ") announces an input of " << a->in() << " bytes instead of " << in);
      MC_CHECK(a->out() == out, sg.name << ": the " << (hook ? "hook" : "action") << " (" << what << ") announces an output of " << a->out() << " bytes instead of " << out);
      bytes pkt = hook ? bytes(in, byte(pat * 85)) : ref_encode(sg.in, args, sp.e, sp.s);
      pkt.resize(in + 8);
      for (int form : {0, 5, 10}) {
        Src src(pkt);
        bytes o = a->run(src, form, in, out);
        MC_CHECK(src.pos == in, sg.name << ": the action (" << what << ") fetches " << src.pos << " bytes instead of " << in);
        MC_CHECK(o.size() == out, sg.name << ": the action (" << what << ") emits " << o.size() << " bytes instead of " << out);
        mc::count("bytes consumed", src.pos);
        mc::count("bytes emitted", o.size());
      }
    }
    mc::outcome(mc::mix(sg.in_size * 1000 + sg.out_size, u64(what)));
  });
  mc::explore(Rg::name() + " dispatchers", [&](mc::Ch &ch) {
    world() = World{};
    switch (ch(4)) {
    case 0:
      return Dsp<Disp<Rg, false, ANY>>::check(sp);
    case 1:
      return Dsp<Disp<Rg, false, WEAK>>::check(sp);
    case 2:
      return Dsp<Disp<Rg, true, ANY>>::check(sp);
    default:
      return Dsp<Disp<Rg, true, WEAK>>::check(sp);
    }
  });
}

#define FMT(N) ((N) & 1) ? BE : LE, ((N) / 2 % 4) == 0 ? TC : ((N) / 2 % 4) == 1 ? SM : ((N) / 2 % 4) == 2 ? OB : OC
using A3 = std::array<u16, 3>;
using A300 = std::array<u8, 300>;
using C3 = const u8 (&)[3];
using M2 = i16 (&&)[2];
using N0 = N;

#define ALLP bool, u8, i8, u16, const i16 &, u32 &&, i32, u64, const i64 &, A3, C3, M2, const O &, ::rig::P, W &&, N0, D
#define SUBP u8, bool, i32, const O &, C3

template<typename R, typename P, int F>
void row() {
  go<Binary<FMT(F), R, P, ALLP>>();
}
template<typename P, int F>
void cube() {
  go<Ternary<FMT(F + 0), void, P, u8, SUBP>>();
  go<Ternary<FMT(F + 1), u16, P, bool, SUBP>>();
  go<Ternary<FMT(F + 2), O, P, i32, SUBP>>();
  go<Ternary<FMT(F + 3), bool, P, const O &, SUBP>>();
  go<Ternary<FMT(F + 4), i64, P, C3, SUBP>>();
}
template<typename P, int F>
void rets() {
  go<Returns<FMT(F), P, void, bool, u8, i8, u16, i16, u32, i32, u64, i64, A3, O, ::rig::P, W, N0, D, A300, long, unsigned long long, wchar_t, char>>();
}

// Announced sizes also are constants
using KR = Ring<LE, TC, u16(O, bool), void(), N(C3, const i64 &)>;
static_assert(KR::Key<0>::payload_length == 7, "");
static_assert(KR::Key<1>::payload_length == 1, "");
static_assert(KR::Key<2>::payload_length == 12, "");
static_assert(upd::tuple<LE, TC, O, bool, N>::size == 15, "");

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  go<Ring<LE, TC, void(), u8(), O(), A300(), bool()>>();
  go<Unary<FMT(0), void, ALLP, A300, const u8 (&)[300], char, wchar_t, long long>>();
  go<Unary<FMT(3), i16, ALLP, const bool, const O>>();
  rets<u8, 0>();
  rets<const O &, 5>();
#elif PART == 1
  row<void, bool, 0>();
  row<u8, i8, 1>();
  row<void, const O &, 2>();
  row<i32, C3, 3>();
#elif PART == 2
  row<O, u64, 4>();
  row<A3, W, 5>();
  row<void, N0, 6>();
  row<bool, D, 7>();
#elif PART == 3
  cube<u16, 0>();
  cube<const O &, 3>();
  go<Ring<BE, SM, u8(u8, u8, u8, u8, u8, u8, u8, u8), void(O, ::rig::P, W, N0, D, bool), i64(i64, i32, i16, i8, u64, u32, u16, u8, bool, A3)>>();
#elif PART == 4
  row<u16, A3, 8>();
  row<::rig::P, i32, 9>();
  row<W, ::rig::P, 10>();
  row<N0, M2, 11>();
#elif PART == 5
  cube<C3, 1>();
  cube<bool, 2>();
  cube<i32, 4>();
#elif PART == 6
  row<D, u8, 12>();
  row<void, u16, 13>();
  row<i64, const i16 &, 14>();
  row<u8, u32 &&, 15>();
#endif
  return mc::finish();
}
