// C06: a request is exactly the index followed by the encoded arguments.
#define KEYS_ONLY
#include "disp.hpp"
#include "keys.hpp"
using namespace rig;

template<typename Rg, typename Is = mkseq_t<Rg::size>>
void go(unsigned dev, int level) {
  static const Spec sp = spec_of<Rg>();
  static const KeyTable<Rg, Is> kt;
  static std::map<std::size_t, std::vector<Vals>> cache;
  cache.clear();
  mc::explore(Rg::name(), [&](mc::Ch &ch) {
    std::size_t ki = std::size_t(ch(int(kt.keys.size()), "key")), i = kt.at[ki];
    const Sig &sg = sp.sigs[i];
    const KeyIf &k = *kt.keys[ki];
    if (!cache.count(i)) {
      cache[i] = value_lists(sg.in, sp.s, level, dev);
      if (cache[i].size() > 6000) // keep the enumeration of large signatures within bounds: fewer simultaneous deviations
        cache[i] = value_lists(sg.in, sp.s, level, dev - 1);
    }
    const std::vector<Vals> &lists = cache[i];
    const Vals &args = lists[ch(int(lists.size()), "arguments")];
    const bytes want = sp.request(i, args);
    // each argument list goes through two forms, in turn; the first ones go through all of them, the message being sent again
    const int li = int(&args - lists.data());
    const int nf = li < 3 || mc::thorough() ? OUT_FORMS : 1;
    int form = (li + ch(nf, "form")) % OUT_FORMS;
    std::vector<bytes> got = k.send(args, form, want.size(), nf == 1 ? 2 : 3);
    for (std::size_t t = 0; t < got.size(); t++)
      MC_CHECK(got[t] == want, sg.name << vstr(args) << " through " << out_form((form + int(t) * 3) % OUT_FORMS) << ", send " << t + 1 << ": "
                                       << mc::hex(got[t]) << " instead of " << mc::hex(want));
    if (nf != 1 || li % 16 == 0)
      for (const bytes &b : k.send_tuple(args))
        MC_CHECK(b == want, sg.name << vstr(args) << " through a tuple: " << mc::hex(b) << " instead of " << mc::hex(want));
    mc::outcome(mc::hash_bytes(want.data(), want.size()));
    mc::count("requests", got.size());
  });
}

#define FMT(N) ((N) & 1) ? BE : LE, ((N) / 2 % 4) == 0 ? TC : ((N) / 2 % 4) == 1 ? SM : ((N) / 2 % 4) == 2 ? OB : OC
using A3 = std::array<u16, 3>;
using A300 = std::array<u8, 300>;
using C3 = const u8 (&)[3];
using M2 = i16 (&&)[2];

#define ALLP bool, u8, i8, u16, const i16 &, u32 &&, i32, u64, const i64 &, A3, C3, M2, const O &, ::rig::P, W &&, ::rig::N, D
template<int F>
void unary() {
  go<Unary<FMT(F), u8, ALLP>>(2, 2);
}
template<typename P, int F>
void row() {
  go<Binary<FMT(F), void, P, ALLP>>(2, mc::thorough() ? 2 : 1);
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  unary<0>();
  unary<1>();
  unary<2>();
  unary<3>();
#elif PART == 3
  unary<4>();
  unary<5>();
  unary<6>();
  unary<7>();
  go<Ring<LE, TC, void()>>(0, 0);
#elif PART == 1
  row<i16, 0>();
  row<const O &, 1>();
  row<C3, 2>();
  row<bool, 3>();
  go<Ring<BE, OB, void(), u8(u8), void(), u16(i16, i16), void(bool, O)>>(2, 2);
#elif PART == 2
  // long argument lists, long arguments, two-byte indexes
  go<Ring<BE, SM, u8(u8, u8, u8, u8, u8, u8, u8, u8), void(O, ::rig::P, W, ::rig::N, D, bool), i64(i64, i32, i16, i8, u64, u32, u16, u8, bool, A3)>>(1, 1);
  go<Ring<LE, OC, u8(A300), void(u8, const u8 (&)[300], i16), void(const u16 (&)[130], bool)>>(1, 0);
  go<WideRing<BE, TC, 258, void(), u8(u8), void(i16, bool)>, seq<0, 1, 2, 3, 255, 256, 257>>(1, 1);
  go<WideRing<LE, OB, 256, u8(i8), void(O)>, seq<0, 1, 2, 254, 255>>(1, 1);
  go<WideRing<BE, SM, 255, void(), u8(u8)>, seq<0, 1, 2, 127, 128, 254>>(1, 1);
#elif PART == 4
  row<u64, 4>();
  row<i32, 5>();
  row<W, 6>();
  row<D, 7>();
  row<A3, 4>();
#elif PART == 5
  row<::rig::N, 5>();
  row<::rig::P, 6>();
  row<M2, 7>();
  row<u8, 0>();
  row<i8, 1>();
#endif
  return mc::finish();
}
