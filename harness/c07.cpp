// C07: a key decodes responses exactly and its hooks receive the returned value.
#include "keys.hpp"
using namespace rig;

struct Case {
  const Spec &sp;
  const Sig &sg;
  const KeyIf &k;
  bytes guard(bytes r) const { // bytes of the next packet follow the response
    for (int i = 0; i < 4; i++)
      r.push_back(byte(0xd1 + i));
    return r;
  }
  void read(const bytes &r, int form) const {
    bytes all = guard(r);
    Src src(all);
    Vals got = k.read(form, src, r.size());
    Vals want = ref_decode(sg.out, r.data(), sp.e, sp.s);
    MC_CHECK(got == want, sg.name << ": " << mc::hex(r) << " read through " << in_form(form) << " gives " << vstr(got) << " instead of " << vstr(want));
    MC_CHECK(src.pos == r.size(), sg.name << ": " << src.pos << " bytes consumed through " << in_form(form) << " instead of " << r.size());
    mc::count("responses read");
  }
  // one hook serves several responses
  void hook(const std::vector<bytes> &rs, int kind, int form) const {
    auto h = k.hook(kind);
    for (std::size_t i = 0; i < rs.size(); i++) {
      const bytes &r = rs[i];
      bytes all = guard(r);
      Src src(all);
      hook_log().calls.clear();
      bytes out;
      if (form >= PROC_FORMS) {
        if (!h->run_input(src, form, r.size()))
          return;
      } else
        out = h->run(src, form, r.size(), 0);
      Vals want = ref_decode(sg.out, r.data(), sp.e, sp.s);
      MC_CHECK(hook_log().calls.size() == 1, sg.name << ": a hook was called " << hook_log().calls.size() << " times");
      MC_CHECK(hook_log().calls[0] == want, sg.name << ": a hook (" << kind << ") received " << vstr(hook_log().calls[0]) << " instead of " << vstr(want) << " from " << mc::hex(r));
      MC_CHECK(src.pos == r.size(), sg.name << ": a hook consumed " << src.pos << " bytes instead of " << r.size());
      MC_CHECK(out.empty(), sg.name << ": a hook emitted bytes");
      mc::count("hook calls");
    }
  }
};

std::vector<bytes> patterns(const Leaves &out) {
  const std::size_t n = wire_size(out);
  std::vector<bytes> r;
  std::set<bytes> seen;
  auto add = [&](const bytes &b) {
    if (seen.insert(b).second)
      r.push_back(b);
  };
  std::vector<bytes> bases{bytes(n, 0), bytes(n, 0xff), bytes(n)};
  for (std::size_t i = 0; i < n; i++)
    bases[2][i] = byte(0x21 + 0x13 * i);
  const bytes vals{0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  for (auto &b : bases)
    add(b);
  for (auto &b : bases)
    for (std::size_t i = 0; i < n; i++)
      for (byte v : vals) {
        bytes x = b;
        x[i] = v;
        add(x);
        if (n <= 9)
          for (std::size_t j = i + 1; j < n; j++)
            for (byte w : vals) {
              bytes y = x;
              y[j] = w;
              add(y);
            }
      }
  return r;
}

template<typename Rg>
void go() {
  static const Spec sp = spec_of<Rg>();
  static const KeyTable<Rg> kt;
  for (std::size_t i = 0; i < kt.keys.size(); i++) {
    const Case c{sp, sp.sigs[i], *kt.keys[i]};
    const std::string name = MC_STR(fmt_name(sp.e, sp.s) << " " << c.sg.name << " ");
    const std::size_t n = c.sg.out_size;
    static std::vector<bytes> pats;
    pats = patterns(c.sg.out);
    if (n == 0)
      pats.push_back(bytes());
    if (n == 1 || n == 2)
      mc::sweep(name + "all patterns", 0, n == 1 ? 256 : 65536, [&](mc::u64 x) {
        bytes r{byte(x)};
        if (n == 2)
          r.push_back(byte(x >> 8));
        if (n == 1 || mc::thorough() || x % 257 == 0 || x % 4096 == 0x80)
          for (int f = 0; f < IN_FORMS; f++)
            c.read(r, f);
        else
          c.read(r, int(x / 256 + x) % IN_FORMS);
        if (n == 1 || x % 16 == 0 || mc::thorough())
          c.hook({r}, int(x / 16 % HOOKS), int(x % (PROC_FORMS + 4)));
      });
    mc::explore(name, [&](mc::Ch &ch) {
      const int p = ch(int(pats.size()), "pattern");
      mc::outcome(mc::hash_bytes(pats[p].data(), pats[p].size(), i + 1));
      if (p < 4 || mc::thorough()) {
        int what = ch(IN_FORMS + HOOKS, "form or hook");
        if (what < IN_FORMS)
          c.read(pats[p], what);
        else
          c.hook({pats[p], pats[(p + 1) % pats.size()], pats[p]}, what - IN_FORMS, ch(PROC_FORMS + 4, "hook form"));
      } else {
        c.read(pats[p], p % IN_FORMS);
        if (p % 7 == 0)
          c.hook({pats[p], pats[p / 2]}, p % HOOKS, p % PROC_FORMS);
      }
    });
  }
}

#define FMT(N) ((N) & 1) ? BE : LE, ((N) / 2 % 4) == 0 ? TC : ((N) / 2 % 4) == 1 ? SM : ((N) / 2 % 4) == 2 ? OB : OC
using A3 = std::array<u16, 3>;
using A300 = std::array<u8, 300>;
using B4 = std::array<bool, 4>;

template<int F>
void rets() {
  go<Returns<FMT(F), u8, void, bool, u8, i8, u16, i16, u32, i32, u64, i64, A3, O, P, W, N, D>>();
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  rets<0>();
  rets<3>();
#elif PART == 1
  rets<1>();
  rets<4>();
#elif PART == 2
  rets<5>();
  rets<6>();
#elif PART == 3
  rets<2>();
  rets<7>();
#elif PART == 4
  go<Ring<LE, OB, void(), A300(), B4(u8), char(), wchar_t(), long long(u8, u8), std::array<i64, 3>(bool)>>();
  go<Ring<BE, SM, void(), A300(u8), B4(), std::array<i16, 140>(bool)>>();
#endif
  return mc::finish();
}
