// C08: the plain dispatcher calls exactly the addressed callback and reports its index.
#include "disp.hpp"
#include "keys.hpp"
using namespace rig;

template<typename Rg, upd::action_features AF>
struct Plain {
  using T = upd::dispatcher<typename Rg::keyring, AF>;
  using index_t = typename T::index_t;
  static const Spec &sp() {
    static const Spec s = spec_of<Rg>();
    return s;
  }
  static std::string name(const std::string &what) {
    std::string n = Rg::name();
    if (n.size() > 150)
      n = MC_STR(n.substr(0, 100) << "... " << Rg::size << " callbacks}" << fmt_name(Rg::end, Rg::mode));
    return std::string(AF == ANY ? "any " : "weak ") + n + " " + what;
  }

  // The expectation for one packet
  struct Want {
    bool valid;
    u64 index;
    std::size_t in, out;
    Vals args;
    bytes ret;
    std::vector<Ev> log;
    Want(u64 idx, const bytes &payload) : valid(idx < sp().sigs.size()), index(idx), in(0), out(0) {
      if (valid) {
        const Sig &sg = sp().sigs[idx];
        in = sg.in_size;
        out = sg.out_size;
        args = ref_decode(sg.in, payload.data(), sp().e, sp().s);
        ret = ref_encode(sg.out, default_ret(sp().base + int(idx), args, sg.out), sp().e, sp().s);
        log.push_back(Ev{sp().base + int(idx), args});
      }
    }
  };
  static bytes payload(u64 idx, int pat) {
    std::size_t n = idx < sp().sigs.size() ? sp().sigs[idx].in_size : 0;
    bytes p;
    for (std::size_t i = 0; i < n; i++)
      p.push_back(pat == 0 ? byte(7 * i + 1 + idx) : pat == 1 ? 0xff : pat == 2 ? 0 : pat == 3 ? 0x80 : byte(0x31 * (i + 3) + idx));
    for (int i = 0; i < 6; i++) // the next packet
      p.push_back(byte(0xe0 + i));
    return p;
  }

  struct Call {
    T *d;
    template<typename A, typename B>
    index_t operator()(A &&a, B &&b) const {
      return (*d)(static_cast<A &&>(a), static_cast<B &&>(b));
    }
  };
  struct CallAct {
    typename T::action_t *a;
    template<typename A, typename B>
    void operator()(A &&x, B &&y) const {
      (*a)(static_cast<A &&>(x), static_cast<B &&>(y));
    }
  };

  enum { WAYS = 3 }; // operator(), get_action then the action, get_index then operator[]
  static void run(T &d, u64 idx, const bytes &pl, int way, int form) {
    const Want w(idx, pl);
    bytes pkt = sp().index_bytes(idx);
    const std::size_t iw = pkt.size();
    pkt.insert(pkt.end(), pl.begin(), pl.end());
    world().log.clear();
    Src src(pkt);
    bytes out;
    const T &cd = d;
    if (way == 0) {
      Call c{&d};
      u64 r = Proc<index_t, Call>::run(c, src, form, iw + w.in, w.out, out);
      MC_CHECK(r == idx, "operator() reports index " << r << " instead of " << idx);
    } else if (way == 1) {
      typename T::action_t *a = (form & 1) ? d.get_action(src) : d.get_action([&src]() -> byte { return src(); });
      MC_CHECK(src.pos == iw, "get_action reads " << src.pos << " bytes");
      MC_CHECK((a != nullptr) == w.valid, "get_action gives " << (a ? "an action" : "nothing") << " for index " << idx);
      if (a) {
        MC_CHECK(a == &d[index_t(idx)] && a == &cd[index_t(idx)], "get_action gives another action than operator[] for index " << idx);
        CallAct c{a};
        Proc<void, CallAct>::run(c, src, form, w.in, w.out, out);
      }
    } else {
      u64 i = (form & 1) ? cd.get_index(src) : d.get_index([&src]() -> byte { return src(); });
      MC_CHECK(i == idx, "get_index gives " << i << " instead of " << idx);
      MC_CHECK(src.pos == iw, "get_index reads " << src.pos << " bytes");
      if (w.valid) {
        CallAct c{&d[index_t(i)]};
        Proc<void, CallAct>::run(c, src, form, w.in, w.out, out);
      }
    }
    MC_CHECK(world().log == w.log, "index " << idx << ": calls " << evstr(world().log) << " instead of " << evstr(w.log));
    MC_CHECK(src.pos == iw + w.in, "index " << idx << ": " << src.pos << " bytes read instead of " << iw + w.in);
    MC_CHECK(out == w.ret, "index " << idx << ": emits " << mc::hex(out) << " instead of " << mc::hex(w.ret));
    mc::count(w.valid ? "calls" : "invalid indexes");
    mc::outcome(mc::hash_bytes(out.data(), out.size(), idx + 77));
  }

  static void indexes() { // every index value on the same dispatcher
    world() = World{};
    T d;
    mc::sweep(name("every index"), 0, sp().w == 1 ? 256 : 65536, [&](mc::u64 i) {
      for (int way = 0; way < (i < 700 || mc::thorough() ? int(WAYS) : 1); way++)
        for (int pat = 0; pat < (i < sp().sigs.size() ? 2 : 1); pat++)
          run(d, i, payload(i, pat), way, int((i + pat * 5) % PROC_FORMS));
    });
  }
  static void histories(int depth) {
    mc::explore(name("histories"), [&](mc::Ch &ch) {
      world() = World{};
      typename Rg::keyring kr;
      T d(kr, upd::action_features_h<AF>{});
      const int n = int(sp().sigs.size());
      for (int k = 0; k < depth; k++) {
        int i = ch(n + 2, "index");
        u64 idx = i < n ? u64(i) : i == n ? u64(n) : sp().w == 1 ? 0xff : 0xff00;
        int pat = ch(i < n && sp().sigs[i].in_size ? (k + 1 == depth ? 5 : 2) : 1, "payload");
        int way = ch(k + 1 == depth ? int(WAYS) : 1, "way");
        int form = k + 1 == depth && (pat == 0 || mc::thorough()) ? ch(PROC_FORMS, "form") : (i * 3 + k) % PROC_FORMS;
        run(d, idx, payload(idx, pat), way, form);
      }
    });
  }
  static void values() { // argument values, decoded by the callbacks
    mc::explore(name("values"), [&](mc::Ch &ch) {
      world() = World{};
      static T d;
      int i = ch(int(sp().sigs.size()), "index");
      static std::map<int, std::vector<Vals>> lists;
      if (!lists.count(i))
        lists[i] = value_lists(sp().sigs[i].in, sp().s, 2, 1);
      const Vals &a = lists[i][ch(int(lists[i].size()), "arguments")];
      bytes pl = ref_encode(sp().sigs[i].in, a, sp().e, sp().s);
      pl.resize(pl.size() + 4, 0xee);
      run(d, u64(i), pl, 0, int(a.empty() ? 0 : u64(a[0]) % PROC_FORMS));
      run(d, u64(i), pl, int(u64(a.empty() ? 0 : a[0]) % WAYS), 0);
      // and returned values
      for (const Vals &r : value_lists(sp().sigs[i].out, sp().s, 2, 1)) {
        if (&a != &lists[i][0])
          break;
        world().forced = true;
        world().ret = r;
        bytes pkt = sp().index_bytes(u64(i)), want = ref_encode(sp().sigs[i].out, r, sp().e, sp().s);
        pkt.insert(pkt.end(), pl.begin(), pl.end());
        Src src(pkt);
        Sink out;
        d(src, out);
        world().forced = false;
        MC_CHECK(out.out == want, sp().sigs[i].name << " returning " << vstr(r) << " emits " << mc::hex(out.out) << " instead of " << mc::hex(want));
        mc::count("returned values");
      }
    });
  }
};

template<typename Rg>
void full(int depth) {
  Plain<Rg, ANY>::indexes();
  Plain<Rg, WEAK>::indexes();
  Plain<Rg, ANY>::histories(depth);
  Plain<Rg, WEAK>::histories(depth);
  Plain<Rg, ANY>::values();
  Plain<Rg, WEAK>::values();
}
template<typename Rg>
void wide() {
  Plain<Rg, ANY>::indexes();
  Plain<Rg, WEAK>::indexes();
}

using A300 = std::array<u8, 300>;
using A3 = std::array<u16, 3>;

int main(int argc, char **argv) {
  mc::init(argc, argv);
  const int d = mc::thorough() ? 4 : 3;
#if PART == 0
  full<Ring<LE, TC, void(), u8(u8), i16(i8, const u16 &), O(bool, O)>>(d);
  full<Ring<BE, SM, i64(i64, u32 &&), W(W), void(const u8 (&)[3])>>(d);
#elif PART == 1
  full<Ring<BE, OB, void(i8), A3(i16 (&&)[2]), u8(), bool(bool), i8(i8)>>(d);
  full<Ring<LE, OC, N(N, D), P(P), u64(u8, i8, u16, i16, u32, i32, u64, i64, bool), void(A300), A300(u8)>>(d - 1);
#elif PART == 2
  wide<WideRing<LE, TC, 255, void(), u8(u8), i16(i16)>>();
  wide<WideRing<BE, TC, 256, void(), u8(u8), i16(i16)>>();
#elif PART == 3
  wide<WideRing<BE, OC, 300, u8(), u8(u8), i16(i16)>>();
#elif PART == 4
  wide<Ring<LE, SM, u16(u16)>>();
  wide<WideRing<BE, OB, 130, void(u8), O(bool)>>();
  full<Ring<LE, SM, void(bool), void(u8), void(i8), void(u16), void(i16), void(u32), void(i32), void(u64), void(i64)>>(2);
  full<Ring<BE, TC, bool(), u8(), i8(), u16(), i16(), u32(), i32(), u64(), i64()>>(2);
#endif
  return mc::finish();
}
