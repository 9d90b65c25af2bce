// C13: no request or response ever exceeds the dispatcher buffers, which are as small as documented.
#include "disp.hpp"
using namespace rig;

#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif

// The size of the buffers, as documented: as small as possible for any request and any response
template<typename Rg>
void sizes() {
  mc::sweep("sizes of " + Rg::name(), 0, 1, [&](mc::u64) {
    const Spec sp = spec_of<Rg>();
    using Pl = upd::dispatcher<typename Rg::keyring, WEAK>;
    std::size_t in = sp.w + sp.max_in(), out = sp.max_out();
    std::size_t one = upd::single_buffered_dispatcher<Pl>::buffer_size;
    std::size_t di = upd::double_buffered_dispatcher<Pl>::input_buffer_size;
    std::size_t dout = upd::double_buffered_dispatcher<Pl>::output_buffer_size;
    MC_CHECK(one == (in > out ? in : out), "buffer_size is " << one << " instead of " << (in > out ? in : out));
    MC_CHECK(di == in, "input_buffer_size is " << di << " instead of " << in);
    MC_CHECK(dout == out || (out == 0 && dout == 1), "output_buffer_size is " << dout << " instead of " << out);
    // The objects themselves hold these buffers: two dispatchers which differ by their buffers only
    mc::count("keyrings whose sizes are checked");
    mc::step(3);
  });
}

// A dispatcher immediately followed by a guard. The guard is a member of a derived class, so that it sits on the padding at the
// end of the dispatcher, if any: not a single byte beyond the last buffer can be touched.
enum { GUARD = 64 };
template<typename T>
struct Guarded : T {
  byte guard[GUARD];
  Guarded() {
    for (int i = 0; i < GUARD; i++)
      guard[i] = byte(0xc3 + i);
    POISON(guard, GUARD);
  }
  ~Guarded() { UNPOISON(guard, GUARD); }
  bool intact() {
    UNPOISON(guard, GUARD);
    bool ok = true;
    for (int i = 0; i < GUARD; i++)
      ok = ok && guard[i] == byte(0xc3 + i);
    POISON(guard, GUARD);
    return ok;
  }
};

// Every request, with extreme payloads, followed by every way to unload, loaded while another response is pending (double
// buffered dispatchers), after partial loads of nothing else
template<typename Di>
void drive(int npackets) {
  using T = Guarded<typename Di::type>;
  static const Spec sp = spec_of<typename Di::ring>();
  const int n = int(sp.sigs.size() < 5 ? sp.sigs.size() : 5);
  mc::explore("buffers of " + Di::name(), [&](mc::Ch &ch) {
    world() = World{};
    Slot<T> d;
    Model m(sp);
    for (int k = 0; k < npackets; k++) {
      int i = ch(n + 1, "index");
      bytes pkt = sp.index_bytes(i == n ? sp.sigs.size() : u64(i));
      if (i < n)
        for (std::size_t j = 0; j < sp.sigs[i].in_size; j++)
          pkt.push_back(k & 1 ? byte(j + 1) : byte(0xff - j));
      // loading cannot disturb the pending response
      for (std::size_t j = 0; j < pkt.size(); j++) {
        Status want = m.put(pkt[j]);
        Status got = to_status(d->put(pkt[j]));
        MC_CHECK(got == want, "byte " << j << ": " << sname(got) << " instead of " << sname(want));
        MC_CHECK(d->is_loaded() == m.loaded(), "byte " << j << ": is_loaded " << d->is_loaded());
      }
      MC_CHECK(d->intact(), "memory after the dispatcher is changed by a request");
      MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
      int how = ch(Di::dbl ? 3 : 2, "unload");
      if (how == 0) {
        bytes want = m.drain(), got = drain_form(*d, int(want.size() % OUT_FORMS), want.size());
        MC_CHECK(got == want, "response " << mc::hex(got) << " instead of " << mc::hex(want));
      } else if (how == 1) {
        while (m.loaded()) {
          byte w = m.get(), g = d->get();
          MC_CHECK(g == w, "response byte " << int(g) << " instead of " << int(w));
        }
        MC_CHECK(!d->is_loaded() && d->get() == 0, "nothing is left");
      } // else it stays there
      MC_CHECK(d->intact(), "memory after the dispatcher is changed by a response");
    }
    if (m.loaded()) {
      bytes want = m.drain(), got = drain_form(*d, 0, want.size());
      MC_CHECK(got == want, "response " << mc::hex(got) << " instead of " << mc::hex(want));
    }
    MC_CHECK(d->intact(), "memory after the dispatcher is changed");
    mc::count("packet sequences");
  });
}

// Every index value, in sequence on the same dispatcher, each followed by as many bytes as its request needs, or by the bytes of
// one more index if it is dropped
template<typename Di>
void indexes() {
  using T = Guarded<typename Di::type>;
  static const Spec sp = spec_of<typename Di::ring>();
  Slot<T> d;
  Model m(sp);
  world() = World{};
  mc::sweep("every index of " + Di::name(), 0, sp.w == 1 ? 256 : 65536, [&](mc::u64 i) {
    if (i >= sp.sigs.size() + 600 && i % 64 != 0 && i % 256 != 255 && !mc::thorough())
      return;
    bytes pkt = sp.index_bytes(i);
    for (std::size_t j = 0; i < sp.sigs.size() && j < sp.sigs[i].in_size; j++)
      pkt.push_back(byte(i + 3 * j));
    for (byte b : pkt) {
      Status want = m.put(b);
      Status got = to_status(d->put(b));
      MC_CHECK(got == want, "index " << i << ": " << sname(got) << " instead of " << sname(want));
      MC_CHECK(d->is_loaded() == m.loaded(), "index " << i << ": is_loaded " << d->is_loaded());
    }
    MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
    world().log.clear();
    m.log.clear();
    MC_CHECK(d->intact(), "memory after the dispatcher is changed by index " << i);
    if (!Di::dbl || (i & 1)) {
      bytes want = m.drain(), got = drain_form(*d, int(i % OUT_FORMS), want.size());
      MC_CHECK(got == want, "response " << mc::hex(got) << " instead of " << mc::hex(want));
    }
    mc::step(pkt.size());
  });
}

template<typename Rg>
void both(int npackets = 2) {
  sizes<Rg>();
  indexes<Disp<Rg, false, ANY>>();
  indexes<Disp<Rg, true, ANY>>();
  indexes<Disp<Rg, false, WEAK>>();
  indexes<Disp<Rg, true, WEAK>>();
  if (mc::thorough())
    npackets++;
  drive<Disp<Rg, false, ANY>>(npackets);
  drive<Disp<Rg, true, ANY>>(npackets);
  drive<Disp<Rg, false, WEAK>>(npackets);
  drive<Disp<Rg, true, WEAK>>(npackets);
}

// All the keyrings made of 1, 2 and 3 of the signatures
template<int K, typename... Fs>
struct Products;
template<typename... Fs>
struct Products<1, Fs...> {
  static void run() {
    using discard = int[];
    (void)discard{0, (sizes<Ring<LE, TC, Fs>>(), 0)...};
  }
};
template<typename... Fs>
struct Products<2, Fs...> {
  template<typename F>
  static void with() {
    using discard = int[];
    (void)discard{0, (sizes<Ring<BE, OC, F, Fs>>(), 0)...};
  }
  static void run() {
    using discard = int[];
    (void)discard{0, (with<Fs>(), 0)...};
  }
};
template<typename... Fs>
struct Products<3, Fs...> {
  template<typename F, typename H>
  static void with2() {
    using discard = int[];
    (void)discard{0, (sizes<Ring<LE, OB, F, H, Fs>>(), 0)...};
  }
  template<typename F>
  static void with() {
    using discard = int[];
    (void)discard{0, (with2<F, Fs>(), 0)...};
  }
  static void run() {
    using discard = int[];
    (void)discard{0, (with<Fs>(), 0)...};
  }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  Products<1, void(), void(bool), void(u16), void(u64, i64), void(O), void(P), void(const N &), void(std::array<u32, 7>), void(const u8 (&)[5]), u8(),
           bool(i8), u32(), u64(u8), O(), P(u16), N(), W(W), D(D, D), std::array<u16, 9>(), std::array<u8, 255>(bool),
           std::array<u8, 256>(), std::array<u8, 257>(u32), void(std::array<u8, 254>), void(std::array<u8, 255>),
           void(std::array<u8, 256>), void(std::array<u8, 65535>), std::array<u8, 65536>(), void(std::array<u16, 33000>),
           u8(u8, u8), u8(u16, P), i16(O, O, O, O), i64(i8, i16, i32, i64), N(N, N), const u8 &(u8 &&), const O(const i64)>::run();
#elif PART == 1
  Products<2, void(), u8(), u64(), void(u16), void(u64), O(P), N(W), std::array<u8, 12>(bool), void(std::array<u16, 6>)>::run();
#elif PART == 2
  Products<3, void(), u32(), void(O), N(u8), u64(u16)>::run();
  sizes<WideRing<LE, TC, 255, void()>>();
  sizes<WideRing<LE, TC, 256, void()>>();
  sizes<WideRing<BE, TC, 300, u8(u8), u64(), void(N)>>();
#elif PART == 3
  both<Ring<LE, TC, void()>>(3);
  both<Ring<BE, SM, u8()>>(3);
  both<Ring<LE, OC, void(u8)>>(3);
  both<Ring<BE, OB, u64()>>(3);
  both<Ring<LE, TC, void(), u16(), u32(), u64()>>();
#elif PART == 4
  both<Ring<LE, TC, O(), void(P), void()>>(3);
  both<Ring<BE, OC, void(N), W()>>(3);
  both<Ring<LE, OB, N(W, W)>>(3);
  both<Ring<BE, TC, D(), void(D, bool), void(u64)>>(3);
#elif PART == 5
  both<Ring<LE, SM, void(), std::array<u8, 257>(u8), void(std::array<u8, 254>)>>();
  both<Ring<BE, TC, void(u8), void(std::array<u8, 257>), u16()>>();
  both<WideRing<LE, TC, 257, u8(u8), u64(), void(P)>>();
#elif PART == 6
  both<Ring<LE, TC, std::array<u16, 40000>(bool), u8()>>(1);
  both<Ring<BE, OC, bool(std::array<u8, 65540>), void()>>(1);
  both<Ring<LE, OB, u64(i8, i16, i32, i64), i8(bool, O, P)>>(3);
#endif
  return mc::finish();
}
