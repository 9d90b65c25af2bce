// C12: between packets, a used dispatcher serves requests like a fresh one.
#include "disp.hpp"
using namespace rig;

// Events, after each of which the dispatcher is between two packets: a complete request whose response is written, delivered
// byte by byte, or left there (partly delivered or not); a dropped packet; a request whose callback throws.
// After every history, every request is served by the used dispatcher exactly like by a fresh one.
static bool failing = false;

template<typename Di>
struct Used {
  using T = typename Di::type;
  static const Spec &sp() {
    static const Spec s = spec_of<typename Di::ring>();
    return s;
  }
  enum { AFTER = 4 }; // what becomes of the response
  struct Sys {
    Slot<T> d;
    Model m;
    Sys() : m(sp()) {
      world() = World{};
      failing = false;
      world().fail_hook = [](int) { return failing; };
    }
  };
  static bytes packet(std::size_t i, int pat) {
    bytes b = sp().index_bytes(i);
    for (std::size_t j = 0; j < sp().sigs[i].in_size; j++)
      b.push_back(pat == 0 ? byte(0x11 * (j + 1) + i) : byte(0xff - j * 3));
    return b;
  }
  static void feed(T &d, Model &m, const bytes &b, bool fails) {
    for (std::size_t j = 0; j < b.size(); j++) {
      m.fail_next = fails;
      failing = fails;
      Status want = LOADING, got = LOADING;
      bool wb = false, gb = false;
      try {
        want = m.put(b[j]);
      } catch (const Boom &) {
        wb = true;
      }
      try {
        got = to_status(d.put(b[j]));
      } catch (const Boom &) {
        gb = true;
      }
      failing = m.fail_next = false;
      MC_CHECK(wb == gb, "byte " << j << " of " << mc::hex(b) << ": the callback " << (wb ? "should fail" : "fails"));
      MC_CHECK(want == got, "byte " << j << " of " << mc::hex(b) << ": " << sname(got) << " instead of " << sname(want));
      MC_CHECK(d.is_loaded() == m.loaded(), "byte " << j << " of " << mc::hex(b) << ": is_loaded " << d.is_loaded());
    }
    MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
    world().log.clear();
    m.log.clear();
  }
  static void unload(T &d, Model &m, int after) {
    if (after == 0 || (!Di::dbl && after >= 2)) {
      bytes want = m.drain(), got = drain_form(d, 0, want.size());
      MC_CHECK(got == want, "response " << mc::hex(got) << " instead of " << mc::hex(want));
    } else {
      std::size_t n = after == 1 ? m.rest().size() + 1 : after == 2 ? 0 : 1;
      for (std::size_t j = 0; j < n; j++) {
        byte w = m.get(), g = d.get();
        MC_CHECK(g == w, "response byte " << j << ": " << int(g) << " instead of " << int(w));
      }
    }
    MC_CHECK(d.is_loaded() == m.loaded(), "is_loaded " << d.is_loaded());
  }
  // The same requests, asked to the used dispatcher and to a fresh one
  static void probe(T &d, Model &m) {
    unload(d, m, 0);
    Slot<T> f;
    std::vector<std::vector<Ev>> logs(2);
    for (std::size_t i = 0; i <= sp().sigs.size() && i < 6; i++) {
      bytes b = i < sp().sigs.size() && i < 5 ? packet(i, 1) : sp().index_bytes(sp().sigs.size());
      T *t[2] = {&d, &*f};
      std::vector<int> st[2];
      bytes out[2];
      for (int k = 0; k < 2; k++) {
        world().log.clear();
        for (byte x : b)
          st[k].push_back(to_status(t[k]->put(x)) + (t[k]->is_loaded() ? 10 : 0));
        logs[k] = world().log;
        t[k]->write_to(std::back_inserter(out[k]));
        st[k].push_back(t[k]->is_loaded());
        st[k].push_back(t[k]->get());
      }
      MC_CHECK(st[0] == st[1], "a used dispatcher and a fresh one report different statuses for " << mc::hex(b));
      MC_CHECK(logs[0] == logs[1], "a used dispatcher calls " << evstr(logs[0]) << ", a fresh one " << evstr(logs[1]));
      MC_CHECK(out[0] == out[1], "a used dispatcher answers " << mc::hex(out[0]) << ", a fresh one " << mc::hex(out[1]));
      m.put(b[0]);
      for (std::size_t j = 1; j < b.size(); j++)
        m.put(b[j]);
      m.drain();
    }
    world().log.clear();
    m.log.clear();
    mc::count("probes");
  }
  static int nevents() { return int(sp().sigs.size() < 4 ? sp().sigs.size() : 4) * (AFTER + 1) + 2; }
  static void event(Sys &s, int e) {
    int n = int(sp().sigs.size() < 4 ? sp().sigs.size() : 4);
    if (!Di::dbl)
      unload(*s.d, s.m, 0);
    if (e < n * AFTER) {
      feed(*s.d, s.m, packet(e / AFTER, e & 1), false);
      unload(*s.d, s.m, e % AFTER);
    } else if (e < n * (AFTER + 1))
      feed(*s.d, s.m, packet(e - n * AFTER, 0), true);
    else
      feed(*s.d, s.m, sp().index_bytes(e == n * (AFTER + 1) ? sp().sigs.size() : sp().w == 1 ? 255 : 0xff80), false);
  }
  static void histories(int depth) {
    mc::explore(Di::name() + " histories", [&](mc::Ch &ch) {
      Sys s;
      for (int k = 0; k < depth; k++) {
        event(s, ch(nevents(), "event"));
        mc::outcome(mc::hash_str(RawKey<T>::get()(s.d)));
      }
      probe(*s.d, s.m);
    });
  }
  // One event (or two alternating ones) repeated past the capacity of any 8 or 16-bit counter
  static void endurance(u64 times) {
    const int n = nevents();
    for (int a = 0; a < n; a++) {
      if (!Di::dbl && a < n - 2 && a < int(n - 2) / (AFTER + 1) * AFTER && a % AFTER >= 2)
        continue;
      Sys s;
      u64 next = 0;
      mc::sweep(MC_STR(Di::name() << " endurance of event " << a), 0, times, [&](u64 i) {
        if (mc::g().replay) {
          for (; next < i; next++)
            event(s, a);
        }
        event(s, a);
        if (i % 16384 == 255 || i == 254 || i == 65535 || i == 65534 || i == 256 || i == 65536 || i + 1 == times)
          probe(*s.d, s.m);
      });
    }
  }
};

struct Histories {
  int depth;
  template<typename Di>
  void run() {
    Used<Di>::histories(depth);
  }
};
struct Endurance {
  u64 times;
  template<typename Di>
  void run() {
    Used<Di>::endurance(times);
  }
};

#if PART == 9
// Without instrumentation, past the capacity of a 32-bit counter
template<typename T>
void long_run(const char *name) {
  mc::sweep(name, 0, 1, [&](u64) {
    T d;
    for (u64 i = 0; i < (1ull << 32) + 1000; i++) {
      MC_CHECK(d.put(0x80) == upd::packet_status::DROPPED_PACKET, "packet " << i << " is not dropped");
      if ((i & 0xffffff) == 0)
        mc::g().rec->progress++;
    }
    mc::step(1ull << 32);
    MC_CHECK(!d.is_loaded(), "loaded");
    MC_CHECK(d.put(0) == upd::packet_status::LOADING_PACKET && d.put(7) == upd::packet_status::RESOLVED_PACKET && d.is_loaded(), "request");
  });
}
#endif

int main(int argc, char **argv) {
  mc::init(argc, argv);
  int d = mc::thorough() ? 4 : 2;
#if PART == 0
  all_dispatchers<Ring<LE, TC, u16(u8), void(), u8(u8, bool)>>(Histories{mc::thorough() ? 4 : 3});
#elif PART == 1
  all_dispatchers<Ring<BE, OB, O(i8), u32(), void(P)>>(Histories{mc::thorough() ? 4 : 3});
#elif PART == 2
  all_dispatchers<WideRing<LE, TC, 257, void(), u8(u8), u16(i16)>>(Histories{d});
  all_dispatchers<Ring<BE, SM, void(u8)>>(Histories{4});
  all_dispatchers<Ring<LE, OC, u8(std::array<u8, 300>), std::array<u8, 260>(bool), void()>>(Histories{d});
#elif PART == 3
  all_dispatchers<Ring<BE, OC, u16(u8), void()>>(Endurance{mc::thorough() ? 300000u : 66000u});
#elif PART == 4
  all_dispatchers<WideRing<BE, TC, 256, void(), u8(u8)>>(Endurance{mc::thorough() ? 300000u : 66000u});
#elif PART == 9
  using Rg = Ring<LE, TC, u16(u8), void()>;
  long_run<Disp<Rg, false, WEAK>::type>("single, 2^32 dropped packets");
  long_run<Disp<Rg, true, ANY>::type>("double, 2^32 dropped packets");
#endif
  return mc::finish();
}
