// C26: a dispatcher derived from buffered_dispatcher with buffers of its own works like the supplied ones.
#include "cuts.hpp"
#include "custom.hpp"
using namespace rig;

// The state machine, with the integrity of what surrounds the buffers
template<typename Di>
struct Own : DispSys<Di> {
  Own(const DispOpts &o, const Spec &s) : DispSys<Di>(o, s) {}
  void apply(int op) {
    DispSys<Di>::apply(op);
    MC_CHECK(this->d->intact(), "bytes outside of the buffers were written");
  }
};

struct Bfs {
  bytes alpha;
  unsigned states;
  template<typename Di>
  void run() {
    static const Spec sp = spec_of<typename Di::ring>();
    DispOpts o;
    o.alphabet = alpha;
    o.get = o.drain = o.forms = true;
    o.raw = false;
    mc::bfs(Di::name(), [&] { return std::unique_ptr<Own<Di>>(new Own<Di>(o, sp)); }, states, 14);
  }
};
struct Streams {
  template<typename Di>
  void run() {
    Cuts<Di>::go("one packet, all forms", 1, ALL, ALL, true);
    Cuts<Di>::go("two packets", 2, mc::thorough() ? ALL : 1, mc::thorough() ? ALL : 1, false);
  }
};
struct Large {
  template<typename Di>
  void run() {
    disp_packets<Di>("", 2, true);
  }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
  const unsigned n = mc::thorough() ? 20000u : 1000u;
#if PART == 0
  all_layouts<Ring<LE, TC, u16(u8), void(), u8(u8, bool)>, ANY>(Bfs{{0, 1, 2, 3, 0xff}, n});
  all_layouts<Ring<BE, OB, O(i8), u32(), void(P)>, WEAK>(Bfs{{0, 1, 2, 3}, n});
#elif PART == 1
  all_layouts<Ring<LE, OC, u8(u8), i16(), void(bool)>, ANY>(Streams{});
  all_layouts<Ring<BE, SM, void(), W(W)>, WEAK>(Streams{});
#elif PART == 2
  all_layouts<Ring<LE, TC, u8(std::array<u8, 300>), std::array<u8, 260>(bool), void()>, ANY>(Large{});
  all_layouts<WideRing<BE, TC, 257, void(), u16(u8)>, WEAK>(Bfs{{0, 1, 2, 0xff}, n / 3});
#endif
  return mc::finish();
}
