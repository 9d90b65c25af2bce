// C10: responses are delivered once, in order, and loading does not disturb them.
#include "disp.hpp"
using namespace rig;

struct Go {
  bytes alpha;
  unsigned states, depth;
  bool raw, forms;
  template<typename Di>
  void run() {
    DispOpts o;
    o.alphabet = alpha;
    o.get = true;
    o.drain = true;
    o.forms = forms;
    o.raw = raw;
    disp_bfs<Di>(raw ? "concrete" : "model", o, states, depth);
  }
};
struct Packets {
  int n;
  template<typename Di>
  void run() {
    disp_packets<Di>("", n, true);
  }
};
using Big = std::array<u8, 300>;

int main(int argc, char **argv) {
  mc::init(argc, argv);
  unsigned lim = mc::thorough() ? 60000u : 2500u;
#if PART == 0
  Go g{{0, 1, 2, 3}, lim, 12, true, false};
  all_dispatchers<Ring<LE, TC, u16(), void(), u8(u8)>>(g);
  Go h{{0, 1, 2, 0xff}, lim, 12, true, true};
  all_dispatchers<Ring<BE, SM, i16(i8), void(bool)>>(h);
#elif PART == 1
  Go g{{0, 1, 2, 3, 0xff}, lim * 2, 16, false, true};
  all_dispatchers<Ring<LE, OC, void(), O(u8), u32(), std::array<u8, 3>(bool)>>(g);
  Go h{{0, 1, 2, 0x80}, lim * 2, 16, false, true};
  all_dispatchers<Ring<BE, OB, W(W), D(i8), void(u8, u8)>>(h);
#elif PART == 2
  Go g{{0, 1, 2, 3, 0xff}, lim, 16, false, false};
  all_dispatchers<WideRing<LE, TC, 258, u8(), u16(u8), void()>>(g);
#elif PART == 3
  Packets p{mc::thorough() ? 3 : 2};
  all_dispatchers<Ring<LE, TC, Big(u8), std::array<u16, 128>(), void(), std::array<u32, 64>(u16)>>(p);
  all_dispatchers<Ring<BE, SM, N(u8), std::array<i16, 130>(bool), i64()>>(p);
#endif
  return mc::finish();
}
