// C09: byte-by-byte loading resolves each request exactly at its last byte.
#include "disp.hpp"
using namespace rig;

template<bool Raw>
struct Go {
  bytes alpha;
  unsigned states, depth;
  template<typename Di>
  void run() {
    DispOpts o;
    o.alphabet = alpha;
    o.get = false;
    o.drain = true; // a single drain: single-buffered dispatchers only load once the response is unloaded
    o.raw = Raw;
    disp_bfs<Di>(Raw ? "concrete" : "model", o, states, depth);
  }
};

template<typename Rg>
void small(bytes alpha) {
  Go<true> g{alpha, mc::thorough() ? 60000u : 1500u, 12};
  all_dispatchers<Rg>(g);
}
template<typename Rg>
void large(bytes alpha) {
  Go<false> g{alpha, mc::thorough() ? 200000u : 6000u, 14};
  all_dispatchers<Rg>(g);
}

struct Packets {
  int n;
  template<typename Di>
  void run() {
    disp_packets<Di>("", n, false);
  }
};
using Big = std::array<u8, 300>;

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  small<Ring<LE, TC, void(), u8(u8), u16(u8, bool)>>({0, 1, 2, 3, 0xff});
  small<Ring<BE, SM, i16(const i16 &), void(), u8()>>({0, 1, 2, 3, 0x80});
  small<Ring<BE, OB, void(i8)>>({0, 1, 0x7f, 0xff});
#elif PART == 1
  large<Ring<LE, OC, void(), u32(i32), O(u8), u8(std::array<u8, 2>, bool)>>({0, 1, 2, 3, 4, 0x80, 0xff});
  large<Ring<BE, TC, W(W), void(const u8 (&)[3]), u64(), i64(P)>>({0, 1, 2, 3, 4, 0xfe});
  large<Ring<BE, OB, i8(i8, i16), N(u8)>>({0, 1, 2, 0x7f, 0xff});
#elif PART == 2
  large<WideRing<LE, TC, 258, void(), u8(u8), void(u16)>>({0, 1, 2, 3, 0xff});
  large<WideRing<BE, SM, 256, void(), u16(u8), i8(i16)>>({0, 1, 2, 0xff});
#elif PART == 3
  Packets p{mc::thorough() ? 3 : 2};
  all_dispatchers<Ring<LE, TC, void(const Big &), u8(u8 (&&)[256]), void(), u16(std::array<u16, 128>)>>(p);
  all_dispatchers<Ring<BE, OC, u8(u64, i64, u32, i32, u16, i16, u8, i8, bool), bool(N, O, P, W, D), i8(const i16 (&)[130])>>(p);
#endif
  return mc::finish();
}
