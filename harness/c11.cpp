// C11: the result does not depend on how the byte stream is cut or delivered.
#include "cuts.hpp"
using namespace rig;

struct Go {
  template<typename Di>
  void run() {
    Cuts<Di>::go("one packet, all forms", 1, ALL, ALL, true);
    if (mc::thorough()) {
      Cuts<Di>::go("two packets", 2, ALL, ALL, true);
      Cuts<Di>::go("three packets", 3, 2, 2, false);
    } else {
      Cuts<Di>::go("two packets, all forms first", 2, ALL, 1, false);
      Cuts<Di>::go("two packets, all forms last", 2, 1, ALL, false);
    }
  }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
  Go g;
#if PART == 0
  all_dispatchers<Ring<LE, TC, u16(), void(), u8(u8)>>(g);
  all_dispatchers<Ring<BE, OC, void(bool), i8(u16)>>(g);
#elif PART == 1
  all_dispatchers<Ring<BE, SM, i16(i8, bool), void(), O(u8)>>(g);
  all_dispatchers<Ring<LE, OB, u8(std::array<u8, 2>), W(W)>>(g);
#elif PART == 2
  all_dispatchers<WideRing<LE, TC, 257, void(), u8(u8)>>(g);
#elif PART == 3
  all_dispatchers<Ring<BE, TC, u32(const u8 (&)[2]), void(P)>>(g);
#endif
  return mc::finish();
}
