// Buffered dispatchers as users derive them, with buffers and layouts of their own.
#pragma once

#include "disp.hpp"

namespace rig {

// Memory of exactly `n` bytes, so that any access outside of it is seen
struct Store {
  byte *p;
  explicit Store(std::size_t n) : p(static_cast<byte *>(std::malloc(n ? n : 1))) { std::memset(p, 0xc3, n); }
  Store(const Store &) = delete;
  ~Store() { std::free(p); }
};
struct Other { // something else in the object
  u64 before = 0x1122334455667788ull;
  bool intact() const { return before == 0x1122334455667788ull; }
};
struct Poly {
  virtual ~Poly() {}
  virtual int tag() const { return 5; }
};

enum Layout { EXTERNAL, SHARED, LARGER, SECOND, VIRTUAL, VBASE, DEEP, FRIENDS, REVERSED, LAYOUTS };
inline const char *layout_name(int l) {
  static const char *n[] = {"external buffers",       "one external buffer",    "larger buffers",    "buffers, second base",
                            "buffers, virtual",        "buffers, virtual base",  "derived again",     "private buffers",
                            "buffers stored backwards"};
  return n[l];
}

template<typename D>
struct Sizes {
  using dbl = upd::double_buffered_dispatcher<D>;
  enum : std::size_t { in = dbl::input_buffer_size, out = dbl::output_buffer_size, any = in > out ? in : out };
};

template<typename D, Layout L>
struct Custom;

template<typename D>
struct Custom<D, EXTERNAL> : upd::buffered_dispatcher<Custom<D, EXTERNAL>, D> {
  Store i{Sizes<D>::in}, o{Sizes<D>::out};
  byte *ibuf_begin() { return i.p; }
  byte *obuf_begin() { return o.p; }
  bool intact() const { return true; }
};
template<typename D>
struct Custom<D, SHARED> : upd::buffered_dispatcher<Custom<D, SHARED>, D> {
  Store b{Sizes<D>::any};
  byte *ibuf_begin() { return b.p; }
  byte *obuf_begin() { return b.p; }
  bool intact() const { return true; }
};
template<typename D>
struct Custom<D, LARGER> : upd::buffered_dispatcher<Custom<D, LARGER>, D> {
  byte i[Sizes<D>::in + 9], o[Sizes<D>::out + 5];
  Custom() {
    std::memset(i, 0xc3, sizeof i);
    std::memset(o, 0xc3, sizeof o);
  }
  byte *ibuf_begin() { return i; }
  byte *obuf_begin() { return o; }
  bool intact() const {
    for (std::size_t k = Sizes<D>::in; k < sizeof i; k++)
      if (i[k] != 0xc3)
        return false;
    for (std::size_t k = Sizes<D>::out; k < sizeof o; k++)
      if (o[k] != 0xc3)
        return false;
    return true;
  }
};
template<typename D>
struct Custom<D, SECOND> : Other, upd::buffered_dispatcher<Custom<D, SECOND>, D> {
  byte i[Sizes<D>::in], o[Sizes<D>::out + 1];
  Other after;
  byte *ibuf_begin() { return i; }
  byte *obuf_begin() { return o; }
  bool intact() const { return Other::intact() && after.intact(); }
};
template<typename D>
struct Custom<D, VIRTUAL> : upd::buffered_dispatcher<Custom<D, VIRTUAL>, D> {
  byte i[Sizes<D>::in], o[Sizes<D>::out + 1];
  Other after;
  virtual ~Custom() {}
  virtual byte *ibuf_begin() { return i; }
  virtual byte *obuf_begin() { return o; }
  bool intact() const { return after.intact(); }
};
template<typename D>
struct Custom<D, VBASE> : virtual Poly, upd::buffered_dispatcher<Custom<D, VBASE>, D> {
  byte i[Sizes<D>::in], o[Sizes<D>::out + 1];
  Other after;
  byte *ibuf_begin() { return i; }
  byte *obuf_begin() { return o; }
  bool intact() const { return after.intact() && tag() == 5; }
};
template<typename D>
struct Custom<D, DEEP> : Other, upd::double_buffered_dispatcher<D> {
  virtual ~Custom() {}
  bool intact() const { return Other::intact(); }
};
template<typename D>
struct Custom<D, FRIENDS> : upd::buffered_dispatcher<Custom<D, FRIENDS>, D> {
  bool intact() const { return after.intact(); }

private:
  friend struct upd::buffered_dispatcher<Custom<D, FRIENDS>, D>;
  byte i[Sizes<D>::in], o[Sizes<D>::out + 1];
  Other after;
  byte *ibuf_begin() { return i; }
  byte *obuf_begin() { return o; }
};
// the output buffer lies before the input one, in one block
template<typename D>
struct Custom<D, REVERSED> : upd::buffered_dispatcher<Custom<D, REVERSED>, D> {
  Store b{Sizes<D>::in + Sizes<D>::out};
  byte *ibuf_begin() { return b.p + Sizes<D>::out; }
  byte *obuf_begin() { return b.p; }
  bool intact() const { return true; }
};

template<typename Rg, upd::action_features AF, Layout L>
struct CustomDisp {
  using ring = Rg;
  using plain = upd::dispatcher<typename Rg::keyring, AF>;
  using type = Custom<plain, L>;
  static constexpr bool dbl = L != SHARED;
  static constexpr upd::action_features af = AF;
  static std::string name() {
    return std::string(layout_name(L)) + (AF == upd::action_features::ANY ? "/any " : "/weak ") + Rg::name();
  }
};

template<typename Rg, upd::action_features AF, typename G>
void all_layouts(G g) {
  g.template run<CustomDisp<Rg, AF, EXTERNAL>>();
  g.template run<CustomDisp<Rg, AF, SHARED>>();
  g.template run<CustomDisp<Rg, AF, LARGER>>();
  g.template run<CustomDisp<Rg, AF, SECOND>>();
  g.template run<CustomDisp<Rg, AF, VIRTUAL>>();
  g.template run<CustomDisp<Rg, AF, VBASE>>();
  g.template run<CustomDisp<Rg, AF, DEEP>>();
  g.template run<CustomDisp<Rg, AF, FRIENDS>>();
  g.template run<CustomDisp<Rg, AF, REVERSED>>();
}

} // namespace rig
