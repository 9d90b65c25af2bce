// C03: tuples are gapless concatenations and setting an element touches no other.
#include "tup.hpp"
using namespace rig;

struct Iface {
  virtual ~Iface() = default;
  virtual void set(std::size_t i, const Vals &v, int form) = 0;
  virtual Vals get(std::size_t i, int form) = 0;
  virtual Vals invoke() = 0;
  virtual void raw(std::size_t i, byte b, int form) = 0;
  virtual bytes content() = 0;
  virtual void copy(int form, std::size_t touch) = 0;
  virtual int nassign() = 0; // assignments from tuples and views of other formats
  virtual const char *assign_name(int k) = 0;
  virtual void assign(int k, const std::vector<Vals> &vs) = 0;
  virtual void construct(int form, const std::vector<Vals> &vs) = 0;
};

template<endianess E, signed_mode S, typename... Ts>
struct Impl : Iface {
  using T = upd::tuple<E, S, Ts...>;
  using O_ = Ops<T, Ts...>;
  // surrounded by guards
  struct Holder {
    byte before[8];
    T t;
    byte after[8];
    Holder() : t() {
      std::memset(before, 0xe7, 8);
      std::memset(after, 0xe7, 8);
    }
  } h;
  T &t;
  Impl() : t(h.t) {}
  void set(std::size_t i, const Vals &v, int form) override { O_::set(t, i, v, form); }
  Vals get(std::size_t i, int form) override { return O_::get(t, i, form); }
  Vals invoke() override { return O_::invoke(t); }
  void raw(std::size_t i, byte b, int form) override {
    if (form == 0)
      t[i] = b;
    else if (form == 1)
      *(t.begin() + i) = b;
    else
      *(t.src() + i) = b;
  }
  bytes content() override {
    for (int i = 0; i < 8; i++)
      MC_CHECK(h.before[i] == 0xe7 && h.after[i] == 0xe7, "bytes around the tuple were modified");
    const T &c = t;
    bytes b(c.begin(), c.end());
    MC_CHECK(b.size() == T::size, "begin() and end() delimit " << b.size() << " bytes, size is " << T::size);
    for (std::size_t i = 0; i < b.size(); i++)
      MC_CHECK(c[i] == b[i] && t[i] == b[i] && t.begin()[i] == b[i] && c.src()[i] == b[i], "accessors disagree on byte " << i);
    MC_CHECK(t.end() == t.begin() + T::size, "end()");
    return b;
  }
  void copy(int form, std::size_t touch) override {
    if (form == 0) { // a modified copy does not alter the original
      T c(t);
      for (std::size_t i = 0; i < T::size; i++)
        MC_CHECK(c[i] == t[i], "a copy differs at byte " << i);
      c[touch] = byte(~c[touch]);
    } else if (form == 1) {
      T c;
      c = t;
      for (std::size_t i = 0; i < T::size; i++)
        MC_CHECK(c[i] == t[i], "an assigned copy differs at byte " << i);
      c[touch] = byte(~c[touch]);
    } else {
      T c(t);
      t = static_cast<T &&>(c);
    }
  }
  enum { NA = 7 };
  int nassign() override { return has_c_array<Ts...>::value ? 1 : NA; }
  const char *assign_name(int k) override {
    static const char *n[] = {"tuple of the same format", "tuple LE/SM", "tuple BE/TC", "tuple BE/OB",
                              "view on a list BE/OC", "view on unaligned bytes LE/OB", "view of a tuple LE/TC"};
    return n[k];
  }
  template<endianess E2, signed_mode S2>
  void from_tuple(const std::vector<Vals> &vs) {
    t = MkTuple<E2, S2, Ts...>::make(vs);
  }
  template<endianess E2, signed_mode S2, typename It>
  upd::tuple_view<It, E2, S2, Ts...> view(It it) {
    return upd::make_view<Ts...>(upd::endianess_h<E2>{}, upd::signed_mode_h<S2>{}, it);
  }
  void foreign(int k, const std::vector<Vals> &vs, std::false_type) {
    switch (k) {
    case 1:
      return from_tuple<LE, SM>(vs);
    case 2: {
      upd::tuple<BE, TC, Ts...> o = MkTuple<BE, TC, Ts...>::make(vs);
      t = std::move(o);
      return;
    }
    case 3: {
      upd::tuple<BE, OB, Ts...> o = MkTuple<BE, OB, Ts...>::make(vs);
      T &r = (t = std::move(o));
      MC_CHECK(&r == &t, "the assignment returns something else than the tuple");
      return;
    }
    case 4: {
      auto o = MkTuple<BE, OC, Ts...>::make(vs);
      std::list<byte> l(o.begin(), o.end());
      t = view<BE, OC>(l.begin());
      return;
    }
    case 5: {
      auto o = MkTuple<LE, OB, Ts...>::make(vs);
      Exact x(o.size + 1);
      std::copy(o.begin(), o.end(), x.p + 1);
      const byte *p = x.p + 1;
      auto v = view<LE, OB>(p);
      t = std::move(v);
      return;
    }
    case 6: {
      const auto o = MkTuple<LE, TC, Ts...>::make(vs);
      t = o.template view<0, sizeof...(Ts)>();
      return;
    }
    }
  }
  void foreign(int, const std::vector<Vals> &, std::true_type) {}
  void assign(int k, const std::vector<Vals> &vs) override {
    if (k == 0) {
      const T o = MkTuple<E, S, Ts...>::make(vs);
      t = o;
    } else
      foreign(k, vs, has_c_array<Ts...>{});
  }
  void construct(int form, const std::vector<Vals> &vs) override {
    t.~T();
    std::memset(static_cast<void *>(&h.t), 0xa5, sizeof h.t);
    if (form == 0)
      ::new (static_cast<void *>(&h.t)) T();
    else if (form == 1)
      ::new (static_cast<void *>(&h.t)) T(MkTuple<E, S, Ts...>::make(vs));
    else
      ::new (static_cast<void *>(&h.t))
          T(upd::make_tuple<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}));
  }
};

struct Sys {
  const Shape &sh;
  std::unique_ptr<Iface> x;
  bytes model;
  struct Op {
    enum Kind { SET, ASSIGN, RAW, COPY, CONS } k;
    std::size_t i, j;
    byte b;
  };
  std::vector<Op> ops;
  Sys(const Shape &sh, Iface *p) : sh(sh), x(p), model(sh.zero()) {
    check("default construction");
    for (std::size_t i = 0; i < sh.elems.size(); i++)
      for (std::size_t j = 0; j < sh.elems[i].opts.size(); j++)
        ops.push_back(Op{Op::SET, i, j, 0});
    for (int k = 0; k < x->nassign(); k++)
      for (int j = 0; j < 3; j++)
        ops.push_back(Op{Op::ASSIGN, std::size_t(k), std::size_t(j), 0});
    const bool few = sh.size > (mc::thorough() ? 6 : 4);
    for (std::size_t i = 0; i < sh.size; i++)
      if (!few || i == 0 || i + 1 == sh.size || (sh.size < 30 && is_edge(i)))
        for (byte b : few ? bytes{0x80} : bytes{0x00, 0x80, 0xff})
          ops.push_back(Op{Op::RAW, i, i % 3, b});
    for (int k = 0; k < 3; k++)
      ops.push_back(Op{Op::COPY, std::size_t(k), sh.size - 1, 0});
    for (int k = 0; k < 3; k++)
      ops.push_back(Op{Op::CONS, std::size_t(k), 2, 0});
  }
  bool is_edge(std::size_t i) const {
    for (auto &e : sh.elems)
      if (e.off == i || e.off + e.size == i + 1)
        return true;
    return false;
  }
  std::vector<Vals> values(std::size_t j) const {
    std::vector<Vals> v;
    for (std::size_t i = 0; i < sh.elems.size(); i++)
      v.push_back(sh.elems[i].opts[(j + i) % sh.elems[i].opts.size()]);
    return v;
  }
  int nops() const { return int(ops.size()); }
  std::string op_name(int n) const {
    const Op &o = ops[n];
    switch (o.k) {
    case Op::SET:
      return MC_STR("set<" << o.i << ">" << vstr(sh.elems[o.i].opts[o.j]));
    case Op::ASSIGN:
      return MC_STR("assign from " << x->assign_name(int(o.i)) << " #" << o.j);
    case Op::RAW:
      return MC_STR("byte " << o.i << " = " << int(o.b));
    case Op::COPY:
      return MC_STR("copy " << o.i);
    default:
      return MC_STR("construct " << o.i);
    }
  }
  bool enabled(int) const { return true; }
  void apply(int n) {
    const Op &o = ops[n];
    switch (o.k) {
    case Op::SET:
      x->set(o.i, sh.elems[o.i].opts[o.j], int(o.j & 1));
      sh.put(model, o.i, sh.elems[o.i].opts[o.j]);
      MC_CHECK(x->get(o.i, 0) == sh.elems[o.i].opts[o.j], "element " << o.i << " reads " << vstr(x->get(o.i, 0)) << " after "
                                                                     << vstr(sh.elems[o.i].opts[o.j]) << " was written");
      break;
    case Op::ASSIGN: {
      auto vs = values(o.j);
      x->assign(int(o.i), vs);
      for (std::size_t i = 0; i < vs.size(); i++)
        sh.put(model, i, vs[i]);
      break;
    }
    case Op::RAW:
      x->raw(o.i, o.b, int(o.j));
      model[o.i] = o.b;
      break;
    case Op::COPY:
      x->copy(int(o.i), o.j);
      break;
    case Op::CONS: {
      auto vs = values(o.j);
      x->construct(int(o.i), vs);
      model = sh.zero();
      if (o.i == 1)
        for (std::size_t i = 0; i < vs.size(); i++)
          sh.put(model, i, vs[i]);
      break;
    }
    }
    check("after the operation");
  }
  void check(const char *what) {
    bytes c = x->content();
    MC_CHECK(c == model, what << ": content " << mc::hex(c) << " instead of " << mc::hex(model));
    Vals all;
    for (std::size_t i = 0; i < sh.elems.size(); i++) {
      Vals want = sh.decode(i, model), got = x->get(i, int(i & 1));
      MC_CHECK(got == want, what << ": element " << i << " reads " << vstr(got) << " instead of " << vstr(want));
      all.insert(all.end(), want.begin(), want.end());
    }
    Vals inv = x->invoke();
    MC_CHECK(inv == all, what << ": invoke passes " << vstr(inv) << " instead of " << vstr(all));
  }
  std::string key() const { return std::string(reinterpret_cast<const char *>(model.data()), model.size()); }
};

template<endianess E, signed_mode S, typename... Ts>
void go() {
  static const Shape sh = shape_of<E, S, Ts...>(sizeof...(Ts) > 4 ? 2 : 3);
  static_assert(sizeof(upd::tuple<E, S, Ts...>) > 0, "");
  const std::size_t announced = upd::tuple<E, S, Ts...>::size; // no constant expression is required to be well-formed here
  mc::explore(sh.name + " size", [&](mc::Ch &) {
    MC_CHECK(announced == sh.size, sh.name << " announces " << announced << " bytes instead of " << sh.size);
  });
  const bool th = mc::thorough();
  mc::bfs(sh.name, [&] { return std::unique_ptr<Sys>(new Sys(sh, new Impl<E, S, Ts...>)); }, th ? (sh.size > 30 ? 3000 : 20000) : sh.size > 100 ? 30 : sh.size > 25 ? 60 : 200,
          th ? 12 : 6);
}

// All the formats in turn
#define GO(N, ...)                                                                                                     \
  go<((N) & 1) ? BE : LE, ((N) / 2 % 4) == 0 ? TC : ((N) / 2 % 4) == 1 ? SM : ((N) / 2 % 4) == 2 ? OB : OC, __VA_ARGS__>()

template<typename T, int N>
void pairs() {
  GO(N + 0, T, bool);
  GO(N + 1, T, i8);
  GO(N + 2, T, u16);
  GO(N + 3, T, i32);
  GO(N + 4, T, u64);
  GO(N + 5, T, O);
  GO(N + 6, T, W);
  using a3 = std::array<i16, 3>;
  GO(N + 7, T, a3);
}

template<int N>
void singles() {
  GO(N, bool);
  GO(N, i8);
  GO(N, u16);
  GO(N, i16);
  GO(N, u8[2]);
  GO(N, W);
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
  using A16 = std::array<i16, 3>;
  using A8 = std::array<u8, 300>;
  (void)sizeof(A16);
  (void)sizeof(A8);
#if PART == 0
  pairs<bool, 0>();
  pairs<i8, 1>();
  singles<0>();
  singles<3>();
#elif PART == 1
  pairs<u16, 2>();
  pairs<i32, 3>();
  singles<1>();
  singles<6>();
#elif PART == 2
  pairs<u64, 4>();
  pairs<O, 5>();
  singles<2>();
  singles<5>();
#elif PART == 3
  pairs<W, 6>();
  pairs<A16, 7>();
  singles<4>();
  singles<7>();
#elif PART == 4
  GO(0, u8, i16, bool);
  GO(1, i32, u8, i8, u64);
  GO(2, u8[3], i16[2], u32);
  GO(3, D, P, N);
  GO(4, N, bool, O);
  GO(5, i64, i64, u8);
  GO(6, bool, bool, bool, bool, bool, i8);
  GO(7, P, u8, A16, W, u16, D);
  GO(8, A8, i16, u8);
  GO(9, u8, A8, i32, A8, bool);
  GO(10, i64[4], char, long long, unsigned long, wchar_t, char16_t);
  GO(11, u8, u8, u8, u8, u8, u8, u8, u8, i16, i16, i16, i16, u32, u32, i64, bool, O, P, W, N);
  GO(15, bool[4], u16[130], bool);
#endif
  return mc::finish();
}
