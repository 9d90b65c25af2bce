// C04: views read and write exactly the bytes they are bound to.
#include "tup.hpp"
using namespace rig;

// A forward iterator over a range of bytes which does not tolerate any step or access outside of it. Multi-pass; each access
// is accounted for in a map of the touched bytes.
struct Track {
  byte *p;
  std::size_t n;
  std::vector<int> *rd, *wr;
};
struct TrackIt {
  using iterator_category = std::forward_iterator_tag;
  using value_type = byte;
  using difference_type = std::ptrdiff_t;
  using pointer = byte *;
  struct Ref {
    const Track *t;
    std::size_t i;
    operator byte() const {
      (*t->rd)[i]++;
      return t->p[i];
    }
    const Ref &operator=(byte b) const {
      (*t->wr)[i]++;
      t->p[i] = b;
      return *this;
    }
    const Ref &operator=(const Ref &o) const { return *this = byte(o); }
  };
  using reference = Ref;
  const Track *t;
  std::size_t i;
  TrackIt() : t(nullptr), i(0) {}
  TrackIt(const Track *t, std::size_t i) : t(t), i(i) {}
  Ref operator*() const {
    if (!t || i >= t->n)
      mc::fail("an iterator was dereferenced out of its range");
    return Ref{t, i};
  }
  TrackIt &operator++() {
    if (!t || i >= t->n)
      mc::fail("an iterator went past the end of its range");
    i++;
    return *this;
  }
  TrackIt operator++(int) {
    TrackIt r = *this;
    ++*this;
    return r;
  }
  bool operator==(const TrackIt &o) const { return i == o.i && t == o.t; }
  bool operator!=(const TrackIt &o) const { return !(*this == o); }
};

enum Kind { PTR, VECTOR, DEQUE, LIST, ARRAY, TRACK, REVERSE, NKINDS };
const char *kind_name[] = {"pointer", "vector", "deque", "list", "std::array", "forward iterator", "reverse iterator"};

// Stores `g` guard bytes, `n` bytes, `g` guard bytes. `all()` gives them in the order of the iterators.
template<Kind K, std::size_t N, std::size_t G>
struct Back;
template<std::size_t N, std::size_t G>
struct Back<PTR, N, G> {
  using It = byte *;
  std::unique_ptr<byte[]> mem;
  std::size_t align;
  explicit Back(std::size_t align) : mem(new byte[align + 2 * G + N]), align(align) {}
  It at(std::size_t i) { return mem.get() + align + i; }
};
template<std::size_t N, std::size_t G>
struct Back<VECTOR, N, G> {
  using It = std::vector<byte>::iterator;
  std::vector<byte> c;
  explicit Back(std::size_t) : c(2 * G + N) {}
  It at(std::size_t i) { return c.begin() + i; }
};
template<std::size_t N, std::size_t G>
struct Back<DEQUE, N, G> {
  using It = std::deque<byte>::iterator;
  std::deque<byte> c;
  // so that the range crosses the boundary of the chunks of the deque (512 bytes in libstdc++)
  explicit Back(std::size_t) : c(510 + 2 * G + N) {
    for (std::size_t i = 0; i < 510 - N / 2 - G; i++)
      c.pop_front();
    c.resize(2 * G + N);
  }
  It at(std::size_t i) { return c.begin() + i; }
};
template<std::size_t N, std::size_t G>
struct Back<LIST, N, G> {
  using It = std::list<byte>::iterator;
  std::list<byte> c;
  explicit Back(std::size_t) : c(2 * G + N) {}
  It at(std::size_t i) { return std::next(c.begin(), i); }
};
template<std::size_t N, std::size_t G>
struct Back<ARRAY, N, G> {
  using It = typename std::array<byte, N + 2 * G>::iterator;
  std::array<byte, N + 2 * G> c;
  explicit Back(std::size_t) {}
  It at(std::size_t i) { return c.begin() + i; }
};
template<std::size_t N, std::size_t G>
struct Back<REVERSE, N, G> {
  using It = std::reverse_iterator<byte *>;
  byte c[N + 2 * G];
  explicit Back(std::size_t) {}
  It at(std::size_t i) { return It(c + N + 2 * G - i); }
};
template<std::size_t N, std::size_t G>
struct Back<TRACK, N, G> { // no guard bytes: the iterators themselves refuse to leave the range
  using It = TrackIt;
  byte c[N + 2 * G];
  std::vector<int> rd, wr;
  Track t;
  explicit Back(std::size_t) : rd(N), wr(N), t{c + G, N, &rd, &wr} {}
  TrackIt range() { return TrackIt(&t, 0); }
  byte *at(std::size_t i) { return c + i; }
};
template<Kind K, std::size_t N, std::size_t G>
struct bind {
  static typename Back<K, N, G>::It get(Back<K, N, G> &b) { return b.at(G); }
};
template<std::size_t N, std::size_t G>
struct bind<TRACK, N, G> {
  static TrackIt get(Back<TRACK, N, G> &b) { return b.range(); }
};

struct Iface {
  virtual ~Iface() {}
  virtual void set(std::size_t i, const Vals &v, int form) = 0;
  virtual Vals get(std::size_t i, int form) = 0;
  virtual Vals invoke() = 0;
  virtual void raw(std::size_t i, byte b) = 0;
  virtual bytes content() = 0; // including the guards
  virtual int nassign() = 0;
  virtual void assign(int form, const std::vector<Vals> &vs) = 0;
};

constexpr std::size_t G = 3;
inline byte guard(std::size_t i) { return byte(0xc1 + 5 * i); }

template<typename View, endianess E, signed_mode S, typename... Ts>
struct ViewOps {
  using O_ = Ops<View, Ts...>;
  template<endianess E2, signed_mode S2, typename It>
  static upd::tuple_view<It, E2, S2, Ts...> view(It it) {
    return upd::make_view<Ts...>(upd::endianess_h<E2>{}, upd::signed_mode_h<S2>{}, it);
  }
  static void assign(View &v, int k, const std::vector<Vals> &vs, std::false_type) {
    switch (k) {
    case 0: {
      View &r = (v = MkTuple<E, S, Ts...>::make(vs));
      MC_CHECK(&r == &v, "the assignment returns something else than the view");
      return;
    }
    case 1:
      v = MkTuple<BE, OC, Ts...>::make(vs);
      return;
    case 2: {
      auto o = MkTuple<LE, SM, Ts...>::make(vs);
      // (an iterator that no view under test uses: a view is rebound by the assignment of a view of its own type)
      const std::vector<byte> l(o.begin(), o.end());
      v = view<LE, SM>(l.begin());
      return;
    }
    default: {
      const auto o = MkTuple<BE, OB, Ts...>::make(vs);
      v = o.template view<0, sizeof...(Ts)>();
      return;
    }
    }
  }
  static void assign(View &, int, const std::vector<Vals> &, std::true_type) {}
  static int nassign() { return has_c_array<Ts...>::value ? 0 : 4; }
};

template<Kind K, endianess E, signed_mode S, typename... Ts>
struct Impl : Iface {
  static constexpr std::size_t N = upd::tuple<E, S, Ts...>::size;
  using B = Back<K, N, G>;
  using It = typename B::It;
  using View = upd::tuple_view<It, E, S, Ts...>;
  using O_ = Ops<View, Ts...>;
  using V_ = ViewOps<View, E, S, Ts...>;
  B b;
  std::unique_ptr<View> v;
  explicit Impl(std::size_t align) : b(align) {
    for (std::size_t i = 0; i < N + 2 * G; i++)
      *b.at(i) = i < G || i >= N + G ? guard(i) : 0;
    v.reset(new View(upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, bind<K, N, G>::get(b))));
  }
  void set(std::size_t i, const Vals &x, int form) override {
    if (form == 2) { // through a copy of the view
      View c(*v);
      O_::set(c, i, x, 0);
    } else
      O_::set(*v, i, x, form);
  }
  Vals get(std::size_t i, int form) override { return O_::get(*v, i, form); }
  Vals invoke() override { return O_::invoke(*v); }
  void raw(std::size_t i, byte x) override { *b.at(G + i) = x; }
  bytes content() override {
    bytes r;
    for (std::size_t i = 0; i < N + 2 * G; i++)
      r.push_back(*b.at(i));
    bytes in(v->begin(), v->end());
    MC_CHECK(in == bytes(r.begin() + G, r.end() - G), "begin() and end() delimit " << mc::hex(in));
    It it = bind<K, N, G>::get(b);
    MC_CHECK(v->begin() == it && v->src() == it, "begin()");
    std::advance(it, N);
    MC_CHECK(v->end() == it, "end()");
    MC_CHECK(std::size_t(View::size) == N, "size");
    return r;
  }
  int nassign() override { return V_::nassign(); }
  void assign(int form, const std::vector<Vals> &vs) override { V_::assign(*v, form, vs, has_c_array<Ts...>{}); }
};

// Read-only views
template<endianess E, signed_mode S, typename... Ts>
void read_only(const Shape &sh, const bytes &all, const Vals &want) {
  const std::size_t N = upd::tuple<E, S, Ts...>::size;
  for (std::size_t align = 0; align < 8; align++) {
    Exact x(N + align);
    std::copy(all.begin() + G, all.end() - G, x.p + align);
    const byte *p = x.p + align;
    const auto v = upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, p);
    Vals got = Ops<typename std::remove_const<decltype(v)>::type, Ts...>::invoke(v);
    MC_CHECK(got == want, "const pointer at offset " << align << ": " << vstr(got) << " instead of " << vstr(want));
    MC_CHECK(bytes(v.begin(), v.end()) == x.get() || align, "const pointer: begin() and end()");
  }
  const std::list<byte> l(all.begin() + G, all.end() - G);
  const auto v = upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, l.begin());
  Vals got = Ops<typename std::remove_const<decltype(v)>::type, Ts...>::invoke(v);
  MC_CHECK(got == want, "const list iterator: " << vstr(got) << " instead of " << vstr(want));
}

struct Sys {
  using RO = void (*)(const Shape &, const bytes &, const Vals &);
  const Shape &sh;
  RO ro;
  std::unique_ptr<Iface> x;
  bytes model; // without the guards
  std::size_t off, span; // position of the viewed elements in the underlying bytes
  struct Op {
    enum Kind { SET, ASSIGN, RAW } k;
    std::size_t i, j;
    byte b;
  };
  std::vector<Op> ops;
  Sys(const Shape &sh, Iface *p, RO ro) : sh(sh), ro(ro), x(p), model(sh.size) {
    check("binding");
    for (std::size_t i = 0; i < sh.elems.size(); i++)
      for (std::size_t j = 0; j < sh.elems[i].opts.size(); j++)
        ops.push_back(Op{Op::SET, i, j, 0});
    for (int k = 0; k < x->nassign(); k++)
      for (int j = 0; j < 2; j++)
        ops.push_back(Op{Op::ASSIGN, std::size_t(k), std::size_t(j), 0});
    for (std::size_t i = 0; i < sh.size; i++)
      if (sh.size <= 4 || i == 0 || i + 1 == sh.size || i == sh.size / 2)
        for (byte b : sh.size <= 4 ? bytes{0, 0x80, 0xff} : bytes{0xff})
          ops.push_back(Op{Op::RAW, i, 0, b});
  }
  int nops() const { return int(ops.size()); }
  std::string op_name(int n) const {
    const Op &o = ops[n];
    if (o.k == Op::SET)
      return MC_STR("set<" << o.i << ">" << vstr(sh.elems[o.i].opts[o.j]));
    if (o.k == Op::ASSIGN)
      return MC_STR("assign " << o.i << " #" << o.j);
    return MC_STR("underlying byte " << o.i << " = " << int(o.b));
  }
  bool enabled(int) const { return true; }
  void apply(int n) {
    const Op &o = ops[n];
    if (o.k == Op::SET) {
      x->set(o.i, sh.elems[o.i].opts[o.j], int(o.j % 3));
      sh.put(model, o.i, sh.elems[o.i].opts[o.j]);
    } else if (o.k == Op::ASSIGN) {
      std::vector<Vals> vs;
      for (std::size_t i = 0; i < sh.elems.size(); i++)
        vs.push_back(sh.elems[i].opts[(o.j + i) % sh.elems[i].opts.size()]);
      x->assign(int(o.i), vs);
      for (std::size_t i = 0; i < vs.size(); i++)
        sh.put(model, i, vs[i]);
    } else {
      x->raw(o.i, o.b);
      model[o.i] = o.b;
    }
    check("after the operation");
  }
  void check(const char *what) {
    bytes want;
    for (std::size_t i = 0; i < sh.size + 2 * G; i++)
      want.push_back(i < G || i >= sh.size + G ? guard(i) : model[i - G]);
    bytes c = x->content();
    MC_CHECK(c == want, what << ": the underlying bytes and their neighbours are " << mc::hex(c) << " instead of " << mc::hex(want));
    Vals all;
    for (std::size_t i = 0; i < sh.elems.size(); i++) {
      Vals w = sh.decode(i, model), got = x->get(i, int(i & 1));
      MC_CHECK(got == w, what << ": element " << i << " reads " << vstr(got) << " instead of " << vstr(w));
      all.insert(all.end(), w.begin(), w.end());
    }
    Vals inv = x->invoke();
    MC_CHECK(inv == all, what << ": invoke passes " << vstr(inv) << " instead of " << vstr(all));
    if (ro)
      ro(sh, c, all);
    MC_CHECK(x->content() == want, what << ": reading modified the bytes");
  }
  std::string key() const { return std::string(reinterpret_cast<const char *>(model.data()), model.size()); }
};

template<Kind K, endianess E, signed_mode S, typename... Ts>
void go(std::size_t align = 0) {
  static const Shape sh = shape_of<E, S, Ts...>(sizeof...(Ts) > 3 ? 2 : 3);
  const bool th = mc::thorough();
  mc::bfs(MC_STR(kind_name[K] << (K == PTR ? MC_STR(" at offset " << align) : std::string()) << " " << sh.name),
          [&] { return std::unique_ptr<Sys>(new Sys(sh, new Impl<K, E, S, Ts...>(align), K == PTR ? &read_only<E, S, Ts...> : nullptr)); },
          th ? (sh.size > 30 ? 1000 : 8000) : sh.size > 100 ? 12 : 80, th ? 12 : 6);
}

#define FMT(N) ((N) & 1) ? BE : LE, ((N) / 2 % 4) == 0 ? TC : ((N) / 2 % 4) == 1 ? SM : ((N) / 2 % 4) == 2 ? OB : OC
using A2 = std::array<i16, 2>;
using A300 = std::array<u8, 300>;

template<Kind K, int N>
void small() {
  go<K, FMT(N), u16>();
  go<K, FMT(N + 1), i16, bool>();
  go<K, FMT(N + 2), O, u8>();
  go<K, FMT(N + 3), W, i32>();
  go<K, FMT(N + 4), u8[3], i16[2]>();
  go<K, FMT(N + 5), ::rig::N, P>();
  go<K, FMT(N + 6), i64, D>();
  go<K, FMT(N + 7), A2, bool, u32>();
  go<K, FMT(N + 8), bool, u64, i8, W, W, O>();
  go<K, FMT(N + 11), u8, A300, i16>();
}

// ---------------------------------------------------------------------------------------------------- slices of tuples

template<bool Fn, std::size_t I, std::size_t L>
struct slice {
  template<typename T>
  static auto get(T &t) -> decltype(t.template view<I, L>()) {
    return t.template view<I, L>();
  }
};
template<std::size_t I, std::size_t L>
struct slice<true, I, L> {
  template<typename T>
  static auto get(T &t) -> decltype(upd::make_view<I, L>(t)) {
    return upd::make_view<I, L>(t);
  }
};

template<endianess E, signed_mode S, typename... Ts>
struct Slices {
  using T = upd::tuple<E, S, Ts...>;
  using All = types<Ts...>;
  const Shape &sh;

  template<std::size_t I, typename Js>
  struct sub;
  template<std::size_t I, std::size_t... Js>
  struct sub<I, seq<Js...>> {
    template<typename View>
    using ops = Ops<View, typename nth<I + Js, All>::type...>;
    static Vals invoke_const(const T &t) {
      const auto v = slice<(I % 2 == 0), I, sizeof...(Js)>::get(t);
      return ops<typename std::remove_const<decltype(v)>::type>::invoke(v);
    }
    static void set(T &t, std::size_t j, const Vals &x) {
      auto v = slice<(I % 2 == 1), I, sizeof...(Js)>::get(t);
      ops<decltype(v)>::set(v, j, x, int(j % 2));
    }
    static bytes range(T &t) {
      auto v = slice<(I % 2 == 1), I, sizeof...(Js)>::get(t);
      return bytes(v.begin(), v.end());
    }
    static std::pair<std::size_t, std::size_t> where(const T &t) {
      auto v = slice<(I % 2 == 0), I, sizeof...(Js)>::get(t);
      return {std::size_t(v.begin() - t.begin()), std::size_t(v.end() - t.begin())};
    }
  };
  template<std::size_t I, std::size_t L>
  void one() {
    using U = sub<I, mkseq_t<L>>;
    const std::size_t lo = sh.elems[I].off, hi = sh.elems[I + L - 1].off + sh.elems[I + L - 1].size;
    mc::explore(MC_STR(sh.name << " slice " << I << "+" << L), [&](mc::Ch &ch) {
      // initial content, then up to two writes through the slice and one to the tuple, in every order
      T t;
      bytes model = sh.zero();
      int fill = ch(3, "fill");
      if (fill)
        for (std::size_t i = 0; i < model.size(); i++)
          t[i] = model[i] = byte(fill == 1 ? 0xff : 0x91 + 7 * i);
      const int n = mc::thorough() ? 3 : 2;
      for (int k = 0; k < n; k++) {
        int where = ch(int(L) + 2, "write");
        if (where < int(L)) {
          const auto &opts = sh.elems[I + where].opts;
          const Vals &x = opts[ch(int(opts.size()), "value")];
          U::set(t, where, x);
          sh.put(model, I + where, x);
        } else if (where == int(L)) { // to the tuple
          std::size_t e = (I + k) % sh.elems.size();
          const Vals &x = sh.elems[e].opts.back();
          Ops<T, Ts...>::set(t, e, x, 0);
          sh.put(model, e, x);
        }
        bytes c(t.begin(), t.end());
        MC_CHECK(c == model, "the tuple holds " << mc::hex(c) << " instead of " << mc::hex(model));
        Vals want;
        for (std::size_t i = I; i < I + L; i++) {
          Vals w = sh.decode(i, model);
          want.insert(want.end(), w.begin(), w.end());
        }
        Vals got = U::invoke_const(t);
        MC_CHECK(got == want, "the slice reads " << vstr(got) << " instead of " << vstr(want));
        MC_CHECK(U::range(t) == bytes(model.begin() + lo, model.begin() + hi), "begin() and end() of the slice");
        auto w = U::where(t);
        MC_CHECK(w.first == lo && w.second == hi, "the slice covers bytes " << w.first << " to " << w.second << " instead of " << lo << " to " << hi);
        mc::outcome(mc::hash_bytes(c.data(), c.size()));
      }
    });
  }
  template<std::size_t I>
  void from(seq<>) {}
  template<std::size_t I, std::size_t L0, std::size_t... Ls>
  void from(seq<L0, Ls...>) {
    one<I, L0 + 1>();
    from<I>(seq<Ls...>{});
  }
  void all(seq<>) {}
  template<std::size_t I0, std::size_t... Is>
  void all(seq<I0, Is...>) {
    from<I0>(mkseq_t<sizeof...(Ts) - I0>{});
    all(seq<Is...>{});
  }
};
template<endianess E, signed_mode S, typename... Ts>
void slices() {
  static const Shape sh = shape_of<E, S, Ts...>(2);
  Slices<E, S, Ts...>{sh}.all(mkseq_t<sizeof...(Ts)>{});
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  small<PTR, 0>();
  for (std::size_t a = 1; a < 8; a++) {
    go<PTR, LE, TC, i16, bool>(a);
    go<PTR, BE, OB, O, u8>(a);
    go<PTR, LE, TC, u32, u64>(a);
  }
  small<VECTOR, 1>();
#elif PART == 1
  small<DEQUE, 2>();
  small<LIST, 3>();
#elif PART == 2
  small<ARRAY, 4>();
  small<TRACK, 5>();
  small<REVERSE, 6>();
#elif PART == 3
  slices<LE, TC, u8, i16, bool, O>();
  slices<BE, SM, W, u8[3], i64, D, i16>();
  slices<BE, OC, ::rig::N, u32, P, bool>();
  slices<LE, OB, i8, A300, u16>();
#endif
  return mc::finish();
}
