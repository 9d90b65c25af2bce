// C31: operations nest: callbacks, sources and destinations may use the library, and the very object which is calling them.
#include "rig.hpp"
#include "keys.hpp"

#include <functional>

#if THOROUGH
#  define DEEPER 8
#else
#  define DEEPER 3
#endif
using namespace rig;

namespace {

// ------------------------------------------------------------------------------------------------------- nesting
// Each time the library calls something of the user, the plan of the running level tells whether another operation is made there.

struct Level {
  int point;          // where the next level runs; -1: nowhere
  std::size_t op;     // what the next level does
};
struct Nest {
  std::vector<Level> plan; // of each level but the last
  std::size_t level = 0;
  std::vector<int> points; // passed by each level
  std::vector<std::function<void(int)>> ops;
  std::vector<Ev> expected;
};
Nest &nest() {
  static Nest n;
  return n;
}
void run_level(std::size_t level, std::size_t op);
void point() {
  Nest &n = nest();
  const std::size_t level = n.level;
  const int p = n.points[level]++;
  if (level < n.plan.size() && n.plan[level].point == p) {
    n.level++;
    run_level(n.level, n.plan[level].op);
    n.level--;
  }
}
void run_level(std::size_t level, std::size_t op) {
  nest().points[level] = 0;
  nest().ops[op](int(level));
}
int salt = 0;
Vals args_of(const Sig &s, int level) { return default_ret(2000 + 10 * salt + level, Vals{V(level + 3)}, s.in); }

// A callback: its arguments remain what they were whatever is done in between
template<int I, typename R, typename... A>
R nested(A... a) {
  const Vals before = flatten<bare<A>...>(a...);
  point();
  const Vals now = flatten<bare<A>...>(a...);
  MC_CHECK(now == before, "the arguments of a callback became " << vstr(now) << " instead of " << vstr(before)
                                                                << " during an operation it made");
  return Ret<R>::get(I, now);
}
template<typename F>
struct NestedFo;
template<typename R, typename... A>
struct NestedFo<R(A...)> {
  int id;
  R operator()(A... a) {
    const Vals before = flatten<bare<A>...>(a...);
    point();
    const Vals now = flatten<bare<A>...>(a...);
    MC_CHECK(now == before, "the arguments of a function object became " << vstr(now) << " instead of " << vstr(before)
                                                                          << " during an operation it made");
    return Ret<R>::get(id, now);
  }
};
template<typename F, int I>
struct NestedH;
template<int I, typename R, typename... A>
struct NestedH<R(A...), I> {
  using H = upd::unevaluated<R (*)(A...), &nested<I, R, A...>>;
  using Fo = NestedFo<R(A...)>;
};
// What a hook receives
template<typename R>
struct NestedHook {
  int id;
  void operator()(const R &r) {
    const Vals before = flatten<R>(r);
    point();
    const Vals now = flatten<R>(r);
    MC_CHECK(now == before, "the argument of a hook became " << vstr(now) << " instead of " << vstr(before)
                                                              << " during an operation it made");
    world().log.push_back(Ev{id, now});
  }
};

struct Source {
  bytes b;
  std::size_t n;
  explicit Source(bytes b) : b(std::move(b)), n{0} {}
  byte operator()() {
    point();
    MC_CHECK(n < b.size(), "a byte is read past the end");
    return b[n++];
  }
};
struct Sink {
  bytes b;
  void operator()(byte v) {
    point();
    b.push_back(v);
    point();
  }
};

void called(int id, const Vals &args) {
  // The operations made inside this one have checked and removed what they logged
  std::vector<Ev> &log = world().log;
  MC_CHECK(!log.empty() && log.back() == (Ev{id, args}),
           "the last call is " << (log.empty() ? std::string("none") : evstr(log.back())) << " instead of " << evstr(Ev{id, args}));
  log.pop_back();
}

// ------------------------------------------------------------------------------------------------------- the operations

template<int I>
u8 filler(u8) {
  return u8(I);
}
template<endianess E, signed_mode S, typename Is, typename Js, typename... Fs>
struct Ops;
template<endianess E, signed_mode S, std::size_t... Is, std::size_t... Js, typename... Fs>
struct Ops<E, S, seq<Is...>, seq<Js...>, Fs...> { // after as many callbacks as Js
  static constexpr std::size_t first = sizeof...(Js);
  using keyring = upd::keyring<E, S, upd::unevaluated<u8 (*)(u8), &filler<int(Js)>>..., typename NestedH<Fs, int(Is)>::H...>;
  using any = upd::dispatcher<keyring, upd::action_features::ANY>;
  using weak = upd::dispatcher<keyring, upd::action_features::WEAK_REFERENCE>;
  template<std::size_t I>
  using F = typename nth<I, types<Fs...>>::type;
  template<std::size_t I>
  using Key = typename keyring::template key_t<typename NestedH<F<I>, int(I)>::H>;

  any a;
  weak w;
  upd::double_buffered_dispatcher<weak> b2[3]; // one per level
  upd::single_buffered_dispatcher<weak> b1[3];
  std::vector<upd::action> hooks;
  std::vector<upd::no_storage_action> hooked;
  std::vector<std::string> names;

  static Sig sig(std::size_t i) {
    static const std::vector<Sig> s{SigOf<Fs>::get()...};
    return s[i];
  }
  static bytes request(std::size_t i, const Vals &args, bool indexed) {
    bytes b = ref_encode(sig(i).in, args, E, S);
    if (indexed)
      for (std::size_t k = 0; k < sizeof(typename any::index_t); k++)
        b.insert(E == LE ? b.begin() + std::ptrdiff_t(k) : b.begin(), byte((first + i) >> (8 * k)));
    return b;
  }
  static void respond(std::size_t i, int id, const Vals &args, const bytes &out) {
    const bytes ref = ref_encode(sig(i).out, default_ret(id, args, sig(i).out), E, S);
    MC_CHECK(out == ref, "the response is " << mc::hex(out) << " instead of " << mc::hex(ref));
    called(id, args);
  }
  template<typename Act>
  static void act(Act &x, std::size_t i, int id, int level) {
    const Vals args = args_of(sig(i), level);
    Source src{request(i, args, false)};
    Sink dst;
    x(src, dst);
    MC_CHECK(src.n == src.b.size(), "bytes are left");
    respond(i, id, args, dst.b);
  }
  template<typename D>
  static void dispatch(D &d, std::size_t i, int id, int level) {
    const Vals args = args_of(sig(i), level);
    Source src{request(i, args, true)};
    Sink dst;
    const auto x = d(src, dst);
    MC_CHECK(x == first + i, "index " << unsigned(x) << " instead of " << i);
    MC_CHECK(src.n == src.b.size(), "bytes are left");
    respond(i, id, args, dst.b);
  }
  template<typename D>
  static void look_up(D &d, std::size_t i, int id, int level) {
    const Vals args = args_of(sig(i), level);
    Source src{request(i, args, true)};
    Sink dst;
    auto *x = d.get_action(src);
    MC_CHECK(x == &d[typename D::index_t(first + i)], "another action is found");
    (*x)(src, dst);
    MC_CHECK(src.n == src.b.size(), "bytes are left");
    respond(i, id, args, dst.b);
  }
  template<typename B>
  static void buffered(B &b, std::size_t i, int id, int level) {
    const Vals args = args_of(sig(i), level);
    Source src{request(i, args, true)};
    Sink dst;
    upd::packet_status st = upd::packet_status::LOADING_PACKET;
    while (src.n < src.b.size())
      st = b.put(src());
    MC_CHECK(st == upd::packet_status::RESOLVED_PACKET, "the packet is not resolved");
    b.write_to(dst);
    respond(i, id, args, dst.b);
  }
  template<typename B>
  static void buffered_whole(B &b, std::size_t i, int id, int level) {
    const Vals args = args_of(sig(i), level);
    Source src{request(i, args, true)};
    Sink dst;
    const upd::packet_status st = b(src, dst);
    MC_CHECK(st == upd::packet_status::RESOLVED_PACKET, "the packet is not resolved");
    MC_CHECK(src.n == src.b.size(), "bytes are left");
    respond(i, id, args, dst.b);
  }

  template<std::size_t I, typename Fn>
  struct Caller;
  template<std::size_t I, typename R, typename... A>
  struct Caller<I, R(A...)> {
    template<std::size_t... Ks>
    static void write(seq<Ks...>, int level) {
      const Vals args = args_of(sig(I), level);
      const V *p = args.data();
      Boxes<A...> b(p);
      const auto m = Key<I>{}(box_at<Ks>::get(b)...);
      for (int k = 0; k < 2; k++) {
        Sink dst;
        m.write_to(dst);
        const bytes ref = request(I, args, true);
        MC_CHECK(dst.b == ref, "the request is " << mc::hex(dst.b) << " instead of " << mc::hex(ref));
      }
    }
    static void write(int level) { write(mkseq_t<sizeof...(A)>{}, level); }
    // A key encodes what a tuple holds; a tuple is invoked
    static void invoke(int level) {
      const Vals args = args_of(sig(I), level);
      const bytes b = ref_encode(sig(I).in, args, E, S);
      typename Key<I>::tuple_t t;
      std::size_t n = 0;
      for (auto &x : t)
        x = b[n++];
      invoke(t, args, std::is_void<R>{});
      n = 0;
      for (auto x : t)
        MC_CHECK(x == b[n++], "the tuple has changed");
    }
    template<typename T>
    static void invoke(T &t, const Vals &args, std::true_type) {
      t.invoke(&nested<int(I), R, A...>);
      called(int(I), args);
    }
    template<typename T>
    static void invoke(T &t, const Vals &args, std::false_type) {
      auto r = t.invoke(&nested<int(I), R, A...>);
      const Vals v = flatten<bare<R>>(r), ref = default_ret(int(I), args, sig(I).out);
      MC_CHECK(v == ref, "invoke() returned " << vstr(v) << " instead of " << vstr(ref));
      called(int(I), args);
    }
    static Vals response(int level) { return default_ret(3000 + 10 * salt + level, Vals{V(level + 5)}, sig(I).out); }
    static void read(int level, std::true_type) {}
    static void read(int level, std::false_type) {
      const Vals v = response(level);
      Source src{ref_encode(sig(I).out, v, E, S)};
      auto r = Key<I>{}.read_from(src);
      const Vals got = flatten<bare<R>>(r);
      MC_CHECK(got == v, "the key reads " << vstr(got) << " instead of " << vstr(v));
      MC_CHECK(src.n == src.b.size(), "bytes are left");
    }
    static void hooks(Ops &o, int, std::true_type) {}
    static void hooks(Ops &o, int, std::false_type) {
      o.hooks.push_back(Key<I>{}.with_hook(NestedHook<bare<R>>{500 + int(I)}));
      upd::action *x = &o.hooks.back();
      o.add(MC_STR("hook of " << I), [x](int level) {
        const Vals v = response(level);
        Source src{ref_encode(sig(I).out, v, E, S)};
        Sink dst;
        (*x)(src, dst);
        MC_CHECK(src.n == src.b.size() && dst.b.empty(), "a hook reads " << src.n << " bytes and writes " << dst.b.size());
        called(500 + int(I), v);
      });
    }
  };

  void add(const std::string &name, std::function<void(int)> f) {
    names.push_back(name);
    nest().ops.push_back(std::move(f));
  }
  template<std::size_t I>
  void ops_of() {
    using H = typename NestedH<F<I>, int(I)>::H;
    using C = Caller<I, F<I>>;
    const int id = int(I);
    a.template replace<first + I>(typename NestedH<F<I>, int(I)>::Fo{100 + id});
    add(MC_STR("dispatcher " << I), [=](int l) { dispatch(a, I, 100 + id, l); });
    add(MC_STR("weak dispatcher " << I), [=](int l) { dispatch(w, I, id, l); });
    add(MC_STR("action of the dispatcher " << I), [=](int l) { act(a[first + I], I, 100 + id, l); });
    add(MC_STR("action of the weak dispatcher " << I), [=](int l) { act(w[first + I], I, id, l); });
    add(MC_STR("get_action() " << I), [=](int l) { look_up(a, I, 100 + id, l); });
    add(MC_STR("get_action(), weak " << I), [=](int l) { look_up(w, I, id, l); });
    add(MC_STR("double-buffered " << I), [=](int l) { buffered(b2[l], I, id, l); });
    add(MC_STR("single-buffered " << I), [=](int l) { buffered(b1[l], I, id, l); });
    add(MC_STR("double-buffered, at once " << I), [=](int l) { buffered_whole(b2[l], I, id, l); });
    hooked.push_back(upd::no_storage_action{H{}, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}});
    upd::no_storage_action *x = &hooked.back();
    add(MC_STR("action without storage " << I), [=](int l) { act(*x, I, id, l); });
    add(MC_STR("request of key " << I), [=](int l) { C::write(l); });
    add(MC_STR("invocation of a tuple " << I), [=](int l) { C::invoke(l); });
    if (!sig(I).is_void)
      add(MC_STR("response to key " << I), [=](int l) { C::read(l, std::is_void<decltype(returned(static_cast<F<I> *>(nullptr)))>{}); });
    C::hooks(*this, 0, std::is_void<decltype(returned(static_cast<F<I> *>(nullptr)))>{});
  }
  template<typename R, typename... A>
  static R returned(R (*)(A...));

  void go(const char *format) {
    Nest &n = nest();
    n = Nest();
    hooks.reserve(sizeof...(Fs));
    hooked.reserve(sizeof...(Fs));
    using discard = int[];
    (void)discard{0, (ops_of<Is>(), 0)...};
    const std::size_t count = n.ops.size();
    std::vector<int> known(count, -1);
    n.points.assign(3, 0);
    const auto points = [&](std::size_t i) { // of an operation alone
      if (known[i] < 0) {
        n.plan.clear();
        n.level = 0;
        for (salt = 7; salt >= 0; salt--) {
          run_level(0, i);
          MC_CHECK(known[i] < 0 || known[i] == n.points[0], "an operation depends on a former one");
          known[i] = n.points[0];
        }
        salt = 0;
      }
      return known[i];
    };
    for (std::size_t i = 0; i < count; i++)
      mc::explore(MC_STR(names[i] << " " << format), [&](mc::Ch &ch) {
        world().log.clear();
        const std::size_t j = std::size_t(ch(int(count), "inner operation"));
        const int at_i = points(i), at_j = points(j);
        if (!at_i)
          return;
        n.level = 0;
        n.plan.clear();
        salt = 0;
        n.plan.push_back(Level{ch(at_i, "outer point"), j});
        const int deeper = at_j ? ch(DEEPER, "third level") : 0;
        if (deeper) {
          const std::size_t third = deeper == 1 ? i : deeper == 2 ? j : (i + std::size_t(deeper) * 7) % count;
          n.plan.push_back(Level{ch(at_j, "inner point"), third});
        }
        run_level(0, i);
        MC_CHECK(world().log.empty(), "there are more calls than asked for");
        MC_CHECK(n.points[0] >= at_i, "an operation is not complete");
        mc::outcome(mc::mix(u64(n.points[0]), u64(n.points[1])));
      });
  }
};
template<endianess E, signed_mode S, std::size_t Fill, typename... Fs>
void all() {
  Ops<E, S, mkseq_t<sizeof...(Fs)>, mkseq_t<Fill>, Fs...> o;
  o.go(fmt_name(E, S).c_str());
}

} // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  all<LE, TC, 0, i16(u8, i16), void(), O(const O &, u8)>();
#elif PART == 1
  all<BE, SM, 0, u32(const u16 (&)[3]), std::array<i16, 2>(bool, const std::array<u8, 2> &), void(i64)>();
#elif PART == 3
  all<LE, OB, 259, i16(u8), u8(O)>();
#else
  all<BE, OC, 0, P(const P &), u8(u8), bool(u16, bool)>();
#endif
  return mc::finish();
}
