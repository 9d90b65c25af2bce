// C21: the bytes sent depend only on the values sent. Every scenario is run on memory filled with several patterns (the stack, the
// heap and the place of the objects), after several histories; all the outputs of the same values must be equal.
#include <cstdlib>
#include <new>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
// MSan only keeps track of what is initialised, and the bytes sent are checked with it: the C++ library, which is not instrumented,
// makes it give many other warnings (linked with --wrap=__msan_warning)
extern "C" void __wrap___msan_warning() {}
#endif
#endif

static unsigned char g_fill = 0;

#ifndef MSAN
static void *filled(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p)
    std::abort();
  __builtin_memset(p, g_fill, n);
  return p;
}
void *operator new(std::size_t n) { return filled(n); }
void *operator new[](std::size_t n) { return filled(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif

#include "disp.hpp"
#include "keys.hpp"

namespace rig {
struct H { // leaves some of its bytes unset when it is serialized
  u8 a, b;
};
} // namespace rig
template<>
struct upd_extension<rig::H> {
  template<typename View>
  static void serialize(const rig::H &h, View &view) {
    view.template set<0>(h.a);
    view.template set<2>(h.b);
  }
  static rig::H unserialize(rig::u8 a, rig::u16, rig::u8 b, rig::u8) { return rig::H{a, b}; }
};
namespace rig {
template<>
struct TT<H> {
  static void leaves(Leaves &l) {
    l.push_back(Leaf{1, false, false, false});
    l.push_back(Leaf{2, false, false, true});
    l.push_back(Leaf{1, false, false, false});
    l.push_back(Leaf{1, false, false, true});
  }
  static void fill(H &x, const V *&p) {
    x.a = u8(*p++);
    x.b = u8(*p++);
  }
  static void flat(const H &x, Vals &v) {
    v.push_back(x.a);
    v.push_back(x.b);
  }
  static std::string name() { return "H"; }
};
} // namespace rig
using namespace rig;

__attribute__((noinline)) static void paint() {
  unsigned char a[4096];
#ifdef MSAN
  __asm__ volatile("" : : "r"(a) : "memory");
  __msan_allocated_memory(a, sizeof a);
#else
  __builtin_memset(a, g_fill, sizeof a);
  __asm__ volatile("" : : "r"(a) : "memory");
#endif
}

static const unsigned char fills[] = {0x00, 0xff, 0xa5};
enum { FILLS = 3 };

static void initialised(const byte *p, std::size_t n) {
#ifdef MSAN
  auto bad = __msan_test_shadow(p, n);
  MC_CHECK(bad < 0, "the byte " << bad << " sent is not initialised");
  mc::count("bytes checked for initialisation", n);
#else
  (void)p, (void)n;
#endif
}

struct Out {
  bytes out;
  Out() { out.reserve(1024); }
  Out(const Out &) = delete;
  Out(Out &&) = default;
  void operator()(byte b) {
    initialised(&b, 1);
    MC_CHECK(out.size() < 100000, "the output never ends");
    out.push_back(b);
  }
};
// Forms of outputs
enum { FORMS = 3 };

// An object placed on filled memory
template<typename T>
struct Placed {
  void *mem;
  T *obj;
  template<typename... A>
  explicit Placed(A &&...a) {
    if (posix_memalign(&mem, alignof(T) < 16 ? 16 : alignof(T), sizeof(T)) != 0)
      std::abort();
#ifdef MSAN
    __msan_allocated_memory(mem, sizeof(T));
#else
    std::memset(mem, g_fill, sizeof(T));
    __asm__ volatile("" : : "r"(mem) : "memory");
#endif
    paint();
    obj = ::new (mem) T(static_cast<A &&>(a)...);
  }
  struct Bare {};
  explicit Placed(Bare) {
    if (posix_memalign(&mem, alignof(T) < 16 ? 16 : alignof(T), sizeof(T)) != 0)
      std::abort();
#ifdef MSAN
    __msan_allocated_memory(mem, sizeof(T));
#else
    std::memset(mem, g_fill, sizeof(T));
    __asm__ volatile("" : : "r"(mem) : "memory");
#endif
    paint();
    obj = ::new (mem) T;
  }
  Placed(const Placed &) = delete;
  ~Placed() {
    obj->~T();
    std::free(mem);
  }
  T &operator*() { return *obj; }
  T *operator->() { return obj; }
};

template<typename F>
void same_everywhere(const std::string &what, F f) { // f() -> bytes
  g_fill = fills[0];
  bytes ref = f();
  for (int k = 1; k < FILLS; k++) {
    g_fill = fills[k];
    bytes got = f();
    MC_CHECK(got == ref, what << ": " << mc::hex(got) << " on memory filled with " << int(fills[k]) << ", but " << mc::hex(ref)
                              << " on memory filled with 0");
  }
  mc::outcome(mc::hash_bytes(ref.data(), ref.size()));
  mc::count("bytes compared", ref.size() * FILLS);
  g_fill = 0;
}

// --------------------------------------------------------------------------------------------------------- dispatchers

template<typename D, typename K>
bytes reply_form(D &d, const K &k, int form) {
  Out s;
  paint();
  bool r;
  if (form == 0)
    r = d.reply(s, k);
  else if (form == 1)
    r = d.reply([&s](byte b) { s(b); }, k);
  else {
    byte *block = new byte[64];
    std::memset(block, 0, 64);
    r = d.reply(block, k);
    initialised(block, 64);
    s.out.assign(block, block + 64);
    delete[] block;
  }
  s.out.push_back(r);
  return s.out;
}

template<typename Di, typename B, std::size_t Nt>
struct Replies {
  using D = typename Di::type;
  template<std::size_t I>
  static bytes one(D &d, int form) {
    typename B::template Key<I> k;
    return reply_form(d, k, form);
  }
  template<std::size_t... Is>
  static bytes run_(seq<Is...>, D &d, int j, int form) {
    using Fp = bytes (*)(D &, int);
    static const Fp t[] = {&one<Is>...};
    return t[j](d, form);
  }
  static bytes run(D &d, int j, int form) { return run_(mkseq_t<Nt>{}, d, j, form); }
};

// What happens to an object: packets, and outputs
struct Step {
  enum Kind { PACKET, GETS, WRITE, REPLY, INVALID, MOVE } kind;
  int a, b;
};

template<typename Di, typename B, std::size_t Nt>
struct Driver {
  using T = typename Di::type;
  const Spec &sp, &spb;

  // Payload patterns, the same values whatever the position in the history
  bytes packet(int i, int pat) const {
    bytes r = sp.index_bytes(u64(i));
    for (std::size_t j = 0; j < sp.sigs[i].in_size; j++)
      r.push_back(pat == 0 ? 0 : pat == 1 ? byte(j * 31 + 17) : 0x7f);
    return r;
  }
  bytes output(T &d, const Step &s, std::size_t exact) const {
    bytes r;
    switch (s.kind) {
    case Step::GETS: {
      for (int k = 0; k < s.a && d.is_loaded(); k++) {
        paint();
        byte b = d.get();
        initialised(&b, 1);
        r.push_back(b);
      }
      break;
    }
    case Step::WRITE: {
      paint();
      if (s.a == 0) {
        Out o;
        d.write_to(o);
        r = o.out;
      } else if (s.a == 1) {
        Out o;
        d.write_to([&o](byte b) { o(b); });
        r = o.out;
      } else {
        byte *block = new byte[exact + 1];
        std::memset(block, 0, exact + 1);
        d.write_to(block);
        initialised(block, exact);
        r.assign(block, block + exact);
        delete[] block;
      }
      break;
    }
    case Step::REPLY:
      r = Replies<Di, B, Nt>::run(d, s.a, s.b);
      break;
    default:
      break;
    }
    return r;
  }
  // The bytes output by the last step, and by all the others
  bytes run(const std::vector<Step> &steps, bytes *all) const {
    world() = World{};
    paint();
    Placed<T> first;
    std::unique_ptr<Placed<T>> moved;
    T *d = &*first;
    std::size_t exact = 0;
    bytes last;
    for (auto &s : steps) {
      switch (s.kind) {
      case Step::PACKET: {
        bytes p = packet(s.a, s.b);
        for (byte b : p) {
          paint();
          d->put(b);
        }
        exact = sp.sigs[s.a].out_size;
        break;
      }
      case Step::INVALID: {
        for (byte b : sp.index_bytes(sp.w == 1 ? 0xff : 0xffff))
          d->put(b);
        break;
      }
      case Step::MOVE: {
        std::unique_ptr<Placed<T>> n(new Placed<T>(std::move(*d)));
        moved = std::move(n);
        d = &**moved;
        break;
      }
      default:
        last = output(*d, s, exact);
        exact -= std::min(exact, last.size());
        if (all)
          all->insert(all->end(), last.begin(), last.end());
      }
    }
    if (all) // the neutral byte of what is not loaded any more
      while (true) {
        bool l = d->is_loaded();
        paint();
        byte b = d->get();
        initialised(&b, 1);
        all->push_back(b);
        if (!l)
          break;
      }
    return last;
  }

  void explore(int depth) const {
    const int n = int(sp.sigs.size());
    mc::explore(MC_STR(Di::name() << " histories of " << depth), [&](mc::Ch &ch) {
      std::vector<Step> steps;
      std::vector<std::size_t> usable; // keys which can hold the response
      for (int k = 0; k < depth; k++) {
        int c = ch(n + (depth > 1 ? 2 : 1), "event");
        if (c >= n) {
          steps.push_back(Step{c == n ? Step::INVALID : Step::MOVE, 0, 0});
          continue;
        }
        steps.push_back(Step{Step::PACKET, c, sp.sigs[c].in_size ? 1 + ch(2, "pattern") : 1});
        std::size_t size = sp.sigs[c].out_size;
        int u = ch(3 + (Di::dbl ? 2 : 0), "unloading");
        if (u == 0)
          steps.push_back(Step{Step::WRITE, 0, 0});
        else if (u == 1)
          steps.push_back(Step{Step::GETS, 1 << 20, 0});
        else if (u == 2) {
          std::vector<int> fit;
          for (std::size_t j = 0; j < Nt; j++)
            if (spb.sigs[j].in_size >= size)
              fit.push_back(int(j));
          if (fit.empty())
            steps.push_back(Step{Step::WRITE, 1, 0});
          else
            steps.push_back(Step{Step::REPLY, fit[ch(int(fit.size()), "key")], 0});
        } else if (u == 3)
          steps.push_back(Step{Step::GETS, 1, 0});
      }
      int i = ch(n, "index");
      int pat = sp.sigs[i].in_size ? ch(3, "pattern") : 0;
      steps.push_back(Step{Step::PACKET, i, pat});
      Step out{Step::WRITE, 0, 0};
      int u = ch(1 + FORMS + int(Nt) * FORMS, "output");
      if (u == 0)
        out = Step{Step::GETS, 1 << 20, 0};
      else if (u <= FORMS)
        out = Step{Step::WRITE, u - 1, 0};
      else
        out = Step{Step::REPLY, (u - 1 - FORMS) / FORMS, (u - 1 - FORMS) % FORMS};
      steps.push_back(out);
      g_fill = 0;
      bytes ref = run({steps[steps.size() - 2], steps.back()}, nullptr);
      bytes full;
      for (int k = 0; k < FILLS; k++) {
        g_fill = fills[k];
        bytes all, got = run(steps, &all);
        g_fill = 0;
        MC_CHECK(got == ref, "the same request gets " << mc::hex(got) << " after this history on memory filled with " << int(fills[k])
                                                      << ", but " << mc::hex(ref) << " from a new dispatcher");
        if (k == 0)
          full = all;
        MC_CHECK(all == full, "the history outputs " << mc::hex(all) << " on memory filled with " << int(fills[k]) << ", but "
                                                     << mc::hex(full) << " on memory filled with 0");
      }
      mc::count("bytes compared", full.size() * FILLS);
      mc::outcome(mc::hash_bytes(ref.data(), ref.size()));
    });
  }
};

template<typename B, std::size_t Nt>
struct Go {
  int depth;
  template<typename Di>
  void run() {
    static const Spec sp = spec_of<typename Di::ring>(), spb = spec_of<B>();
    for (int k = 0; k <= depth; k++)
      Driver<Di, B, Nt>{sp, spb}.explore(k);
  }
};

// -------------------------------------------------------------------------------------------------- plain and actions

template<typename Rg, upd::action_features AF>
void plain() {
  using T = upd::dispatcher<typename Rg::keyring, AF>;
  static const Spec sp = spec_of<Rg>();
  mc::explore("plain dispatcher " + Rg::name() + (AF == ANY ? " any" : " weak"), [&](mc::Ch &ch) {
    int before = ch(int(sp.sigs.size()) + 1, "previous request");
    int i = ch(int(sp.sigs.size()), "index"), pat = ch(2, "pattern"), form = ch(FORMS, "form");
    same_everywhere("plain dispatcher", [&] {
      world() = World{};
      Placed<T> d;
      bytes r;
      for (int k : {before, i}) {
        if (k == int(sp.sigs.size()))
          continue;
        bytes p = sp.index_bytes(u64(k));
        for (std::size_t j = 0; j < sp.sigs[k].in_size; j++)
          p.push_back(pat ? byte(j * 31 + 17) : 0);
        Src src(p);
        Out o;
        paint();
        if (form == 0)
          (*d)(src, o);
        else if (form == 1)
          (*d)([&src]() -> byte { return src(); }, [&o](byte b) { o(b); });
        else {
          byte block[64] = {};
          (*d)(static_cast<const byte *>(p.data()), static_cast<byte *>(block));
          initialised(block, 64);
          o.out.assign(block, block + 64);
        }
        r = o.out;
      }
      return r;
    });
  });
}

template<typename Rg, std::size_t I, typename F = typename Rg::template F<I>>
struct Keys;
template<typename Rg, std::size_t I, typename R, typename... A>
struct Keys<Rg, I, R(A...)> {
  using K = typename Rg::template Key<I>;
  template<typename M>
  static void emit(M &m, int form, std::size_t exact, bytes &r) {
    Out o;
    paint();
    if (form == 0)
      m.write_to(o);
    else if (form == 1)
      m >> o;
    else {
      byte *block = new byte[exact + 1];
      std::memset(block, 0, exact + 1);
      m.write_to(block);
      initialised(block, exact);
      o.out.assign(block, block + exact);
      delete[] block;
    }
    r.insert(r.end(), o.out.begin(), o.out.end());
  }
  template<std::size_t... Is>
  static bytes send(seq<Is...>, const Vals &prev, const Vals &args, int how, int form, std::size_t exact) {
    Placed<K> k;
    bytes r;
    const V *q = prev.data();
    Boxes<A...> c(q);
    if (how & 1) {
      paint();
      auto m = (*k)(box_at<Is>::get(c)...);
      bytes ignored;
      emit(m, form, exact, ignored);
    }
    const V *p = args.data();
    Boxes<A...> b(p);
    paint();
    if (how < 2) {
      auto m = (*k)(box_at<Is>::get(b)...);
      emit(m, form, exact, r);
      emit(m, (form + 1) % FORMS, exact, r);
    } else { // a message kept in memory, and moved
      auto m = (*k)(box_at<Is>::get(b)...);
      Placed<decltype(m)> n(std::move(m));
      emit(*n, form, exact, r);
    }
    return r;
  }
  static void keys() {
    static const Spec sp = spec_of<Rg>();
    const Sig &sg = sp.sigs[I];
    auto vals = value_lists(sg.in, sp.s, mc::thorough() ? 1 : 0, 1);
    mc::explore(MC_STR("key " << I << " of " << Rg::name()), [&](mc::Ch &ch) {
      const Vals &v = vals[ch(int(vals.size()), "values")];
      int how = ch(4, "history"), form = ch(FORMS, "form");
      const Vals &prev = how & 1 ? vals[ch(int(vals.size()), "previous values")] : v;
      const std::size_t exact = sp.w + sg.in_size;
      bytes ref = send(mkseq_t<sizeof...(A)>{}, v, v, how & 2, form, exact);
      same_everywhere("request", [&] {
        bytes r = send(mkseq_t<sizeof...(A)>{}, prev, v, how, form, exact);
        MC_CHECK(r == ref, "the request is " << mc::hex(r) << " after another one, and " << mc::hex(ref) << " before");
        return r;
      });
    });
  }
  template<typename Act, typename Make>
  static void actions_of(const char *kind, Make make) {
    static const Spec sp = spec_of<Rg>();
    const Sig &sg = sp.sigs[I];
    mc::explore(MC_STR(kind << " " << I << " of " << Rg::name()), [&](mc::Ch &ch) {
      int form = ch(FORMS, "form"), pat = ch(3, "pattern"), before = ch(3, "previous pattern");
      bytes one[2];
      for (int hist = 0; hist < 2; hist++)
        same_everywhere("action", [&] {
          world() = World{};
          Placed<Act> a(make());
          bytes r;
          for (int k = hist ? 0 : 1; k < 2; k++) {
            int pt = k ? pat : before;
            bytes p;
            for (std::size_t j = 0; j < sg.in_size; j++)
              p.push_back(pt == 0 ? 0 : pt == 1 ? byte(j * 31 + 17) : 0x7f);
            Src src(p);
            Out o;
            paint();
            if (form == 0)
              (*a)(src, o);
            else if (form == 1)
              (*a)([&src]() -> byte { return src(); }, [&o](byte b) { o(b); });
            else {
              byte block[64] = {};
              p.resize(p.size() + 1);
              (*a)(static_cast<const byte *>(p.data()), static_cast<byte *>(block));
              initialised(block, 64);
              o.out.assign(block, block + 64);
            }
            r = o.out;
          }
          one[hist] = r;
          return r;
        });
      MC_CHECK(one[0] == one[1], "the response is " << mc::hex(one[1]) << " after another call, and " << mc::hex(one[0]) << " before");
    });
  }
  static void actions() {
    upd::endianess_h<Rg::end> e;
    upd::signed_mode_h<Rg::mode> s;
    actions_of<upd::action>("action on a function object", [=] { return upd::action{Fo<R(A...)>{int(I)}, e, s}; });
    actions_of<upd::action>("action on a function", [=] { return upd::action{&cb<int(I), R, A...>, e, s}; });
    actions_of<upd::no_storage_action>("action without storage",
                                       [=] { return upd::no_storage_action{typename Rg::template H<I>{}, e, s}; });
  }
};
template<typename Rg, std::size_t... Is>
void all_keys(seq<Is...>) {
  using discard = int[];
  (void)discard{0, (Keys<Rg, Is>::keys(), 0)...};
}
template<typename Rg, std::size_t... Is>
void all_actions(seq<Is...>) {
  using discard = int[];
  (void)discard{0, (Keys<Rg, Is>::actions(), 0)...};
}

// -------------------------------------------------------------------------------------------------------------- tuples

template<endianess E, signed_mode S, typename... Ts>
struct Tuples {
  using T = upd::tuple<E, S, Ts...>;
  static constexpr std::size_t N = sizeof...(Ts);
  static Vals values(const Leaves &ls, int pat) {
    Vals v;
    for (auto &l : value_leaves(ls)) {
      V m = leaf_max(l);
      v.push_back(pat == 0 ? V(0) : pat == 1 ? m : l.sgn ? -(V(0x35) % (m + 1)) : V(0x35) % (m + 1));
    }
    return v;
  }
  template<std::size_t I>
  static void set1(T &t, int pat) {
    using U = typename nth<I, types<Ts...>>::type;
    Leaves l;
    TT<U>::leaves(l);
    Vals v = values(l, pat);
    const V *p = v.data();
    Box<U> b(p);
    paint();
    t.template set<I>(b.v);
  }
  template<std::size_t... Is>
  static void set(seq<Is...>, int i, T &t, int pat) {
    using Fp = void (*)(T &, int);
    static const Fp f[] = {&set1<Is>...};
    f[i](t, pat);
  }
  static bytes read(T &t) {
    bytes r;
    for (byte b : t) {
      initialised(&b, 1);
      r.push_back(b);
    }
    return r;
  }
  static void go() {
    Leaves ls;
    using discard = int[];
    (void)discard{0, (TT<Ts>::leaves(ls), 0)...};
    mc::explore("tuple " + fmt_name(E, S) + MC_STR(wire_size(ls) << " bytes"), [&](mc::Ch &ch) {
      int kind = ch(4, "construction"), copy = ch(3, "copy");
      int a[4], p[4], n = ch(mc::thorough() ? 5 : 4, "sets");
      for (int k = 0; k < n; k++) {
        a[k] = ch(int(N), "element");
        p[k] = ch(3, "pattern");
      }
      same_everywhere("tuple", [&] {
        bytes r;
        std::unique_ptr<Placed<T>> t;
        if (kind == 0)
          t.reset(new Placed<T>());
        else if (kind == 1)
          t.reset(new Placed<T>(typename Placed<T>::Bare{}));
        else if (kind == 2) {
          t.reset(new Placed<T>(Ts{}...));
        } else {
          t.reset(new Placed<T>());
          paint();
          T o(Ts{}...);
          **t = o;
        }
        for (int k = 0; k < n; k++)
          set(mkseq_t<N>{}, a[k], **t, p[k]);
        r = read(**t);
        if (copy == 1) {
          Placed<T> c(**t);
          r = read(*c);
        } else if (copy == 2) {
          Placed<T> c;
          *c = std::move(**t);
          r = read(*c);
        }
        return r;
      });
      if (kind >= 1 && n == 0)
        mc::count("tuples without an operation");
    });
  }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
#ifdef MSAN
  const int depth = mc::thorough() ? 2 : 1;
#else
  const int depth = mc::thorough() ? 3 : 2;
#endif
  (void)depth;
#if PART == 0
  using B = Ring<BE, TC, void(const u8 (&)[2]), void(std::array<u8, 5>), void(), void(const u8 (&)[9])>;
  all_dispatchers<Ring<LE, TC, u16(u8), void(), O()>>(Go<B, 2>{depth});
#elif PART == 1
  using B = Ring<LE, SM, u8(std::array<u8, 8>), void(const u8 (&)[7]), u8()>;
  all_dispatchers<Ring<BE, OB, H(u8), u8(W), std::array<u8, 3>(bool)>>(Go<B, 2>{depth});
#elif PART == 2
  using B = Ring<LE, SM, u8(std::array<u8, 8>), u8(const u8 (&)[12])>;
  all_dispatchers<WideRing<BE, SM, 256, u8(), u32(u8), void(H)>>(Go<B, 2>{mc::thorough() ? 1 : 0});
  plain<Ring<LE, OC, H(O), N(), u16(u8)>, ANY>();
  plain<Ring<LE, OC, H(O), N(), u16(u8)>, WEAK>();
  plain<Ring<BE, OB, i64(u8), P(W), D()>, ANY>();
  plain<Ring<BE, OB, i64(u8), P(W), D()>, WEAK>();
#elif PART == 3
  using K = Ring<BE, OC, void(), H(H), O(O, bool), void(const u8 (&)[3], i64), i8(::rig::N, W), D(D, ::rig::P)>;
  all_keys<K>(mkseq_t<6>{});
  all_actions<K>(mkseq_t<6>{});
  using L = Ring<LE, TC, u8(u8), bool(H, u8, H), i32(u32, bool), W(std::array<u16, 2>)>;
  all_keys<L>(mkseq_t<4>{});
  all_actions<L>(mkseq_t<4>{});
#elif PART == 4
  Tuples<LE, TC, u8, u16, bool>::go();
  Tuples<BE, SM, O, u8, i32>::go();
  Tuples<BE, OB, ::rig::P, D>::go();
  Tuples<LE, OC, W, std::array<u16, 3>, i64>::go();
  Tuples<BE, TC, std::array<bool, 2>, ::rig::N>::go();
#endif
  int r = mc::finish();
#ifdef MSAN
  std::fflush(nullptr);
  _exit(r); // whatever MSan has to say about the C++ library
#endif
  return r;
}
