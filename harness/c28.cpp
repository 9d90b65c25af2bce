// C28: everything but owning actions works without dynamic allocation; owning actions allocate when they are made, only.
#include "lite.hpp"

#include <memory>

// Every way of allocating memory from the library is counted while an operation is under way
namespace {
bool armed;
unsigned long allocated, released;
} // namespace
extern "C" {
void *__real_malloc(std::size_t);
void *__real_calloc(std::size_t, std::size_t);
void *__real_realloc(void *, std::size_t);
void *__real_aligned_alloc(std::size_t, std::size_t);
int __real_posix_memalign(void **, std::size_t, std::size_t);
void *__wrap_malloc(std::size_t n) {
  allocated += armed;
  return __real_malloc(n);
}
void *__wrap_calloc(std::size_t a, std::size_t b) {
  allocated += armed;
  return __real_calloc(a, b);
}
void *__wrap_realloc(void *p, std::size_t n) {
  allocated += armed;
  return __real_realloc(p, n);
}
void *__wrap_aligned_alloc(std::size_t a, std::size_t n) {
  allocated += armed;
  return __real_aligned_alloc(a, n);
}
int __wrap_posix_memalign(void **p, std::size_t a, std::size_t n) {
  allocated += armed;
  return __real_posix_memalign(p, a, n);
}
}
static void *get(std::size_t n) {
  allocated += armed;
  void *p = __real_malloc(n ? n : 1);
  if (!p)
    std::abort();
  return p;
}
static void put(void *p) {
  released += armed && p;
  std::free(p);
}
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
#if __cplusplus >= 201703L
void *operator new(std::size_t n, std::align_val_t) { return get(n); }
void *operator new[](std::size_t n, std::align_val_t) { return get(n); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { put(p); }
#endif

namespace lite {
Trace *current;
}
using namespace lite;

namespace {

// What `f` allocates
template<typename F>
unsigned long count(F &&f) {
  allocated = 0;
  armed = true;
  f();
  armed = false;
  return allocated;
}

// -------------------------------------------------------------------------------------------------- large rings

using Big = std::array<u16, 150>;
u16 cb_big(const Big &b) {
  note(b[0]);
  return b[149];
}
Big cb_retbig(u8 v) {
  Big b;
  for (u16 &x : b)
    x = v++;
  return b;
}
template<int I>
u16 cb_n(u8 v) {
  note(v);
  return u16(I + v);
}
template<endianess E, signed_mode S>
using big_ring = upd::keyring<E, S, H<decltype(&cb_big), &cb_big>, H<decltype(&cb_retbig), &cb_retbig>, LITE_H(cb_void)>;

template<int... Is>
struct seq {};
template<int N, int... Is>
struct mk : mk<N - 1, N - 1, Is...> {};
template<int... Is>
struct mk<0, Is...> {
  using type = seq<Is...>;
};
template<endianess E, signed_mode S, typename Seq>
struct wide_impl;
template<endianess E, signed_mode S, int... Is>
struct wide_impl<E, S, seq<Is...>> {
  using type = upd::keyring<E, S, H<u16 (*)(u8), &cb_n<Is>>...>;
};
template<endianess E, signed_mode S>
using wide_ring = typename wide_impl<E, S, mk<257>::type>::type;

// --------------------------------------------------------------------------------------- sources and destinations

struct Line {
  byte b[1024];
  unsigned w = 0, r = 0;
};
Line *line_in, *line_out;
byte fn_get() { return line_in->b[line_in->r++ & 1023]; }
void fn_put(byte v) { line_out->b[line_out->w++ & 1023] = v; }

struct FatGet { // too large for any small buffer, and not trivial to copy
  Line *l;
  u64 pad[24];
  explicit FatGet(Line *l) : l{l} {}
  FatGet(const FatGet &o) : l{o.l} {}
  byte operator()() const { return l->b[l->r++ & 1023]; }
};
struct FatPut {
  Line *l;
  u64 pad[24];
  explicit FatPut(Line *l) : l{l} {}
  FatPut(const FatPut &o) : l{o.l} {}
  void operator()(byte v) const { l->b[l->w++ & 1023] = v; }
};
template<bool In>
struct FatIt { // an input or output iterator
  using iterator_category = typename std::conditional<In, std::input_iterator_tag, std::output_iterator_tag>::type;
  using value_type = typename std::conditional<In, byte, void>::type;
  using difference_type = typename std::conditional<In, std::ptrdiff_t, void>::type;
  using pointer = typename std::conditional<In, const byte *, void>::type;
  using reference = typename std::conditional<In, const byte &, void>::type;
  Line *l;
  u64 pad[24];
  explicit FatIt(Line *l) : l{l} {}
  FatIt(const FatIt &o) : l{o.l} {}
  FatIt &operator=(const FatIt &) = default;
};
struct FatIn : FatIt<true> {
  using FatIt<true>::FatIt;
  const byte &operator*() const { return l->b[l->r & 1023]; }
  FatIn &operator++() { return l->r++, *this; }
  const byte *operator++(int) { return &l->b[l->r++ & 1023]; }
  bool operator==(const FatIn &o) const { return l == o.l; }
  bool operator!=(const FatIn &o) const { return l != o.l; }
};
struct FatOut : FatIt<false> {
  using FatIt<false>::FatIt;
  FatOut &operator*() { return *this; }
  FatOut &operator++() { return *this; }
  FatOut &operator++(int) { return *this; }
  FatOut &operator=(byte v) {
    l->b[l->w++ & 1023] = v;
    return *this;
  }
};

enum { FORMS = 4 };
const char *form_name(int f) {
  static const char *n[] = {"function", "large functor", "pointer", "large iterator"};
  return n[f];
}

// The requests of a ring, encoded beforehand
template<typename R>
struct Requests {
  static constexpr int N = 2;
  static const char *name() { return "257 callbacks"; }
  static void make(int i, Rnd &r, Line &l) {
    l.w = 0;
    if (i == 0)
      typename R::template key_t<H<u16 (*)(u8), &cb_n<256>>>{}(r.get<u8>()).write_to(FatOut{&l});
    else
      typename R::template key_t<H<u16 (*)(u8), &cb_n<1>>>{}(r.get<u8>()).write_to(FatPut{&l});
  }
  static void response(int, Line &l) { note(typename R::template key_t<H<u16 (*)(u8), &cb_n<256>>>{}.read_from(FatIn{&l})); }
};
template<endianess E, signed_mode S>
struct Requests<ring_t<E, S>> {
  static constexpr int N = 6;
  static const char *name() { return "usual ring"; }
  static void make(int i, Rnd &r, Line &l) {
    Bytes b;
    Client<E, S>::request(unsigned(i), r, b);
    std::memcpy(l.b, b.b, b.w);
    l.w = b.w;
  }
  static void response(int i, Line &l) {
    Bytes b;
    std::memcpy(b.b, l.b, sizeof b.b);
    Client<E, S>::response(unsigned(i), b);
  }
};
template<endianess E, signed_mode S>
struct Requests<big_ring<E, S>> {
  static constexpr int N = 3;
  static const char *name() { return "large arguments"; }
  using R = big_ring<E, S>;
  static void make(int i, Rnd &r, Line &l) {
    line_out = &l;
    l.w = 0;
    if (i == 0) {
      Big b;
      for (u16 &x : b)
        x = r.get<u16>();
      typename R::template key_t<H<decltype(&cb_big), &cb_big>>{}(b).write_to(fn_put);
    } else if (i == 1)
      typename R::template key_t<H<decltype(&cb_retbig), &cb_retbig>>{}(r.get<u8>()).write_to(FatPut{&l});
    else
      typename R::template key_t<LITE_H(cb_void)>{}().write_to(l.b), l.w = 1;
  }
  static void response(int i, Line &l) {
    if (i == 0)
      note(typename R::template key_t<H<decltype(&cb_big), &cb_big>>{}.read_from(FatGet{&l}));
    else if (i == 1)
      note(typename R::template key_t<H<decltype(&cb_retbig), &cb_retbig>>{}.read_from(l.b)[3]);
  }
};
// ------------------------------------------------------------------------------------------------------ systems

struct Sink4 {
  static u8 f(const std::array<byte, 2> &a) { return a[0]; }
};
template<endianess E, signed_mode S>
using back_key = typename upd::keyring<E, S, H<u8 (*)(const std::array<byte, 2> &), &Sink4::f>>::template key_t<
    H<u8 (*)(const std::array<byte, 2> &), &Sink4::f>>;

template<typename D>
void move_around(D &d) {
  D other{std::move(d)};
  d = std::move(other);
}

template<typename R, upd::action_features AF, int K>
struct Sys {
  using plain = upd::dispatcher<R, AF>;
  using type = typename std::conditional<
      K == 0, plain,
      typename std::conditional<K == 1, upd::single_buffered_dispatcher<plain>, upd::double_buffered_dispatcher<plain>>::type>::type;
  using Q = Requests<R>;
  static constexpr int N = Q::N;
  static std::string name() {
    return std::string(K == 0 ? "plain" : K == 1 ? "single" : "double") + (AF == ANY ? ", any, " : ", weak, ") + Q::name();
  }
  alignas(type) char mem[sizeof(type)];
  type *d = nullptr;
  Line q, a;
  Rnd r{77};
  Trace t{0, 1};
  void make() { d = new (mem) type; }
  void drop() {
    if (d)
      d->~type();
    d = nullptr;
  }

  // requests in every form, then what the kind of dispatcher offers
  int nops() const { return N * FORMS + (K ? N + 6 : 3); }
  std::string op_name(int o) const {
    if (o < N * FORMS)
      return MC_STR("request " << o / FORMS << " through a " << form_name(o % FORMS));
    o -= N * FORMS;
    if (K && o < N)
      return MC_STR("request " << o << " put byte by byte");
    if (K)
      o -= N;
    static const char *nk[] = {"move", "unknown index", "replacement", "first byte of a packet", "one byte out", "reply"};
    return nk[o];
  }
  template<int Kind = K, typename std::enable_if<Kind == 0, int>::type = 0>
  void request(int i, int form) {
    Q::make(i, r, q);
    q.r = a.w = a.r = 0;
    switch (form) {
    case 0:
      line_in = &q;
      line_out = &a;
      (*d)(fn_get, fn_put);
      break;
    case 1:
      (*d)(FatGet{&q}, FatPut{&a});
      break;
    case 2:
      (*d)(q.b, a.b);
      break;
    default:
      (*d)(FatIn{&q}, FatOut{&a});
    }
    Q::response(i, a);
    d->get_action(FatGet{&q});
    d->get_index(FatGet{&q});
  }
  template<int Kind = K, typename std::enable_if<Kind != 0, int>::type = 0>
  void request(int i, int form) {
    Q::make(i, r, q);
    q.r = a.w = a.r = 0;
    switch (form) {
    case 0:
      line_in = &q;
      line_out = &a;
      d->read_from(fn_get);
      d->write_to(fn_put);
      break;
    case 1:
      (*d)(FatGet{&q}, FatPut{&a});
      break;
    case 2:
      d->read_from(q.b);
      d->write_to(a.b);
      break;
    default:
      (*d)(FatIn{&q}, FatOut{&a});
    }
    Q::response(i, a);
  }
  template<int Kind = K, typename std::enable_if<Kind == 0, int>::type = 0>
  void more(int o) {
    if (o == 0)
      move_around(*d);
    else if (o == 1) {
      std::memset(q.b, 0xff, 4);
      (*d)(q.b, a.b);
    } else
      replace();
  }
  template<int Kind = K, typename std::enable_if<Kind != 0, int>::type = 0>
  void more(int o) {
    if (o < N) {
      Q::make(o, r, q);
      for (unsigned k = 0; k < q.w; k++)
        d->put(q.b[k]);
      a.w = 0;
      while (d->is_loaded())
        fn_put_to(d->get());
      return;
    }
    switch (o - N) {
    case 0:
      move_around(*d);
      break;
    case 1:
      for (unsigned k = 0; k < sizeof(typename R::index_t); k++)
        d->put(0xff);
      break;
    case 2:
      replace();
      break;
    case 3:
      Q::make(0, r, q);
      d->put(q.b[0]);
      break;
    case 4:
      d->get();
      break;
    default:
      d->reply(FatPut{&a}, back_key<R::endianess, R::signed_mode>{});
    }
  }
  void fn_put_to(byte v) { a.b[a.w++ & 1023] = v; }
  void replace() { replace_in(static_cast<R *>(nullptr)); }
  template<endianess E, signed_mode S>
  void replace_in(ring_t<E, S> *) {
    d->template replace<0>(LITE_H(cb_mul2){});
  }
  template<endianess E, signed_mode S>
  void replace_in(big_ring<E, S> *) {
    d->template replace<2>(LITE_H(cb_void2){});
  }
  template<typename T>
  void replace_in(T *) {
    d->template replace<256>(H<u16 (*)(u8), &cb_n<3>>{});
  }
  bool may_allocate(int o) const { return AF == ANY && o == N * FORMS + (K ? N : 0) + 2; }
  void apply(int o) {
    current = &t;
    if (o < N * FORMS)
      request(o / FORMS, o % FORMS);
    else
      more(o - N * FORMS);
  }
};

template<typename R, upd::action_features AF, int K>
void sequences(int depth) {
  using S = Sys<R, AF, K>;
  mc::explore(S::name(), [depth](mc::Ch &ch) {
    auto sys = std::unique_ptr<S>(new S);
    released = 0;
    unsigned long total = count([&] { sys->make(); });
    MC_CHECK(AF == ANY || total == 0, "making the dispatcher allocates");
    for (int k = 0; k < depth; k++) {
      const int op = ch(sys->nops());
      const unsigned long n = count([&] { sys->apply(op); });
      total += n;
      MC_CHECK(n == 0 || sys->may_allocate(op), "'" << sys->op_name(op) << "' allocates " << n << " times");
    }
    total += count([&] { sys->drop(); });
    MC_CHECK(released == total, total << " blocks allocated, " << released << " released");
    mc::outcome(sys->t.h);
  });
}
template<typename R>
void dispatchers(int depth) {
  sequences<R, WEAK, 0>(depth);
  sequences<R, WEAK, 1>(depth);
  sequences<R, WEAK, 2>(depth);
  sequences<R, ANY, 0>(depth);
  sequences<R, ANY, 1>(depth);
  sequences<R, ANY, 2>(depth);
}

// -- everything else: the operations of lite.hpp, and actions on their own

struct Others {
  template<typename T>
  void add() {
    { T first(1); } // what is made once only
    mc::explore(MC_STR("operation " << T::name() << " " << format), [](mc::Ch &ch) {
      const u64 seed = u64(ch(64));
      Trace t{0, 1};
      current = &t;
      alignas(T) char mem[sizeof(T)];
      T *o = nullptr;
      const bool owning = std::strstr(T::name(), "any") || !std::strcmp(T::name(), "hook");
      unsigned long n = count([&] { o = new (mem) T(seed); });
      MC_CHECK(owning || n == 0, "making it allocates " << n << " times");
      for (int k = 0; k < 2; k++) {
        n = count([&] { o->run(); });
        MC_CHECK(n == 0, "it allocates " << n << " times");
      }
      n = count([&] { o->~T(); });
      MC_CHECK(n == 0, "destroying it allocates " << n << " times");
      mc::outcome(t.h);
    });
  }
  const char *format;
};

template<std::size_t Size>
struct Owned { // an owning callback of some size
  char pad[Size];
  u16 operator()(u8 v) const { return u16(u8(pad[Size / 2]) + v); }
};
template<std::size_t Size, endianess E, signed_mode S>
void actions() {
  mc::explore(MC_STR("actions owning " << Size << " bytes, " << (E == endianess::LITTLE ? "LE" : "BE")), [](mc::Ch &ch) {
    Owned<Size> f;
    std::memset(f.pad, 3, sizeof f.pad);
    Line q, a;
    std::memset(q.b, 5, sizeof q.b);
    released = 0;
    unsigned long total = 0;
    {
      upd::action one, two;
      total += count([&] { one = upd::action{f, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}}; });
      for (int k = 0; k < 4; k++) {
        const int op = ch(6);
        const unsigned long n = count([&] {
          switch (op) {
          case 0:
            one(FatGet{&q}, FatPut{&a});
            break;
          case 1:
            one(q.b, FatOut{&a});
            break;
          case 2:
            one(FatGet{&q});
            break;
          case 3:
            two = std::move(one);
            std::swap(one, two);
            break;
          case 4:
            if (one.input_size() + one.output_size() != 3)
              std::abort();
            break;
          default:
            one = upd::action{f, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}};
          }
        });
        MC_CHECK(n == 0 || op == 5, "operation " << op << " allocates");
        total += n;
      }
      armed = true;
    }
    armed = false;
    MC_CHECK(released == total, total << " blocks allocated, " << released << " released");
  });
}

} // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  [[gnu::unused]] constexpr endianess LE = endianess::LITTLE, BE = endianess::BIG;
  [[gnu::unused]] constexpr signed_mode TC = signed_mode::TWOS_COMPLEMENT, SM = signed_mode::SIGNED_MAGNITUDE;
  const int more = mc::thorough() ? 1 : 0;
#if PART == 0
  Others o;
  o.format = "LE/TC";
  all_operations<LE, TC>(o);
  o.format = "BE/SM";
  all_operations<BE, SM>(o);
  actions<1, LE, TC>();
  actions<16, LE, TC>();
  actions<100, BE, SM>();
  dispatchers<ring_t<LE, TC>>(3 + more);
#elif PART == 1
  dispatchers<big_ring<LE, TC>>(4 + more);
  dispatchers<big_ring<BE, SM>>(3 + more);
#else
  dispatchers<wide_ring<BE, SM>>(3 + more);
#endif
  return mc::finish();
}
