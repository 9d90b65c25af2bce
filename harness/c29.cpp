// C29: every kind of callable is called in the same way wherever the library takes one, and keeps its own state.
#include "rig.hpp"

#include <functional>

#if THOROUGH
#  define SALTS 64
#else
#  define SALTS 8
#endif
using namespace rig;

// ------------------------------------------------------------------------------------------------- kinds of callables
// A stateful callable counts its calls: the n-th one has the identity id + 100 * n.

#define FUNCTOR(NAME, STATE, QUALIFIERS)                                                                               \
  template<typename F>                                                                                                 \
  struct NAME##_f;                                                                                                     \
  template<typename R, typename... A>                                                                                  \
  struct NAME##_f<R(A...)> {                                                                                           \
    int id;                                                                                                            \
    int n;                                                                                                             \
    explicit NAME##_f(int id) : id{id}, n{0} {}                                                                        \
    R operator()(A... a) QUALIFIERS { return Ret<R>::get(STATE, flatten<bare<A>...>(a...)); }                          \
  }
#define KIND(NAME, TEXT, STATEFUL, COPYABLE)                                                                           \
  struct NAME {                                                                                                        \
    static const char *name() { return TEXT; }                                                                         \
    static constexpr bool stateful = STATEFUL, copyable = COPYABLE;                                                    \
    template<typename F>                                                                                               \
    static NAME##_f<F> make(int id) {                                                                                  \
      return NAME##_f<F>(id);                                                                                          \
    }                                                                                                                  \
  }

FUNCTOR(Counting, id + 100 * n++, );
KIND(Counting, "functor with a state", true, true);
FUNCTOR(Const, id, const);
KIND(Const, "const functor", false, true);
FUNCTOR(ConstLvalue, id, const &);
KIND(ConstLvalue, "const & functor", false, true);
FUNCTOR(Volatile, id, volatile);
KIND(Volatile, "volatile functor", false, true);
FUNCTOR(ConstVolatile, id, const volatile);
KIND(ConstVolatile, "const volatile functor", false, true);
FUNCTOR(Noexcept, id + 100 * n++, noexcept);
KIND(Noexcept, "noexcept functor", true, true);
FUNCTOR(ConstNoexcept, id, const noexcept);
KIND(ConstNoexcept, "const noexcept functor", false, true);
FUNCTOR(ConstLvalueNoexcept, id, const &noexcept);
KIND(ConstLvalueNoexcept, "const & noexcept functor", false, true);
FUNCTOR(VolatileNoexcept, id, volatile noexcept);
KIND(VolatileNoexcept, "volatile noexcept functor", false, true);

template<typename F>
struct MoveOnly_f;
template<typename R, typename... A>
struct MoveOnly_f<R(A...)> {
  std::unique_ptr<int> id;
  explicit MoveOnly_f(int i) : id(new int(i)) {}
  R operator()(A... a) {
    const int k = *id;
    *id += 100;
    return Ret<R>::get(k, flatten<bare<A>...>(a...));
  }
};
KIND(MoveOnly, "functor which only moves", true, false);

template<typename F>
struct Final_f;
template<typename R, typename... A>
struct Final_f<R(A...)> final {
  int id;
  void operator&() const; // whose address is not to be taken
  explicit Final_f(int id) : id{id} {}
  R operator()(A... a) const { return Ret<R>::get(id, flatten<bare<A>...>(a...)); }
};
KIND(Final, "final functor", false, true);

template<typename F>
struct Derived_f : Counting_f<F> { // the call operator is inherited
  using Counting_f<F>::Counting_f;
  int pad[5] = {};
};
KIND(Derived, "derived functor", true, true);

template<typename F>
struct Virtual_f;
template<typename R, typename... A>
struct Virtual_f<R(A...)> {
  int id;
  explicit Virtual_f(int id) : id{id} {}
  virtual ~Virtual_f() {}
  virtual R operator()(A... a) { return Ret<R>::get(id, flatten<bare<A>...>(a...)); }
};
KIND(Virtual, "virtual functor", false, true);

template<typename F>
struct Lambdas;
template<typename R, typename... A>
struct Lambdas<R(A...)> {
  static R plain(A... a) { return Ret<R>::get(7, flatten<bare<A>...>(a...)); }
  static R quiet(A... a) noexcept { return Ret<R>::get(7, flatten<bare<A>...>(a...)); }
  using fn = R(A...);
};

struct Function {
  static const char *name() { return "function"; }
  static constexpr bool stateful = false, copyable = true;
  template<typename F>
  static F &make(int) {
    return Lambdas<F>::plain;
  }
};
struct Pointer {
  static const char *name() { return "pointer to function"; }
  static constexpr bool stateful = false, copyable = true;
  template<typename F>
  static F *make(int) {
    return &Lambdas<F>::plain;
  }
};
struct NoexceptPointer {
  static const char *name() { return "pointer to noexcept function"; }
  static constexpr bool stateful = false, copyable = true;
  template<typename F>
  static auto make(int) -> decltype(&Lambdas<F>::quiet) {
    return &Lambdas<F>::quiet;
  }
};
struct NoexceptFunction {
  static const char *name() { return "noexcept function"; }
  static constexpr bool stateful = false, copyable = true;
  template<typename F>
  static auto make(int) -> decltype(*&Lambdas<F>::quiet) {
    return Lambdas<F>::quiet;
  }
};
struct StdFunction {
  static const char *name() { return "std::function"; }
  static constexpr bool stateful = true, copyable = true;
  template<typename F>
  static std::function<F> make(int id) {
    return std::function<F>(Counting_f<F>(id));
  }
};

// Lambdas, whose types must be deduced: `g` receives the maker
template<typename F>
struct LambdaMaker;
template<typename R, typename... A>
struct LambdaMaker<R(A...)> {
  template<typename G>
  static void all(G g) {
    g("lambda without capture", false, [](int) { return [](A... a) -> R { return Ret<R>::get(7, flatten<bare<A>...>(a...)); }; });
    g("lambda", false, [](int id) { return [id](A... a) -> R { return Ret<R>::get(id, flatten<bare<A>...>(a...)); }; });
    g("mutable lambda", true, [](int id) {
      int n = 0;
      return [id, n](A... a) mutable -> R { return Ret<R>::get(id + 100 * n++, flatten<bare<A>...>(a...)); };
    });
    g("noexcept lambda", false,
      [](int id) { return [id](A... a) noexcept -> R { return Ret<R>::get(id, flatten<bare<A>...>(a...)); }; });
    g("mutable noexcept lambda", true, [](int id) {
      int n = 0;
      return [id, n](A... a) mutable noexcept -> R { return Ret<R>::get(id + 100 * n++, flatten<bare<A>...>(a...)); };
    });
  }
};

// ----------------------------------------------------------------------------------------------------- what is checked

template<typename F>
struct Fixture;
template<typename R, typename... A>
struct Fixture<R(A...)> {
  using F = R(A...);
  using tuple_args = types<bare<A>...>;
  static const Sig &sig() {
    static const Sig s = SigOf<F>::get();
    return s;
  }
  template<endianess E, signed_mode S>
  using tuple = upd::tuple<E, S, bare<A>...>;
};

// Values that differ at each call
inline int &salt() {
  static int n = 0;
  return n;
}
inline Vals some_args(const Sig &s, int k) { return default_ret(1000 + k + 10 * salt(), Vals{V(k)}, s.in); }

inline std::vector<Ev> take() {
  std::vector<Ev> l;
  l.swap(world().log);
  return l;
}
inline void expect(const char *where, const Sig &s, int id, const Vals &args, const bytes &out, endianess e, signed_mode m) {
  const std::vector<Ev> log = take(), want{Ev{id, args}};
  MC_CHECK(log == want, where << ": the calls are " << evstr(log) << " instead of " << evstr(want));
  const bytes ref = ref_encode(s.out, default_ret(id, args, s.out), e, m);
  MC_CHECK(out == ref, where << ": the response is " << mc::hex(out) << " instead of " << mc::hex(ref));
}

// Something which behaves as an action
template<typename Act>
void drive(const char *where, Act &&act, const Sig &s, int id, int from, bool stateful, endianess e, signed_mode m) {
  for (int n = from; n < from + 3; n++) {
    const Vals args = some_args(s, n);
    bytes in = ref_encode(s.in, args, e, m), out;
    if (n == from + 1) { // through iterators
      in.push_back(0);
      out.resize(s.out_size + 1);
      act(in.data(), out.data());
      out.resize(s.out_size);
    } else {
      std::size_t k = 0;
      act([&]() -> byte { return in.at(k++); }, [&](byte b) { out.push_back(b); });
      MC_CHECK(k == s.in_size, where << ": " << k << " bytes read instead of " << s.in_size);
    }
    expect(where, s, stateful ? id + 100 * n : id, args, out, e, m);
  }
}
template<typename D>
struct AsAction { // a dispatcher, through its callback of index 1
  D &d;
  const Sig &s;
  template<typename Src, typename Dst>
  void operator()(Src &&src, Dst &&dst) {
    run(src, dst, 0);
  }
  template<typename Src, typename Dst>
  auto run(Src &src, Dst &dst, int) -> decltype(src(), void()) {
    bool first = true;
    d([&]() -> byte { return first ? (first = false, byte(1)) : src(); }, dst);
  }
  template<typename Src, typename Dst>
  void run(Src &src, Dst &dst, ...) {
    bytes in{1};
    in.insert(in.end(), src, src + s.in_size);
    in.push_back(0);
    d(in.data(), dst);
  }
};

template<typename R>
struct InvokeRet {
  template<typename T, typename Call>
  static Vals go(const T &t, Call &&f) {
    Vals v;
    auto &&r = t.invoke(std::forward<Call>(f));
    TT<bare<R>>::flat(r, v);
    return v;
  }
};
template<>
struct InvokeRet<void> {
  template<typename T, typename Call>
  static Vals go(const T &t, Call &&f) {
    t.invoke(std::forward<Call>(f));
    return {};
  }
};

template<typename F, endianess E, signed_mode S>
struct Places {
  using Rg = RingB<E, S, 1, void(), F, u8(u8)>;
  using any = upd::dispatcher<typename Rg::keyring, upd::action_features::ANY>;
  using weak = upd::dispatcher<typename Rg::keyring, upd::action_features::WEAK_REFERENCE>;

  template<typename R, typename... A>
  static R returned(R (*)(A...));

  template<typename T, typename Call>
  static void invoke(const char *where, T &t, Call &&f, int id, int k) {
    const Sig &s = Fixture<F>::sig();
    const Vals args = some_args(s, k);
    const bytes b = ref_encode(s.in, args, E, S);
    std::size_t n = 0;
    for (auto it = t.begin(); it != t.end(); ++it)
      *it = b.at(n++);
    const Vals got = InvokeRet<decltype(returned(static_cast<F *>(nullptr)))>::go(t, std::forward<Call>(f));
    const std::vector<Ev> log = take(), want{Ev{id, args}};
    MC_CHECK(log == want, where << ": the calls are " << evstr(log) << " instead of " << evstr(want));
    const Vals ref = default_ret(id, args, s.out);
    MC_CHECK(got == ref, where << ": returned " << vstr(got) << " instead of " << vstr(ref));
  }
  // `make` produces a callable
  template<typename Make>
  static void all(const std::string &kind, bool stateful, Make make) {
    const upd::endianess_h<E> e{};
    const upd::signed_mode_h<S> m{};
    const Sig &s = Fixture<F>::sig();
    mc::explore(MC_STR(kind << " " << s.name << " " << fmt_name(E, S)), [&](mc::Ch &ch) {
      take();
      salt() = ch(SALTS, "values");
      const int place = ch(10, "place");
      switch (place) {
      case 0: {
        upd::action a{make(7), e, m};
        drive("action", a, s, 7, 0, stateful, E, S);
        upd::action b{std::move(a)};
        drive("moved action", b, s, 7, 3, stateful, E, S);
        MC_CHECK(b.input_size() == s.in_size && b.output_size() == s.out_size, "wrong sizes");
        break;
      }
      case 1: {
        auto a = typename Rg::template Key<2>{}.with_hook(make(7));
        drive("hook", a, s, 7, 0, stateful, E, S);
        break;
      }
      case 2: {
        any d;
        d.template replace<1>(make(7));
        drive("dispatcher", AsAction<any>{d, s}, s, 7, 0, stateful, E, S);
        drive("action of a dispatcher", d[1], s, 7, 3, stateful, E, S);
        break;
      }
      case 3: {
        upd::double_buffered_dispatcher<any> d;
        d.template replace<1>(make(7));
        drive("double-buffered dispatcher", AsAction<decltype(d)>{d, s}, s, 7, 0, stateful, E, S);
        break;
      }
      case 4: {
        upd::single_buffered_dispatcher<any> d;
        d.template replace<1>(make(7));
        drive("single-buffered dispatcher", AsAction<decltype(d)>{d, s}, s, 7, 0, stateful, E, S);
        d.template replace<1>(make(7));
        drive("single-buffered dispatcher, anew", AsAction<decltype(d)>{d, s}, s, 7, 0, stateful, E, S);
        break;
      }
      case 5: { // the functor itself is called
        typename Fixture<F>::template tuple<E, S> t;
        auto &&f = make(7);
        for (int k = 0; k < 3; k++)
          invoke("tuple", t, f, stateful ? 7 + 100 * k : 7, k);
        invoke("tuple, temporary functor", t, make(7), 7, 4);
        break;
      }
      case 6: {
        bytes mem(s.in_size + 1);
        auto v = view_of(mem.data(), typename Fixture<F>::tuple_args{});
        auto &&f = make(7);
        for (int k = 0; k < 3; k++)
          invoke("view", v, f, stateful ? 7 + 100 * k : 7, k);
        break;
      }
      case 7: {
        std::list<byte> mem(s.in_size + 1);
        auto v = view_of(mem.begin(), typename Fixture<F>::tuple_args{});
        auto &&f = make(7);
        for (int k = 0; k < 3; k++)
          invoke("view of a list", v, f, stateful ? 7 + 100 * k : 7, k);
        break;
      }
      default:
        copies(make, stateful, place == 9, std::integral_constant<bool, std::is_copy_constructible<typename std::decay<decltype(make(7))>::type>::value>{});
      }
    });
  }
  template<typename It, typename... Ts>
  static upd::tuple_view<It, E, S, Ts...> view_of(It it, types<Ts...>) {
    return upd::tuple_view<It, E, S, Ts...>(it);
  }
  // A callable given as an lvalue is copied: what happens to the original afterwards does not matter
  template<typename Make>
  static void copies(Make make, bool stateful, bool constant, std::true_type) {
    const upd::endianess_h<E> e{};
    const upd::signed_mode_h<S> m{};
    const Sig &s = Fixture<F>::sig();
    auto &&f = make(7);
    const auto &cf = f;
    upd::action a = constant ? upd::action{cf, e, m} : upd::action{f, e, m};
    any d;
    if (constant)
      d.template replace<1>(cf);
    else
      d.template replace<1>(f);
    drive("action of a copy", a, s, 7, 0, stateful, E, S);
    drive("dispatcher with a copy", AsAction<any>{d, s}, s, 7, 0, stateful, E, S);
    typename Fixture<F>::template tuple<E, S> t;
    invoke("the original", t, f, 7, 3);
    drive("action of a copy, after a call of the original", a, s, 7, 3, stateful, E, S);
  }
  template<typename Make>
  static void copies(Make, bool, bool, std::false_type) {}

  template<typename K>
  static void kind() {
    all(K::name(), K::stateful, [](int id) -> decltype(K::template make<F>(id)) { return K::template make<F>(id); });
  }
  struct Each {
    template<typename Make>
    void operator()(const char *n, bool stateful, Make make) const {
      all(n, stateful, make);
    }
  };
  static void go() {
    kind<Counting>();
    kind<Const>();
    kind<ConstLvalue>();
    kind<Volatile>();
    kind<ConstVolatile>();
    kind<Noexcept>();
    kind<ConstNoexcept>();
    kind<ConstLvalueNoexcept>();
    kind<VolatileNoexcept>();
    kind<MoveOnly>();
    kind<Final>();
    kind<Derived>();
    kind<Virtual>();
    kind<Function>();
    kind<Pointer>();
    kind<NoexceptPointer>();
    kind<NoexceptFunction>();
    kind<StdFunction>();
    LambdaMaker<F>::all(Each{});
    functions();
  }

  // Functions known at compile time, plain or noexcept
  template<typename Fn, Fn f>
  static void known(const char *kind) {
    using H = upd::unevaluated<Fn, f>;
    using K = upd::keyring<E, S, typename Rg::template H<0>, H>;
    const Sig &s = Fixture<F>::sig();
    mc::explore(MC_STR(kind << " " << s.name << " " << fmt_name(E, S)), [&](mc::Ch &ch) {
      take();
      salt() = ch(SALTS, "values");
      const upd::endianess_h<E> e{};
      const upd::signed_mode_h<S> m{};
      switch (ch(7, "place")) {
      case 0: {
        upd::no_storage_action a{H{}, e, m};
        drive("action without storage", a, s, 7, 0, false, E, S);
        MC_CHECK(a.input_size() == s.in_size && a.output_size() == s.out_size, "wrong sizes");
        break;
      }
      case 1:
        drive("hook", typename K::template key_t<H>{}.with_hook(H{}), s, 7, 0, false, E, S);
        break;
      case 2: {
        upd::dispatcher<K, upd::action_features::WEAK_REFERENCE> d;
        drive("keyring, weak dispatcher", AsAction<decltype(d)>{d, s}, s, 7, 0, false, E, S);
        break;
      }
      case 3: {
        upd::double_buffered_dispatcher<upd::dispatcher<K, upd::action_features::ANY>> d;
        drive("keyring, dispatcher", AsAction<decltype(d)>{d, s}, s, 7, 0, false, E, S);
        break;
      }
      case 4: {
        weak d;
        d.template replace<1>(H{});
        drive("weak dispatcher", AsAction<weak>{d, s}, s, 7, 0, false, E, S);
        break;
      }
      case 5: {
        upd::double_buffered_dispatcher<any> d;
        d.template replace<1>(H{});
        drive("owning dispatcher", AsAction<decltype(d)>{d, s}, s, 7, 0, false, E, S);
        break;
      }
      default: {
#if __cplusplus >= 201703L
        drive("hook of a known function", typename Rg::template Key<2>{}.template with_hook<*f>(), s, 7, 0, false, E, S);
        drive("action of a known function", upd::no_storage_action{upd::unevaluated<decltype(*f), *f>{}, e, m}, s, 7, 0, false, E, S);
        upd::single_buffered_dispatcher<weak> d;
        d.template replace<1, *f>();
        drive("single-buffered weak dispatcher", AsAction<decltype(d)>{d, s}, s, 7, 0, false, E, S);
        using K17 = decltype(upd::make_keyring(upd::flist<Lambdas<void()>::plain, *f>, e, m));
        upd::dispatcher<K17, upd::action_features::WEAK_REFERENCE> k;
        drive("flist, weak dispatcher", AsAction<decltype(k)>{k, s}, s, 7, 0, false, E, S);
#endif
      }
      }
    });
  }
  static void functions() {
    known<decltype(&Lambdas<F>::plain), &Lambdas<F>::plain>("known function");
    known<decltype(&Lambdas<F>::quiet), &Lambdas<F>::quiet>("known noexcept function");
  }
};
template<typename F, endianess E, signed_mode S>
void places() {
  Places<F, E, S>::go();
}

// -------------------------------------------------------------------------------------------- sources and destinations

struct Feed {
  bytes b;
  std::size_t n;
  int id;
};
Feed &feed() {
  static Feed f;
  return f;
}
bytes &sunk() {
  static bytes b;
  return b;
}
inline byte next() { return feed().n < feed().b.size() ? feed().b[feed().n++] : (feed().n++, byte(0)); }
inline void sink(int b) { sunk().push_back(byte(b)); }
inline byte next_function() { return next(); }
inline byte next_noexcept() noexcept { return next(); }
inline int next_int() { return next(); }
inline void sink_function(byte b) { sink(b); }
inline void sink_noexcept(byte b) noexcept { sink(b); }
inline void sink_int(int b) { sink(b); }

// Functors: `TYPE operator()() QUALIFIERS`
#define SOURCE(NAME, TYPE, QUALIFIERS, EXPR)                                                                           \
  struct NAME {                                                                                                        \
    static const char *name() { return #NAME " source"; }                                                              \
    static NAME make() { return NAME(); }                                                                              \
    TYPE operator()() QUALIFIERS { return EXPR; }                                                                      \
  }
#define DESTINATION(NAME, TYPE, QUALIFIERS)                                                                            \
  struct NAME {                                                                                                        \
    static const char *name() { return #NAME " destination"; }                                                         \
    static NAME make() { return NAME(); }                                                                              \
    void operator()(TYPE b) QUALIFIERS { sink(b); }                                                                    \
  }
// Something else than functors
#define MADE(NAME, TYPE, EXPR)                                                                                         \
  struct NAME {                                                                                                        \
    static const char *name() { return #NAME; }                                                                        \
    static TYPE make() { return EXPR; }                                                                                \
  }
template<typename F>
using function_of = F;
static byte kept;
SOURCE(ByteSource, byte, , next());
SOURCE(ConstSource, byte, const, next());
SOURCE(NoexceptSource, byte, noexcept, next());
SOURCE(ConstNoexceptSource, byte, const noexcept, next());
SOURCE(IntSource, int, , next());
SOURCE(LongSource, unsigned long long, const, next());
SOURCE(CharSource, char, , char(next()));
SOURCE(SignedSource, signed char, , static_cast<signed char>(next()));
SOURCE(ReferenceSource, byte &, , kept = next());
SOURCE(ConstReferenceSource, const byte &, const, kept = next());
SOURCE(RvalueSource, byte &&, , std::move(kept = next()));
struct OverloadedSource : ByteSource {
  static const char *name() { return "OverloadedSource"; }
  static OverloadedSource make() { return {}; }
  using ByteSource::operator();
  int operator()(int) { return -1; }
  byte operator()() const { return next(); } // hides the other one
};
struct DefaultSource : ByteSource {
  static const char *name() { return "DefaultSource"; }
  static DefaultSource make() { return {}; }
  byte operator()(int = 3, int = 4) { return next(); }
};
struct TemplateSource {
  static const char *name() { return "TemplateSource"; }
  static TemplateSource make() { return {}; }
  template<typename... T>
  byte operator()(T...) {
    return next();
  }
};
struct MoveOnlySource : ByteSource {
  static const char *name() { return "MoveOnlySource"; }
  static MoveOnlySource make() { return {}; }
  std::unique_ptr<int> p;
};
struct FinalSource final {
  static const char *name() { return "FinalSource"; }
  static FinalSource make() { return {}; }
  void operator&() const;
  byte operator()() { return next(); }
};
// Sources and destinations which keep their own state
struct OwnSource {
  static const char *name() { return "OwnSource"; }
  static OwnSource make() { return {}; }
  int id = -1;
  std::size_t n = 0;
  byte operator()() {
    if (id != feed().id)
      id = feed().id, n = 0;
    feed().n++;
    return n < feed().b.size() ? feed().b[n++] : byte(0);
  }
};
inline void kept_state(const OwnSource &s) { MC_CHECK(s.id == feed().id && s.n == feed().n, "the source is copied"); }
static ByteSource the_source;
MADE(WrappedSource, std::reference_wrapper<ByteSource>, std::ref(the_source));
MADE(WrappedFunctionSource, std::reference_wrapper<byte()>, std::ref(next_function));
MADE(FunctionSource, function_of<byte()> &, next_function);
MADE(NoexceptFunctionSource, decltype(*&next_noexcept), next_noexcept);
MADE(PointerSource, function_of<byte()> *, next_function);
MADE(NoexceptPointerSource, decltype(&next_noexcept), next_noexcept);
MADE(IntFunctionSource, function_of<int()> &, next_int);
MADE(StdSource, std::function<byte()>, next_function);
MADE(StdIntSource, std::function<int()>, next_function);
MADE(BoundSource, decltype(std::bind(&next_function)), std::bind(&next_function));

DESTINATION(ByteDestination, byte, );
DESTINATION(ConstDestination, byte, const);
DESTINATION(NoexceptDestination, byte, noexcept);
DESTINATION(ConstNoexceptDestination, byte, const noexcept);
DESTINATION(IntDestination, int, );
DESTINATION(LongDestination, unsigned long long, const);
DESTINATION(CharDestination, char, );
DESTINATION(ConstByteDestination, const byte, );
DESTINATION(ConstReferenceDestination, const byte &, const);
DESTINATION(RvalueIntDestination, int &&, );
struct OverloadedDestination : ByteDestination {
  static const char *name() { return "OverloadedDestination"; }
  static OverloadedDestination make() { return {}; }
  using ByteDestination::operator();
  void operator()() { sink(0); }
  void operator()(const char *) { sink(0); }
};
struct DefaultDestination {
  static const char *name() { return "DefaultDestination"; }
  static DefaultDestination make() { return {}; }
  void operator()(byte b, int = 3) { sink(b); }
};
struct TemplateDestination {
  static const char *name() { return "TemplateDestination"; }
  static TemplateDestination make() { return {}; }
  template<typename T>
  void operator()(T b) {
    sink(b);
    MC_CHECK(sizeof b == 1, "something else than bytes is written");
  }
};
struct MoveOnlyDestination : ByteDestination {
  static const char *name() { return "MoveOnlyDestination"; }
  static MoveOnlyDestination make() { return {}; }
  std::unique_ptr<int> p;
};
struct FinalDestination final {
  static const char *name() { return "FinalDestination"; }
  static FinalDestination make() { return {}; }
  void operator&() const;
  void operator()(byte b) { sink(b); }
};
struct OwnDestination {
  static const char *name() { return "OwnDestination"; }
  static OwnDestination make() { return {}; }
  int id = -1;
  bytes mine;
  void operator()(byte b) {
    if (id != feed().id)
      id = feed().id, mine.clear();
    mine.push_back(b);
    sunk() = mine;
  }
};
inline void kept_state(const OwnDestination &d) { MC_CHECK(d.id == feed().id && d.mine == sunk(), "the destination is copied"); }
struct Anything {
  template<typename T>
  Anything(const T &) {}
};
inline void kept_state(Anything) {}
static ByteDestination the_destination;
MADE(WrappedDestination, std::reference_wrapper<ByteDestination>, std::ref(the_destination));
MADE(WrappedFunctionDestination, std::reference_wrapper<void(byte)>, std::ref(sink_function));
MADE(FunctionDestination, function_of<void(byte)> &, sink_function);
MADE(NoexceptFunctionDestination, decltype(*&sink_noexcept), sink_noexcept);
MADE(PointerDestination, function_of<void(byte)> *, sink_function);
MADE(NoexceptPointerDestination, decltype(&sink_noexcept), sink_noexcept);
MADE(IntFunctionDestination, function_of<void(int)> &, sink_int);
struct StaticDestination {
  static const char *name() { return "StaticDestination"; }
  static StaticDestination make() { return {}; }
  static void put(byte b) { sink(b); }
  using type = void (*)(byte);
  operator type() const { return put; } // called through a conversion
};
MADE(StdDestination, std::function<void(byte)>, sink_function);
MADE(StdIntDestination, std::function<void(int)>, sink_int);
MADE(BoundDestination, decltype(std::bind(&sink_function, std::placeholders::_1)), std::bind(&sink_function, std::placeholders::_1));

template<typename... Ts>
struct list {};
using sources = list<ByteSource, OwnSource, ConstSource, NoexceptSource, ConstNoexceptSource, IntSource, LongSource, CharSource, SignedSource,
                     ReferenceSource, ConstReferenceSource, RvalueSource, OverloadedSource, DefaultSource, TemplateSource,
                     MoveOnlySource, FinalSource, WrappedSource, WrappedFunctionSource, FunctionSource, NoexceptFunctionSource,
                     PointerSource, NoexceptPointerSource, IntFunctionSource, StdSource, StdIntSource, BoundSource>;
using destinations =
    list<ByteDestination, ConstDestination, NoexceptDestination, OwnDestination, ConstNoexceptDestination, IntDestination, LongDestination,
         CharDestination, ConstByteDestination, ConstReferenceDestination, RvalueIntDestination,
         OverloadedDestination, DefaultDestination, TemplateDestination, MoveOnlyDestination, FinalDestination,
         WrappedDestination, WrappedFunctionDestination, FunctionDestination, NoexceptFunctionDestination, PointerDestination,
         NoexceptPointerDestination, IntFunctionDestination, StdDestination, StaticDestination,
         StdIntDestination, BoundDestination>;

template<endianess E, signed_mode S>
struct Streams {
  using F = i16(u8, i16);
  using Rg = RingB<E, S, 1, void(), F, void(const u8 (&)[4])>;
  using any = upd::dispatcher<typename Rg::keyring, upd::action_features::ANY>;
  using weak = upd::dispatcher<typename Rg::keyring, upd::action_features::WEAK_REFERENCE>;
  using K = typename Rg::template Key<1>;

  static Vals args(int k) { return some_args(Fixture<F>::sig(), k); }
  static void load(bool indexed, int k) { // a request, and what follows it
    bytes b = ref_encode(Fixture<F>::sig().in, args(k), E, S);
    if (indexed)
      b.insert(b.begin(), 1);
    b.push_back(0xa5);
    b.push_back(1);
    feed() = Feed{b, 0, feed().id + 1};
    sunk().clear();
  }
  static void loaded(const char *where, bool indexed) {
    MC_CHECK(feed().n == Fixture<F>::sig().in_size + indexed, where << ": " << feed().n << " bytes read");
  }
  template<typename D, typename Src, typename Dst>
  static void whole(const char *where, D &&d, bool indexed, int id, int k, Src &&src, Dst &&dst) {
    load(indexed, k);
    d(std::forward<Src>(src), std::forward<Dst>(dst));
    loaded(where, indexed);
    expect(where, Fixture<F>::sig(), id, args(k), sunk(), E, S);
  }
  // Both at once. A source or destination is given as a variable, or as a temporary object
  template<typename Sc, typename Dc>
  static void both() {
    mc::explore(MC_STR(Sc::name() << ", " << Dc::name() << " " << fmt_name(E, S)), [&](mc::Ch &ch) {
      take();
      const upd::endianess_h<E> e{};
      const upd::signed_mode_h<S> m{};
      salt() = ch(SALTS, "values");
      const int place = ch(6, "place");
      const bool temporary = ch(2, "temporary");
      auto &&src = Sc::make();
      auto &&dst = Dc::make();
#define WHOLE(WHERE, D, INDEXED, ID)                                                                                   \
  {                                                                                                                    \
    auto &&d_ = D;                                                                                                     \
    for (int k = 0; k < 2; k++)                                                                                        \
      if (temporary)                                                                                                   \
        whole(WHERE, d_, INDEXED, ID, k, Sc::make(), Dc::make());                                                      \
      else                                                                                                             \
        whole(WHERE, d_, INDEXED, ID, k, src, dst), kept_state(src), kept_state(dst);                                  \
  }
      switch (place) {
      case 0:
        WHOLE("action", (upd::action{Const::template make<F>(7), e, m}), false, 7);
        break;
      case 1:
        WHOLE("action without storage", (upd::no_storage_action{typename Rg::template H<1>{}, e, m}), false, 2);
        break;
      case 2: {
        any d;
        WHOLE("dispatcher", d, true, 2);
        WHOLE("action of a dispatcher", d[1], false, 2);
        break;
      }
      case 3: {
        weak d;
        WHOLE("weak dispatcher", d, true, 2);
        WHOLE("action of a weak dispatcher", d[1], false, 2);
        break;
      }
      case 4: {
        upd::double_buffered_dispatcher<weak> d;
        WHOLE("double-buffered dispatcher", d, true, 2);
        break;
      }
      default: {
        upd::single_buffered_dispatcher<weak> d;
        WHOLE("single-buffered dispatcher", d, true, 2);
      }
      }
    });
  }
  template<typename D, typename Src>
  static void buffered_read(const char *where, D &d, Src &&src, int k) {
    load(true, k);
    const upd::packet_status st = d.read_from(std::forward<Src>(src));
    MC_CHECK(st == upd::packet_status::RESOLVED_PACKET, where << ": the packet is not resolved");
    loaded(where, true);
    bytes out;
    while (d.is_loaded())
      d.write_to([&](byte b) { out.push_back(b); });
    expect(where, Fixture<F>::sig(), 2, args(k), out, E, S);
  }
  template<typename Src>
  static void key_read(Src &&src, int k) {
    const Sig &s = Fixture<F>::sig();
    const Vals v = default_ret(2, args(k), s.out);
    feed() = Feed{ref_encode(s.out, v, E, S), 0, feed().id + 1};
    const Vals got{V(K{}.read_from(std::forward<Src>(src)))};
    MC_CHECK(got == v && feed().n == s.out_size, "key: " << vstr(got) << " read instead of " << vstr(v));
  }
  template<typename D, typename Src>
  static void index(const char *where, D &d, Src &&src, int k) {
    load(true, k);
    const auto i = d.get_index(std::forward<Src>(src));
    MC_CHECK(i == 1 && feed().n == 1, where << ": index " << unsigned(i) << ", " << feed().n << " bytes read");
  }
  template<typename D, typename Src>
  static void found(const char *where, D &d, Src &&src, int k) {
    load(true, k);
    bytes out;
    auto *a = d.get_action(std::forward<Src>(src));
    MC_CHECK(a && feed().n == 1, where << ": " << feed().n << " bytes read");
    if (std::is_lvalue_reference<Src>::value)
      kept_state(src);
    (*a)(next_function, [&](byte b) { out.push_back(b); });
    loaded(where, true);
    expect(where, Fixture<F>::sig(), 2, args(k), out, E, S);
  }
  template<typename Sc>
  static void source() {
    mc::explore(MC_STR(Sc::name() << " " << fmt_name(E, S)), [&](mc::Ch &ch) {
      take();
      salt() = ch(SALTS, "values");
      const int place = ch(4, "place");
      const bool temporary = ch(2, "temporary");
      auto &&src = Sc::make();
      any d;
      weak w;
      upd::double_buffered_dispatcher<weak> b2;
      upd::single_buffered_dispatcher<any> b1;
      for (int k = 0; k < 2; k++)
        switch (place) {
        case 0:
          temporary ? key_read(Sc::make(), k) : (key_read(src, k), kept_state(src));
          break;
        case 1:
          temporary ? index("dispatcher", d, Sc::make(), k) : (index("dispatcher", d, src, k), kept_state(src));
          temporary ? index("weak dispatcher", w, Sc::make(), k) : (index("weak dispatcher", w, src, k), kept_state(src));
          break;
        case 2:
          temporary ? found("dispatcher", d, Sc::make(), k) : found("dispatcher", d, src, k);
          temporary ? found("weak dispatcher", w, Sc::make(), k) : found("weak dispatcher", w, src, k);
          break;
        default:
          temporary ? buffered_read("double-buffered", b2, Sc::make(), k) : (buffered_read("double-buffered", b2, src, k), kept_state(src));
          temporary ? buffered_read("single-buffered", b1, Sc::make(), k) : (buffered_read("single-buffered", b1, src, k), kept_state(src));
        }
    });
  }
  template<typename Dst>
  static void key_write(Dst &&dst, int k) {
    const Vals v = args(k);
    load(true, k);
    K{}(u8(v[0]), i16(v[1])).write_to(std::forward<Dst>(dst));
    const bytes ref(feed().b.begin(), feed().b.end() - 2);
    MC_CHECK(sunk() == ref, "key: " << mc::hex(sunk()) << " written instead of " << mc::hex(ref));
  }
  template<typename D, typename Dst>
  static void buffered_write(const char *where, D &d, Dst &&dst, int k) {
    load(true, k);
    d.read_from(next_function);
    d.write_to(std::forward<Dst>(dst));
    MC_CHECK(!d.is_loaded(), where << ": the response is still loaded");
    expect(where, Fixture<F>::sig(), 2, args(k), sunk(), E, S);
  }
  template<typename D, typename Dst>
  static void replied(const char *where, D &d, Dst &&dst, int k) {
    load(true, k);
    d.read_from(next_function);
    const Sig &s = Fixture<F>::sig();
    const Vals v = default_ret(2, args(k), s.out);
    const bool r = d.reply(std::forward<Dst>(dst), typename Rg::template Key<2>{});
    MC_CHECK(r, where << ": no reply");
    bytes ref = ref_encode(s.out, v, E, S);
    ref.resize(4);
    ref.insert(ref.begin(), 2);
    MC_CHECK(sunk() == ref, where << ": " << mc::hex(sunk()) << " written instead of " << mc::hex(ref));
    take();
  }
  template<typename Dc>
  static void destination() {
    mc::explore(MC_STR(Dc::name() << " " << fmt_name(E, S)), [&](mc::Ch &ch) {
      take();
      salt() = ch(SALTS, "values");
      const int place = ch(3, "place");
      const bool temporary = ch(2, "temporary");
      auto &&dst = Dc::make();
      upd::double_buffered_dispatcher<weak> b2;
      upd::single_buffered_dispatcher<any> b1;
      for (int k = 0; k < 2; k++)
        switch (place) {
        case 0:
          temporary ? key_write(Dc::make(), k) : (key_write(dst, k), kept_state(dst));
          break;
        case 1:
          temporary ? replied("double-buffered", b2, Dc::make(), k) : (replied("double-buffered", b2, dst, k), kept_state(dst));
          temporary ? replied("single-buffered", b1, Dc::make(), k) : (replied("single-buffered", b1, dst, k), kept_state(dst));
          break;
        default:
          temporary ? buffered_write("double-buffered", b2, Dc::make(), k) : (buffered_write("double-buffered", b2, dst, k), kept_state(dst));
          temporary ? buffered_write("single-buffered", b1, Dc::make(), k) : (buffered_write("single-buffered", b1, dst, k), kept_state(dst));
          break;
        }
    });
  }

  template<typename... Sc>
  static void each_source(list<Sc...>) {
    int _[] = {(source<Sc>(), 0)...};
    (void)_;
  }
  template<typename... Dc>
  static void each_destination(list<Dc...>) {
    int _[] = {(destination<Dc>(), 0)...};
    (void)_;
  }
  template<typename... Sc, typename... Dc>
  static void each_pair(list<Sc...>, list<Dc...>) {
    int _[] = {(both<Sc, Dc>(), 0)...};
    (void)_;
  }
  template<typename... Sc, typename... Dc>
  static void each_shifted_pair(list<Sc...>, list<ByteDestination, ConstDestination, NoexceptDestination, Dc...>) {
    each_pair(list<Sc...>{}, list<Dc..., ByteDestination, ConstDestination, NoexceptDestination>{});
  }
  static void go() {
    each_source(sources{});
    each_destination(destinations{});
    each_pair(sources{}, destinations{});
    each_shifted_pair(sources{}, destinations{});
  }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  places<i16(u8, i16), LE, TC>();
  places<i16(const u8 &, const i16 &), BE, SM>();
#elif PART == 1
  places<i16(u8 &&, i16 &&), LE, OC>();
  places<u32(const u16 (&)[3]), BE, TC>();
#elif PART == 2
  places<std::array<u8, 2>(const std::array<i16, 2> &, bool), LE, OB>();
  places<O(const O &, u8), BE, OC>();
#elif PART >= 4
  Streams<PART == 4 ? LE : BE, PART == 4 ? TC : OC>::go();
#else
  places<void(bool), LE, TC>();
  places<P(), BE, SM>();
  places<void(u16 (&&)[2]), LE, SM>();
#endif
  return mc::finish();
}
