// Type-erased access to the keys of a keyring, to the actions that can be made for its callbacks and to its plain dispatchers.
#pragma once

#include "rig.hpp"

namespace rig {

// The arguments of a call, as objects
template<typename... A>
struct Boxes;
template<>
struct Boxes<> {
  explicit Boxes(const V *&) {}
};
template<typename A, typename... As>
struct Boxes<A, As...> {
  Box<bare<A>> head;
  Boxes<As...> tail;
  explicit Boxes(const V *&p) : head(p), tail(p) {}
};
template<std::size_t I>
struct box_at {
  template<typename B>
  static auto get(B &b) -> decltype(box_at<I - 1>::get(b.tail)) {
    return box_at<I - 1>::get(b.tail);
  }
};
template<>
struct box_at<0> {
  template<typename B>
  static auto get(B &b) -> decltype((b.head.v)) {
    return b.head.v;
  }
};

template<typename R>
struct ReadKey {
  template<typename K>
  static Vals run(const K &k, int form, Src &src, std::size_t exact) {
    Vals v;
    K &mk = const_cast<K &>(k);
    if (form & 1) {
      auto r = Reader<R, const K>::run(k, form, src, exact);
      TT<decltype(r)>::flat(r, v);
    } else {
      auto r = Reader<R, K>::run(mk, form, src, exact);
      TT<decltype(r)>::flat(r, v);
    }
    return v;
  }
};
template<>
struct ReadKey<void> {
  template<typename K>
  static Vals run(const K &k, int form, Src &src, std::size_t exact) {
    K &mk = const_cast<K &>(k);
    if (form & 1)
      Reader<void, const K>::run(k, form, src, exact);
    else
      Reader<void, K>::run(mk, form, src, exact);
    return {};
  }
};

// Hooks log what they receive
struct HookLog {
  std::vector<Vals> calls;
};
inline HookLog &hook_log() {
  static HookLog h;
  return h;
}
template<typename R>
struct Hook {
  static void fn(R r) {
    Vals v;
    TT<bare<R>>::flat(r, v);
    hook_log().calls.push_back(v);
  }
  using by_value = void(R);
  struct Functor {
    int tag;
    void operator()(const R &r) const { fn(r); }
  };
};
template<>
struct Hook<void> {
  static void fn() { hook_log().calls.push_back(Vals{}); }
  struct Functor {
    int tag;
    void operator()() const { fn(); }
  };
};
template<typename R>
struct HookPtr {
  using type = void (*)(R);
};
template<>
struct HookPtr<void> {
  using type = void (*)();
};

struct ActIf { // an action of any kind
  virtual ~ActIf() {}
  virtual std::size_t in() const = 0;
  virtual std::size_t out() const = 0;
  virtual bytes run(Src &src, int form, std::size_t exact_in, std::size_t exact_out) = 0;
  // Without output, if the action can do so
  virtual bool run_input(Src &src, int form, std::size_t exact_in) = 0;
};

// Runs `f(input, output)` in every combination of forms: input (function, temporary, iterator, pointer) x output likewise
enum { PROC_FORMS = 16 };
inline std::string proc_form(int f) {
  static const char *n[] = {"function", "temporary function", "iterator", "pointer"};
  return std::string(n[f / 4]) + "/" + n[f % 4];
}
template<typename R, typename F, typename In>
struct ProcOut {
  static R run(F &f, In &&in, int form, Sink &sink, std::size_t exact, byte *block) {
    switch (form) {
    case 0:
      return f(static_cast<In &&>(in), sink);
    case 1:
      return f(static_cast<In &&>(in), [&sink](byte b) { sink(b); });
    case 2:
      return f(static_cast<In &&>(in), OutIt{&sink});
    default:
      return f(static_cast<In &&>(in), block);
    }
  }
};
// Bytes written are in `out`. With the pointer form, `exact_out` bytes are offered and all of them are returned.
template<typename R, typename F>
struct Proc {
  static R run(F &f, Src &src, int form, std::size_t exact_in, std::size_t exact_out, bytes &out) {
    Sink sink;
    Exact block(exact_out);
    struct Fin {
      bytes &out;
      Sink &s;
      Exact &b;
      int form;
      ~Fin() { out = form % 4 == 3 ? b.get() : s.out; }
    } fin{out, sink, block, form};
    switch (form / 4) {
    case 0:
      return ProcOut<R, F, Src &>::run(f, src, form % 4, sink, exact_out, block.p);
    case 1: {
      auto l = [&src]() -> byte { return src(); };
      return ProcOut<R, F, decltype(l)>::run(f, std::move(l), form % 4, sink, exact_out, block.p);
    }
    case 2:
      return ProcOut<R, F, InIt>::run(f, InIt{&src}, form % 4, sink, exact_out, block.p);
    default: {
      Exact b(bytes(src.p + src.pos, src.p + src.pos + exact_in));
      src.pos += exact_in;
      const byte *p = b.p;
      return ProcOut<R, F, const byte *>::run(f, static_cast<const byte *&&>(p), form % 4, sink, exact_out, block.p);
    }
    }
  }
};

inline bool run_input_of(const upd::action &a, Src &src, int form, std::size_t exact) {
  switch (form % 4) {
  case 0:
    a(src);
    return true;
  case 1:
    a([&src]() -> byte { return src(); });
    return true;
  case 2:
    a(InIt{&src});
    return true;
  default: {
    Exact b(bytes(src.p + src.pos, src.p + src.pos + exact));
    src.pos += exact;
    a(static_cast<const byte *>(b.p));
    return true;
  }
  }
}
inline bool run_input_of(const upd::no_storage_action &, Src &, int, std::size_t) { return false; }

template<typename A>
struct Act : ActIf {
  A a;
  explicit Act(A &&x) : a(std::move(x)) {}
  std::size_t in() const override { return a.input_size(); }
  std::size_t out() const override { return a.output_size(); }
  bytes run(Src &src, int form, std::size_t ei, std::size_t eo) override {
    bytes o;
    if (form % 3 == 0) {
      const A &c = a;
      Proc<void, const A>::run(c, src, form, ei, eo, o);
    } else
      Proc<void, A>::run(a, src, form, ei, eo, o);
    return o;
  }
  bool run_input(Src &src, int form, std::size_t exact) override { return run_input_of(a, src, form, exact); }
};
template<typename A>
std::unique_ptr<ActIf> mk_act(A &&a) {
  return std::unique_ptr<ActIf>(new Act<bare<A>>(std::move(a)));
}

struct KeyIf {
  virtual ~KeyIf() {}
  virtual u64 index() const = 0;
  virtual std::size_t payload_length() const = 0;
  virtual std::size_t tuple_size() const = 0;
  // `times` sends of the same message, through different forms from `form` on
  virtual std::vector<bytes> send(const Vals &args, int form, std::size_t exact, int times) const = 0;
  // through tuples of arguments, invoked on a function which calls the key
  virtual std::vector<bytes> send_tuple(const Vals &args) const = 0;
  virtual Vals read(int form, Src &src, std::size_t exact) const = 0;
  virtual std::unique_ptr<ActIf> hook(int kind) const = 0; // 0 function, 1 function object, 2 unevaluated, 3 named function object
  virtual std::unique_ptr<ActIf> action(int kind) const = 0; // 0 function object, 1 function, 2 unevaluated
  virtual Vals direct(const Vals &args) const = 0;
};
enum { HOOKS = 4, ACTIONS = 3 };

template<typename Rg, std::size_t I, typename F = typename Rg::template F<I>>
struct KeyImpl;
template<typename Rg, std::size_t I, typename R, typename... A>
struct KeyImpl<Rg, I, R(A...)> : KeyIf {
  using K = typename Rg::template Key<I>;
  using H = typename Rg::template H<I>;
  using CbT = CbH<Rg::base + int(I), R(A...)>;
  K k;
  explicit KeyImpl(const K &k) : k(k) {}
  KeyImpl() : k(typename Rg::keyring{}.get(H{})) {}
  u64 index() const override { return u64(k.index); }
  std::size_t payload_length() const override { return k.payload_length; }
  std::size_t tuple_size() const override { return K::tuple_t::size; }

  template<typename M>
  static bytes drain(M &m, int form, std::size_t exact) {
    const M &c = m;
    return form & 1 ? drain_form(c, form, exact) : drain_form(m, form, exact);
  }
  template<std::size_t... Is>
  std::vector<bytes> send_(seq<Is...>, Boxes<A...> &b, int form, std::size_t exact, int times) const {
    std::vector<bytes> r;
    auto m = k(box_at<Is>::get(b)...);
    for (int i = 0; i < times; i++)
      r.push_back(drain(m, (form + i * 3) % OUT_FORMS, exact));
    return r;
  }
  std::vector<bytes> send(const Vals &args, int form, std::size_t exact, int times) const override {
    const V *p = args.data();
    Boxes<A...> b(p);
    return send_(mkseq_t<sizeof...(A)>{}, b, form, exact, times);
  }
  std::vector<bytes> send_tuple(const Vals &args) const override { return send_tuple_(mkseq_t<sizeof...(A)>{}, args); }
  template<std::size_t... Is>
  std::vector<bytes> send_tuple_(seq<Is...>, const Vals &args) const {
    const V *p = args.data();
    Boxes<A...> b(p);
    // the same arguments held by a tuple of parameters of the key, and by one of another format
    typename K::tuple_t t;
    upd::tuple<Rg::end == LE ? BE : LE, Rg::mode == TC   ? OB
               : Rg::mode == OB ? TC
               : Rg::mode == SM ? OC
                                : SM, bare<A>...> o;
    using discard = int[];
    (void)discard{0, (t.template set<Is>(box_at<Is>::get(b)), o.template set<Is>(box_at<Is>::get(b)), 0)...};
    Collector c{&k, {}};
    Collector d{&k, {}};
    collect(t, c);
    collect(o, d);
    return {c.out, d.out};
  }
  struct Collector {
    const K *k;
    bytes out;
    void operator()(const bare<A> &...args) {
      auto m = (*k)(const_cast<bare<A> &>(args)...);
      m.write_to(std::back_inserter(out));
    }
  };
  template<typename T>
  static void collect(const T &t, Collector &c) {
    t.invoke(c);
  }
  Vals read(int form, Src &src, std::size_t exact) const override { return ReadKey<R>::run(k, form, src, exact); }
#ifdef KEYS_ONLY
  std::unique_ptr<ActIf> hook(int) const override { return nullptr; }
  std::unique_ptr<ActIf> action(int) const override { return nullptr; }
#else
  std::unique_ptr<ActIf> hook(int kind) const override {
    using HR = bare<R>;
    switch (kind) {
    case 0:
      return mk_act(k.with_hook(&Hook<HR>::fn));
    case 1:
      return mk_act(k.with_hook(typename Hook<HR>::Functor{1}));
    case 2:
      return mk_act(k.with_hook(upd::unevaluated<typename HookPtr<HR>::type, &Hook<HR>::fn>{}));
    default: {
      typename Hook<HR>::Functor f{2};
      return mk_act(k.with_hook(f));
    }
    }
  }
  std::unique_ptr<ActIf> action(int kind) const override {
    upd::endianess_h<Rg::end> e;
    upd::signed_mode_h<Rg::mode> s;
    switch (kind) {
    case 0:
      return mk_act(upd::action{Fo<R(A...)>{Rg::base + int(I)}, e, s});
    case 1:
      return mk_act(upd::action{&cb<Rg::base + int(I), R, A...>, e, s});
    default:
      return mk_act(upd::no_storage_action{H{}, e, s});
    }
  }
#endif
  template<typename Q>
  struct Direct {
    template<std::size_t... Is>
    static Vals run(seq<Is...>, Boxes<A...> &b) {
      Vals v;
      auto r = CbT::call(static_cast<A>(box_at<Is>::get(b))...);
      TT<decltype(r)>::flat(r, v);
      return v;
    }
  };
  Vals direct(const Vals &args) const override {
    const V *p = args.data();
    Boxes<A...> b(p);
    return direct_(std::is_void<R>{}, mkseq_t<sizeof...(A)>{}, b);
  }
  template<std::size_t... Is>
  static Vals direct_(std::true_type, seq<Is...>, Boxes<A...> &b) {
    CbT::call(static_cast<A>(box_at<Is>::get(b))...);
    return {};
  }
  template<typename S>
  static Vals direct_(std::false_type, S s, Boxes<A...> &b) {
    return Direct<R>::run(s, b);
  }
};

template<typename Rg, typename Is = mkseq_t<Rg::size>>
struct KeyTable { // of the keys of the given positions
  std::vector<std::unique_ptr<KeyIf>> keys;
  std::vector<std::size_t> at;
  template<std::size_t... Is_>
  explicit KeyTable(seq<Is_...>) : at{Is_...} {
    using discard = int[];
    (void)discard{0, (keys.emplace_back(new KeyImpl<Rg, Is_>), 0)...};
  }
  KeyTable() : KeyTable(Is{}) {}
};

// --------------------------------------------------------------------------------------------------- keyring families

// All the signatures R(P) and R(P, Q) for P, Q in lists
template<endianess E, signed_mode S, typename R, typename... Ps>
using Unary = Ring<E, S, R(Ps)...>;
template<endianess E, signed_mode S, typename R, typename P, typename... Qs>
using Binary = Ring<E, S, R(P, Qs)...>;
template<endianess E, signed_mode S, typename R, typename P, typename Q, typename... Us>
using Ternary = Ring<E, S, R(P, Q, Us)...>;
template<endianess E, signed_mode S, typename P, typename... Rs>
using Returns = Ring<E, S, Rs(P)...>;

} // namespace rig
