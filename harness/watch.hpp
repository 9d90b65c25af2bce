// Callbacks whose life is watched, and every form of replacement.
#pragma once

#include "rig.hpp"
#include <functional>
#include <set>

namespace rig {

// clang cannot deduce the arguments of `unevaluated<F &, f>` in C++17, hence only gcc can compile `replace<Index, f>()`
#if __cplusplus >= 201703L && !defined(__clang__)
#define REPLACE17 1
#else
#define REPLACE17 0
#endif

// ------------------------------------------------------------------------------------------- callbacks under surveillance
struct Watch {
  std::set<const void *> live;
  std::string error;
  u64 made = 0;
};
inline Watch &watch() {
  static Watch w;
  return w;
}
struct Token { // registers its address for as long as it lives
  Token() { add(); }
  Token(const Token &) { add(); }
  Token(Token &&) { add(); }
  Token &operator=(const Token &) {
    use();
    return *this;
  }
  ~Token() {
    if (!watch().live.erase(this))
      watch().error = "a callback is destroyed twice";
  }
  void add() {
    watch().made++;
    if (!watch().live.insert(this).second)
      watch().error = "a callback is constructed over a living one";
  }
  void use() const {
    if (!watch().live.count(this))
      watch().error = "a callback is used while it does not live";
  }
};
enum { CALLS = 3 };
// The identity of a callback is held by an owned block. A counting one goes through the identities id, id + 1, id + 2, id...
template<typename F, bool Counting, bool Copyable>
struct Ftor;
template<typename R, typename... A, bool Counting>
struct Ftor<R(A...), Counting, true> {
  Token t;
  std::shared_ptr<int> id;
  int n = 0;
  explicit Ftor(int i) : id(std::make_shared<int>(i)) {}
  Ftor(const Ftor &o) : t(o.t), id(o.id ? std::make_shared<int>(*o.id) : nullptr), n(o.n) {}
  Ftor(Ftor &&) = default;
  Ftor &operator=(const Ftor &) = delete;
  R operator()(A... a) {
    t.use();
    if (!id)
      mc::fail("a callback was emptied by a previous use");
    int i = *id + n;
    if (Counting)
      n = (n + 1) % CALLS;
    return Ret<R>::get(i, flatten<bare<A>...>(a...));
  }
};
template<typename R, typename... A, bool Counting>
struct Ftor<R(A...), Counting, false> {
  Token t;
  std::unique_ptr<int> id;
  explicit Ftor(int i) : id(new int(i)) {}
  Ftor(Ftor &&) = default;
  R operator()(A... a) const {
    t.use();
    if (!id)
      mc::fail("a callback was emptied by a previous use");
    return Ret<R>::get(*id, flatten<bare<A>...>(a...));
  }
};

template<int I, typename F>
struct Fn;
template<int I, typename R, typename... A>
struct Fn<I, R(A...)> {
  static R call(A... a) { return cb<I, R, A...>(static_cast<A>(a)...); }
  using H = upd::unevaluated<R (*)(A...), &cb<I, R, A...>>;
};

enum Form { FUNCTION, REFERENCE, TEMPORARY, NAMED, CONSTANT, UNEVALUATED, CPP17, SUBSCRIPT, MOVE_ONLY, COUNTING, LAMBDA, FORMS };
static const char *const form_name[] = {"function pointer", "function", "temporary", "named object", "constant object", "unevaluated",
                                  "C++17 template", "operator[]", "move-only object", "counting object", "lambda"};
inline bool stored(int form) {
  return form == TEMPORARY || form == NAMED || form == CONSTANT || form == SUBSCRIPT || form == MOVE_ONLY || form == COUNTING;
}
// identity of what is installed at an index by a form (C++17 and unevaluated ones are the same function)
template<int I>
struct IdOf {
  static constexpr int of(int form) { return 100 * (I + 1) + 4 * form; }
};

template<typename T, typename Rg, int I, upd::action_features AF>
struct Rep;
template<typename T, typename Rg, int I>
struct Rep<T, Rg, I, WEAK> {
  using F = typename Rg::template F<I>;
  static bool can(int form) {
    return form == UNEVALUATED || form == SUBSCRIPT
#if REPLACE17
           || form == CPP17
#endif
        ;
  }
  static void run(T &d, int form) {
    if (form == UNEVALUATED)
      d.template replace<I>(typename Fn<IdOf<I>::of(UNEVALUATED), F>::H{});
    else if (form == SUBSCRIPT)
      d[I] = upd::no_storage_action{typename Fn<IdOf<I>::of(SUBSCRIPT), F>::H{}, upd::endianess_h<Rg::end>{}, upd::signed_mode_h<Rg::mode>{}};
#if REPLACE17
    else
      d.template replace<I, Fn<IdOf<I>::of(CPP17), F>::call>();
#endif
  }
};
template<typename T, typename Rg, int I>
struct Rep<T, Rg, I, ANY> {
  using F = typename Rg::template F<I>;
  static bool can(int form) {
#if !REPLACE17
    if (form == CPP17)
      return false;
#endif
    return true;
  }
  template<typename R, typename... A>
  static void lambda(T &d, R (*)(A...)) {
    int id = IdOf<I>::of(LAMBDA);
    auto l = [id](A... a) -> R { return Ret<R>::get(id, flatten<bare<A>...>(a...)); };
    d.template replace<I>(l);
    id = 0;
  }
  static void run(T &d, int form) {
    const int id = IdOf<I>::of(form);
    switch (form) {
    case FUNCTION:
      d.template replace<I>(&Fn<IdOf<I>::of(FUNCTION), F>::call);
      break;
    case REFERENCE:
      d.template replace<I>(Fn<IdOf<I>::of(REFERENCE), F>::call);
      break;
    case TEMPORARY:
      d.template replace<I>(Ftor<F, false, true>{id});
      break;
    case NAMED: {
      Ftor<F, false, true> f{id};
      d.template replace<I>(f);
      MC_CHECK(f.id && *f.id == id, "the callback given by name is changed");
      *f.id = 7; // without influence on the copy
      break;
    }
    case CONSTANT: {
      const Ftor<F, false, true> f{id};
      d.template replace<I>(f);
      break;
    }
    case UNEVALUATED:
      d.template replace<I>(typename Fn<IdOf<I>::of(UNEVALUATED), F>::H{});
      break;
#if REPLACE17
    case CPP17:
      d.template replace<I, Fn<IdOf<I>::of(CPP17), F>::call>();
      break;
#endif
    case SUBSCRIPT:
      d[I] = upd::action{Ftor<F, false, true>{id}, upd::endianess_h<Rg::end>{}, upd::signed_mode_h<Rg::mode>{}};
      break;
    case MOVE_ONLY:
      d.template replace<I>(Ftor<F, false, false>{id});
      break;
    case COUNTING:
      d.template replace<I>(Ftor<F, true, true>{id});
      break;
    case LAMBDA:
      lambda(d, static_cast<F *>(nullptr));
      break;
    default:
      mc::fail("harness: form");
    }
  }
};
template<typename T, typename Rg, upd::action_features AF, typename Is = mkseq_t<(Rg::size < 3 ? Rg::size : 3)>>
struct Reps;
template<typename T, typename Rg, upd::action_features AF, std::size_t... Is>
struct Reps<T, Rg, AF, seq<Is...>> {
  static constexpr int count = sizeof...(Is);
  static void run(T &d, int i, int form) {
    using Fp = void (*)(T &, int);
    static const Fp t[] = {&Rep<T, Rg, int(Is), AF>::run...};
    t[i](d, form);
  }
  static bool can(int form) { return Rep<T, Rg, 0, AF>::can(form); }
};

// What is installed, along with the model
struct Installed {
  std::vector<int> form; // -1: the initial one
  std::vector<int> base;
  explicit Installed(const Spec &sp) : form(sp.sigs.size(), -1), base(sp.sigs.size(), 0) {}
  void set(Model &m, int i, int f) {
    form[i] = f;
    base[i] = 100 * (i + 1) + 4 * f;
    m.installed[i] = base[i];
  }
  void called(Model &m, std::size_t i) {
    if (form[i] == COUNTING)
      m.installed[i] = base[i] + (m.installed[i] - base[i] + 1) % CALLS;
  }
  std::size_t owned(upd::action_features af) const {
    std::size_t n = 0;
    for (int f : form)
      n += af == ANY && f >= 0 && stored(f);
    return n;
  }
};
inline void check_watch(std::size_t want, const char *what) {
  MC_CHECK(watch().error.empty(), what << ": " << watch().error);
  MC_CHECK(watch().live.size() == want, what << ": " << watch().live.size() << " callbacks are alive instead of " << want);
}

} // namespace rig
