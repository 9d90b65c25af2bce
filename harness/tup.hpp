// Type-erased access to tuples and views, for C03 and C04.
#pragma once

#include "rig.hpp"

namespace rig {

struct Elem {
  Leaves ls;
  std::size_t off, size;
  std::vector<Vals> opts; // values that the explorations give to the element
};

struct Shape {
  std::vector<Elem> elems;
  std::size_t size = 0;
  endianess e;
  signed_mode s;
  std::string name;

  bytes encode(std::size_t i, const Vals &v) const { return ref_encode(elems[i].ls, v, e, s); }
  Vals decode(std::size_t i, const bytes &content) const { return ref_decode(elems[i].ls, content.data() + elems[i].off, e, s); }
  void put(bytes &content, std::size_t i, const Vals &v) const {
    bytes b = encode(i, v);
    std::copy(b.begin(), b.end(), content.begin() + elems[i].off);
  }
  bytes zero() const {
    bytes c(size);
    for (std::size_t i = 0; i < elems.size(); i++)
      put(c, i, Vals(nvals(elems[i].ls), 0));
    return c;
  }
};

// Option k of an element of leaves `ls`: 0 largest values, 1 smallest values common to all formats, 2 distinct bytes
inline Vals elem_option(const Leaves &all, int k) {
  Vals v;
  int n = 0;
  for (const Leaf &l : value_leaves(all)) {
    V mx = leaf_max(l);
    if (k == 0)
      v.push_back(mx);
    else if (k == 1)
      v.push_back(l.sgn ? -mx : 0);
    else {
      V pat = 0;
      for (unsigned i = 0; i < l.size; i++)
        pat = pat * 256 + (0x11 + 0x1f * i + 0x23 * n) % 256;
      V r = pat % (mx + 1);
      v.push_back(l.sgn && n % 2 == 0 ? -r : r);
    }
    n++;
  }
  return v;
}

template<endianess E, signed_mode S, typename... Ts>
Shape shape_of(int nopts) {
  Shape sh;
  sh.e = E;
  sh.s = S;
  sh.name = fmt_name(E, S) + "<";
  std::vector<Leaves> ls{leaves_of<Ts>()...};
  std::vector<std::string> names{TT<Ts>::name()...};
  for (std::size_t i = 0; i < ls.size(); i++) {
    Elem el;
    el.ls = ls[i];
    el.off = sh.size;
    el.size = wire_size(ls[i]);
    for (int k = 0; k < nopts; k++) {
      Vals o = elem_option(ls[i], k);
      bool dup = false;
      for (auto &x : el.opts)
        dup = dup || x == o;
      if (!dup)
        el.opts.push_back(o);
    }
    sh.size += el.size;
    sh.elems.push_back(el);
    sh.name += (i ? "," : "") + names[i];
  }
  sh.name += ">";
  return sh;
}

// Operations on X, a tuple or a view of elements Ts
template<typename X, typename... Ts>
struct Ops {
  template<std::size_t I>
  using T = typename nth<I, types<Ts...>>::type;

  template<std::size_t I>
  static void set1(X &x, const Vals &v, int form) {
    Box<T<I>> b(v);
    if (form == 0)
      x.template set<I>(b.v);
    else
      upd::set<I>(x, b.v);
  }
  template<std::size_t I>
  static Vals get1(const X &x, int form) {
    Vals v;
    if (form == 0)
      TT<T<I>>::flat(x.template get<I>(), v);
    else
      TT<T<I>>::flat(upd::get<I>(x), v);
    return v;
  }
  template<std::size_t... Is>
  static void set_(seq<Is...>, X &x, std::size_t i, const Vals &v, int form) {
    using F = void (*)(X &, const Vals &, int);
    static const F f[] = {&set1<Is>...};
    f[i](x, v, form);
  }
  template<std::size_t... Is>
  static Vals get_(seq<Is...>, const X &x, std::size_t i, int form) {
    using F = Vals (*)(const X &, int);
    static const F f[] = {&get1<Is>...};
    return f[i](x, form);
  }
  using is = mkseq_t<sizeof...(Ts)>;
  static void set(X &x, std::size_t i, const Vals &v, int form) { set_(is{}, x, i, v, form); }
  static Vals get(const X &x, std::size_t i, int form) { return get_(is{}, x, i, form); }

  struct Collect {
    Vals *out;
    int *calls;
    int operator()(const Ts &...ts) const {
      *out = flatten<Ts...>(ts...);
      ++*calls;
      return 4242;
    }
  };
  static Vals invoke(const X &x) {
    Vals v;
    int calls = 0;
    int r = x.invoke(Collect{&v, &calls});
    MC_CHECK(r == 4242 && calls == 1, "invoke calls " << calls << " times and returns " << r);
    return v;
  }
};

template<endianess E, signed_mode S, typename... Ts>
struct MkTuple {
  using T = upd::tuple<E, S, Ts...>;
  template<std::size_t... Is>
  static T mk(seq<Is...>, const std::vector<Vals> &vs) {
    return T(Box<Ts>(vs[Is]).v...);
  }
  static T make(const std::vector<Vals> &vs) { return mk(mkseq_t<sizeof...(Ts)>{}, vs); }
};

template<typename... Ts>
struct has_c_array;
template<>
struct has_c_array<> : std::false_type {};
template<typename T, typename... Ts>
struct has_c_array<T, Ts...>
    : std::integral_constant<bool, std::is_array<T>::value || has_c_array<Ts...>::value> {};

} // namespace rig
