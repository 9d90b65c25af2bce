// C20: moving a dispatcher or an action carries its whole state along.
#include "disp.hpp"
#include "keys.hpp"
#include "watch.hpp"
using namespace rig;

enum Mv { CONSTRUCT, CONSTRUCT_KEEP, ASSIGN_FRESH, ASSIGN_USED, ASSIGN_USED_KEEP, ROUND_TRIP, SWAP, RETURN, GROW, MOVES };
static const char *const mv_name[] = {"move construction",
                                      "move construction, the source outliving its content",
                                      "move assignment to a new one",
                                      "move assignment to a used one",
                                      "move assignment to a used one, the source outliving its content",
                                      "move to another one and back",
                                      "swap with a used one",
                                      "return by value",
                                      "growth of a vector"};

template<typename T>
T pass(T t) {
  return t;
}

// Owns the dispatcher, and the leftovers of the last move
template<typename T>
struct Holder {
  std::unique_ptr<Slot<T>> d, left;
  std::unique_ptr<std::vector<T>> vec;
  Holder() : d(new Slot<T>) {}
  T &operator*() { return vec ? vec->back() : **d; }
  // `used` prepares a used dispatcher; returns whether the leftovers may still hold callbacks
  template<typename F>
  void move(int kind, F used) {
    left.reset();
    if (vec) { // back in a slot
      d.reset(new Slot<T>(std::move(vec->back())));
      vec.reset();
    }
    std::unique_ptr<Slot<T>> n;
    switch (kind) {
    case CONSTRUCT:
    case CONSTRUCT_KEEP:
      n.reset(new Slot<T>(std::move(**d)));
      if (kind == CONSTRUCT_KEEP)
        left = std::move(d);
      d = std::move(n);
      break;
    case ASSIGN_FRESH:
      n.reset(new Slot<T>);
      **n = std::move(**d);
      d = std::move(n);
      break;
    case ASSIGN_USED:
    case ASSIGN_USED_KEEP:
      n.reset(new Slot<T>);
      used(**n);
      **n = std::move(**d);
      if (kind == ASSIGN_USED_KEEP)
        left = std::move(d);
      d = std::move(n);
      break;
    case ROUND_TRIP: {
      n.reset(new Slot<T>(std::move(**d)));
      **d = std::move(**n);
      break;
    }
    case SWAP:
      n.reset(new Slot<T>);
      used(**n);
      std::swap(**d, **n);
      d = std::move(n);
      break;
    case RETURN:
      n.reset(new Slot<T>(pass(std::move(**d))));
      d = std::move(n);
      break;
    default:
      vec.reset(new std::vector<T>);
      vec->push_back(T{});
      used(vec->back());
      vec->shrink_to_fit();
      vec->push_back(std::move(**d));
      d.reset();
      vec->reserve(vec->capacity() + 8);
    }
  }
};

template<typename Di>
struct Moving {
  using T = typename Di::type;
  using Rg = typename Di::ring;
  using R = Reps<T, Rg, Di::af>;
  const bytes &alpha;
  const Spec &sp;
  Holder<T> d;
  Model m;
  Installed in;
  std::vector<std::pair<int, int>> reps;
  int last = -1;

  Moving(const bytes &a, const Spec &s) : alpha(a), sp(s), m(s), in(s) {
    world() = World{};
    for (int i = 0; i < R::count; i++)
      for (int f : {int(COUNTING), int(MOVE_ONLY), int(UNEVALUATED)})
        if (R::can(f) && (i == 0 || f != MOVE_ONLY) && (i < 2))
          reps.push_back({i, f});
  }
  // a dispatcher in the middle of everything, with callbacks of its own
  void used(T &t) {
    std::vector<Ev> keep = world().log;
    for (int i = 0; i < R::count; i++)
      R::run(t, i, R::can(TEMPORARY) ? int(TEMPORARY) : int(UNEVALUATED));
    for (std::size_t i = 0; i < sp.sigs.size() && i < 3; i++) {
      if (Model(sp).sp->sigs[i].out_size < 2)
        continue;
      bytes b = sp.index_bytes(i);
      b.resize(b.size() + sp.sigs[i].in_size, 0x44);
      for (byte x : b)
        t.put(x);
      t.get();
      break;
    }
    if (Di::dbl || !t.is_loaded())
      t.put(0);
    world().log = keep;
  }
  int nops() const { return int(alpha.size() + 2 + reps.size() + MOVES); }
  std::string op_name(int op) const {
    std::size_t o = op;
    if (o < alpha.size())
      return "put(" + mc::hex(bytes(1, alpha[o])) + ")";
    o -= alpha.size();
    if (o < 2)
      return o ? "write all" : "get";
    o -= 2;
    if (o < reps.size())
      return MC_STR("replace " << reps[o].first << " by a " << form_name[reps[o].second]);
    return mv_name[o - reps.size()];
  }
  bool enabled(int op) const { return op < int(alpha.size()) ? !m.loaded() || Di::dbl : true; }
  void apply(int op) {
    std::size_t o = op;
    if (o < alpha.size()) {
      u64 idx = ~0ull;
      if (m.completes(alpha[o])) {
        Model c = m;
        c.ibuf.push_back(alpha[o]);
        idx = c.index();
      }
      Status want = m.put(alpha[o]);
      if (idx != ~0ull)
        in.called(m, idx);
      Status got = to_status((*d).put(alpha[o]));
      MC_CHECK(got == want, "put: " << sname(got) << " instead of " << sname(want));
    } else if (o == alpha.size()) {
      byte want = m.get(), got = (*d).get();
      MC_CHECK(want == got, "get: " << int(got) << " instead of " << int(want));
    } else if (o == alpha.size() + 1) {
      bytes want = m.drain(), got = drain_form(*d, 0, want.size());
      MC_CHECK(got == want, "response: " << mc::hex(got) << " instead of " << mc::hex(want));
    } else if (o - alpha.size() - 2 < reps.size()) {
      auto r = reps[o - alpha.size() - 2];
      R::run(*d, r.first, r.second);
      in.set(m, r.first, r.second);
    } else {
      last = int(o - alpha.size() - 2 - reps.size());
      d.move(last, [this](T &t) { used(t); });
      mc::count(mv_name[last]);
    }
    MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
    MC_CHECK((*d).is_loaded() == m.loaded(), "is_loaded " << (*d).is_loaded());
    world().log.clear();
    m.log.clear();
    const std::size_t own = in.owned(Di::af);
    MC_CHECK(watch().error.empty(), watch().error);
    if (!d.left && !d.vec) // leftovers may hold callbacks for as long as they live
      check_watch(own, "after the operation");
    else
      MC_CHECK(watch().live.size() >= own, watch().live.size() << " callbacks are alive instead of " << own << " or more");
  }
  std::string key() const { return MC_STR(m.key() << "/" << last << "/" << m.trail); }
};

struct Go {
  bytes alpha;
  unsigned states;
  template<typename Di>
  void run() {
    static const Spec sp = spec_of<typename Di::ring>();
    const bytes &a = alpha;
    using S = Moving<Di>;
    mc::bfs(Di::name() + " moved", [&] {
      watch() = Watch{};
      return std::unique_ptr<S>(new S(a, sp));
    }, states, 60);
    mc::explore(Di::name() + " end of life", [&](mc::Ch &ch) {
      watch() = Watch{};
      {
        S s(a, sp);
        for (int i = 0; i < 3; i++) { // replacements and moves in any order
          int op = ch(int(s.reps.size()) + MOVES, "op");
          s.apply(int(a.size()) + 2 + op);
        }
      }
      check_watch(0, "in the end");
    });
  }
};

// Plain dispatchers
template<typename Rg, upd::action_features AF>
struct PlainMoving {
  using T = upd::dispatcher<typename Rg::keyring, AF>;
  using R = Reps<T, Rg, AF>;
  const Spec &sp;
  Holder<T> d;
  Model m;
  Installed in;
  std::vector<std::pair<int, int>> reps;
  int last = -1;
  PlainMoving(const Spec &s) : sp(s), m(s), in(s) {
    world() = World{};
    for (int i = 0; i < R::count && i < 2; i++)
      for (int f : {int(COUNTING), int(NAMED), int(UNEVALUATED)})
        if (R::can(f))
          reps.push_back({i, f});
  }
  int nops() const { return R::count + int(reps.size()) + MOVES; }
  std::string op_name(int op) const {
    if (op < R::count)
      return MC_STR("request " << op);
    op -= R::count;
    if (op < int(reps.size()))
      return MC_STR("replace " << reps[op].first << " by a " << form_name[reps[op].second]);
    return mv_name[op - int(reps.size())];
  }
  bool enabled(int) const { return true; }
  void apply(int op) {
    if (op < R::count) {
      bytes b = sp.index_bytes(u64(op));
      for (std::size_t j = 0; j < sp.sigs[op].in_size; j++)
        b.push_back(byte(j + 5));
      for (byte x : b)
        m.put(x);
      in.called(m, std::size_t(op));
      Src src(b);
      Sink sink;
      MC_CHECK((*d)(src, sink) == typename T::index_t(op), "index");
      bytes want = m.drain();
      MC_CHECK(sink.out == want, "response: " << mc::hex(sink.out) << " instead of " << mc::hex(want));
      MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
      world().log.clear();
      m.log.clear();
    } else if (op - R::count < int(reps.size())) {
      auto r = reps[op - R::count];
      R::run(*d, r.first, r.second);
      in.set(m, r.first, r.second);
    } else {
      last = op - R::count - int(reps.size());
      d.move(last, [](T &t) {
        for (int i = 0; i < R::count; i++)
          R::run(t, i, R::can(TEMPORARY) ? int(TEMPORARY) : int(UNEVALUATED));
      });
    }
    MC_CHECK(watch().error.empty(), watch().error);
    const std::size_t own = in.owned(AF);
    if (!d.left && !d.vec)
      check_watch(own, "after the operation");
    else
      MC_CHECK(watch().live.size() >= own, watch().live.size() << " callbacks are alive instead of " << own << " or more");
    for (int i = 0; i < R::count; i++) {
      const T &c = *d;
      MC_CHECK(c[typename T::index_t(i)].input_size() == sp.sigs[i].in_size && c[typename T::index_t(i)].output_size() == sp.sigs[i].out_size,
               "sizes of action " << i);
    }
  }
  std::string key() const { return MC_STR(m.key() << "/" << last); }
};
template<typename Rg, upd::action_features AF>
void plain(unsigned states) {
  static const Spec sp = spec_of<Rg>();
  using S = PlainMoving<Rg, AF>;
  mc::bfs(std::string("plain/") + (AF == ANY ? "any " : "weak ") + Rg::name(), [&] {
    watch() = Watch{};
    return std::unique_ptr<S>(new S(sp));
  }, states, 60);
}

// Single actions, of two signatures: whatever an action is moved from and to
template<typename A>
struct Made {
  std::unique_ptr<A> a;
  int sig = 0, id = 0, n = 0, kind = 0;
};
struct ActSys {
  using F0 = u16(i8, bool);
  using F1 = void(O);
  using F2 = N();
  static const Sig &sig(int i) {
    static const Sig s[] = {SigOf<F0>::get(), SigOf<F1>::get(), SigOf<F2>::get()};
    return s[i];
  }
};
template<typename F, typename A>
struct Mk;
template<typename F>
struct Mk<F, upd::action> {
  enum { KINDS = 5 };
  static upd::action make(int kind, int id) {
    upd::endianess_h<BE> e;
    upd::signed_mode_h<OC> s;
    switch (kind) {
    case 0:
      return upd::action{Ftor<F, true, true>{id}, e, s};
    case 1:
      return upd::action{Ftor<F, false, false>{id}, e, s};
    case 2: {
      Ftor<F, false, true> f{id};
      return upd::action{f, e, s};
    }
    case 3:
      return upd::action{&Fn<9, F>::call, e, s};
    default: {
      Fo<F> f{9};
      return upd::action{f, e, s};
    }
    }
  }
  static int ident(int kind, int id) { return kind < 3 ? id : 9; }
  static bool counting(int kind) { return kind == 0; }
  static bool stored(int kind) { return kind < 3; }
};
template<typename F>
struct Mk<F, upd::no_storage_action> {
  enum { KINDS = 2 };
  static upd::no_storage_action make(int kind, int) {
    upd::endianess_h<BE> e;
    upd::signed_mode_h<OC> s;
    if (kind == 0)
      return upd::no_storage_action{typename Fn<8, F>::H{}, e, s};
    return upd::no_storage_action{typename Fn<9, F>::H{}, e, s};
  }
  static int ident(int kind, int) { return 8 + kind; }
  static bool counting(int) { return false; }
  static bool stored(int) { return false; }
};
template<typename A>
A make_action(int sig, int kind, int id) {
  return sig == 0 ? Mk<ActSys::F0, A>::make(kind, id) : sig == 1 ? Mk<ActSys::F1, A>::make(kind, id) : Mk<ActSys::F2, A>::make(kind, id);
}
template<typename A>
void action_moves(const char *name) {
  using K = Mk<ActSys::F0, A>;
  mc::explore(name, [&](mc::Ch &ch) {
    watch() = Watch{};
    world() = World{};
    {
      Made<A> v[2];
      int k0 = ch(int(K::KINDS) * 3, "first"), k1 = ch(int(K::KINDS) * 3, "second");
      auto mk = [](Made<A> &x, int k, int id) {
        x.kind = k / 3;
        x.sig = k % 3;
        x.id = K::ident(x.kind, id);
        x.n = 0;
        x.a.reset(new A(make_action<A>(x.sig, x.kind, id)));
      };
      auto call = [](Made<A> &x) {
        const Sig &sg = ActSys::sig(x.sig);
        MC_CHECK(x.a->input_size() == sg.in_size && x.a->output_size() == sg.out_size, "sizes of an action");
        bytes in(sg.in_size, 0x15);
        Vals args = ref_decode(sg.in, in.data(), BE, OC);
        int who = x.id + x.n;
        if (K::counting(x.kind))
          x.n = (x.n + 1) % CALLS;
        Src src(in);
        Sink sink;
        world().log.clear();
        const A &c = *x.a;
        c(src, sink);
        bytes want = ref_encode(sg.out, default_ret(who, args, sg.out), BE, OC);
        MC_CHECK(sink.out == want && src.pos == in.size(), "the action answers " << mc::hex(sink.out) << " instead of " << mc::hex(want));
        MC_CHECK((world().log == std::vector<Ev>{Ev{who, args}}), "the action calls " << evstr(world().log) << " instead of #" << who);
      };
      mk(v[0], k0, 100);
      mk(v[1], k1, 200);
      for (int step = 0; step < 3; step++) {
        switch (ch(7, "operation")) {
        case 0: // construction
          v[0].a.reset(new A(std::move(*v[0].a)));
          break;
        case 1: // assignment over the other one, which is made again
          *v[1].a = std::move(*v[0].a);
          v[0].a = std::move(v[1].a);
          mk(v[1], k1, 200 + 10 * step);
          break;
        case 2:
          std::swap(*v[0].a, *v[1].a);
          std::swap(v[0].sig, v[1].sig);
          std::swap(v[0].id, v[1].id);
          std::swap(v[0].n, v[1].n);
          std::swap(v[0].kind, v[1].kind);
          break;
        case 3:
          v[0].a.reset(new A(pass(std::move(*v[0].a))));
          break;
        case 4: {
          std::vector<A> l;
          l.push_back(std::move(*v[0].a));
          l.push_back(std::move(*v[1].a));
          l.reserve(l.capacity() + 4);
          v[0].a.reset(new A(std::move(l[0])));
          *v[1].a = std::move(l[1]);
          break;
        }
        case 5: { // there and back
          A t{std::move(*v[0].a)};
          *v[0].a = std::move(t);
          break;
        }
        default:
          call(v[0]);
        }
        check_watch(K::stored(v[0].kind) + K::stored(v[1].kind), "actions");
      }
      call(v[0]);
      call(v[1]);
      call(v[0]);
    }
    check_watch(0, "in the end");
    mc::count("actions moved");
  });
}
// An action without any callback
void empty_actions() {
  mc::explore("empty actions", [&](mc::Ch &ch) {
    watch() = Watch{};
    world() = World{};
    {
      upd::action e, f{std::move(e)}, g = make_action<upd::action>(0, ch(5, "kind"), 50);
      if (ch(2, "over")) {
        upd::action h;
        h = std::move(g);
        g = std::move(h);
      }
      bytes in{1, 1};
      Src src(in);
      Sink sink;
      g(src, sink);
      MC_CHECK(sink.out.size() == 2 && world().log.size() == 1, "the action answers " << mc::hex(sink.out));
      world().log.clear();
      g = std::move(f);
      Src src2(in);
      g(src2, sink);
      MC_CHECK(sink.out.size() == 2 && world().log.empty(), "an empty action does something");
    }
    check_watch(0, "in the end");
  });
}

// Messages
template<typename Rg, std::size_t I, typename F = typename Rg::template F<I>>
struct Msg;
template<typename Rg, std::size_t I, typename R, typename... A>
struct Msg<Rg, I, R(A...)> {
  static std::vector<Vals> lists_of(const Spec &sp) {
    const bool large = value_leaves(sp.sigs[I].in).size() > 50;
    std::vector<Vals> l = value_lists(sp.sigs[I].in, sp.s, 0, large ? 0 : 1);
    if (large) {
      Vals v = l[0];
      const Leaves ls = value_leaves(sp.sigs[I].in);
      for (std::size_t k = 0; k < v.size(); k++)
        v[k] = V(k * 31 + 7) % (leaf_max(ls[k]) + 1);
      l.push_back(v);
    }
    return l;
  }
  template<std::size_t... Is>
  static void go(seq<Is...>) {
    static const Spec sp = spec_of<Rg>();
    static const std::vector<Vals> lists = lists_of(sp);
    mc::explore(Rg::name() + MC_STR(" messages of " << I), [&](mc::Ch &ch) {
      const Vals &a = lists[ch(int(lists.size()), "arguments")], &b = lists[ch(int(lists.size()), "other arguments")];
      typename Rg::template Key<I> k;
      const V *p = a.data(), *q = b.data();
      Boxes<A...> x(p), y(q);
      auto m = k(box_at<Is>::get(x)...);
      auto o = k(box_at<Is>::get(y)...);
      using M = decltype(m);
      bytes out, other;
      switch (ch(5, "move")) {
      case 0: {
        M n{std::move(m)};
        n.write_to(std::back_inserter(out));
        o.write_to(std::back_inserter(other));
        break;
      }
      case 1:
        o = std::move(m);
        o.write_to(std::back_inserter(out));
        other = sp.request(I, b);
        break;
      case 2:
        std::swap(m, o);
        o.write_to(std::back_inserter(out));
        m.write_to(std::back_inserter(other));
        break;
      case 3: {
        m.write_to(std::back_inserter(other)); // sent, then moved
        MC_CHECK(other == sp.request(I, a), "message before the move");
        std::unique_ptr<M> n(new M(std::move(m)));
        n->write_to(std::back_inserter(out));
        other = sp.request(I, b);
        break;
      }
      default: {
        std::unique_ptr<M> n(new M(pass(std::move(m))));
        o = std::move(*n);
        n.reset();
        o.write_to(std::back_inserter(out));
        other = sp.request(I, b);
      }
      }
      MC_CHECK(out == sp.request(I, a), "a moved message holds " << mc::hex(out) << " instead of " << mc::hex(sp.request(I, a)));
      MC_CHECK(other == sp.request(I, b), "the other message holds " << mc::hex(other));
      mc::count("messages moved");
    });
  }
};
template<typename Rg, std::size_t... Is>
void messages(seq<Is...>) {
  using discard = int[];
  (void)discard{0, (Msg<Rg, Is>::go(mkseq_t<8>{}), 0)...};
}
template<typename Rg, std::size_t I, std::size_t N>
struct AllMsg {
  template<typename R, typename... A>
  static void one(R (*)(A...)) {
    Msg<Rg, I>::go(mkseq_t<sizeof...(A)>{});
  }
  static void go() {
    one(static_cast<typename Rg::template F<I> *>(nullptr));
    AllMsg<Rg, I + 1, N>::go();
  }
};
template<typename Rg, std::size_t N>
struct AllMsg<Rg, N, N> {
  static void go() {}
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
  const unsigned lim = mc::thorough() ? 60000u : 1500u;
#if PART == 0
  all_dispatchers<Ring<LE, TC, u16(u8), void(), u8(bool)>>(Go{{0, 1, 2}, lim});
#elif PART == 1
  all_dispatchers<Ring<BE, OB, void(i8), O()>>(Go{{0, 1, 0xff}, lim});
#elif PART == 2
  all_dispatchers<WideRing<BE, SM, 256, u8(), u32(u8)>>(Go{{0, 1, 2}, mc::thorough() ? 6000u : 200u});
#elif PART == 3
  plain<Ring<LE, OC, u16(u8), void(O), N()>, ANY>(lim);
  plain<Ring<LE, OC, u16(u8), void(O), N()>, WEAK>(lim);
  plain<Ring<BE, SM, void(), u64(const u8 &)>, ANY>(lim);
  action_moves<upd::action>("owning actions");
  action_moves<upd::no_storage_action>("actions without storage");
  empty_actions();
  using K = Ring<BE, OC, void(), u16(u8), O(O, bool), void(const u8 (&)[3], i64), i8(::rig::N, W)>;
  AllMsg<K, 0, 5>::go();
  AllMsg<Ring<LE, SM, void(std::array<u8, 300>), u8(u8 (&&)[256], bool)>, 0, 2>::go();
#endif
  return mc::finish();
}
