// C14: replacing a callback affects that callback only, from then on; actions own their callbacks.
#include "disp.hpp"
#include "keys.hpp"
#include "watch.hpp"
using namespace rig;

// ------------------------------------------------------------------------------------------------- buffered dispatchers
static std::function<void()> on_next_call;
static bool hook(int) {
  if (on_next_call) {
    auto f = on_next_call;
    on_next_call = nullptr;
    f();
  }
  return false;
}

template<typename Di>
struct Buffered {
  using T = typename Di::type;
  using Rg = typename Di::ring;
  using R = Reps<T, Rg, Di::af>;
  const bytes &alpha;
  const Spec &sp;
  std::unique_ptr<Slot<T>> d;
  Model m;
  Installed in;
  std::vector<std::pair<int, int>> reps; // index, form
  int armed = -1;
  int last = -1; // replaced last, unless a request was completed since

  Buffered(const bytes &a, const Spec &s) : alpha(a), sp(s), m(s), in(s) {
    world() = World{};
    world().fail_hook = hook;
    on_next_call = nullptr;
    watch() = Watch{};
    d.reset(new Slot<T>);
    for (int i = 0; i < R::count; i++)
      for (int f = 0; f < FORMS; f++)
        if (R::can(f) && (i == 0 || !Di::dbl || f >= UNEVALUATED || mc::thorough()))
          reps.push_back({i, f});
    check_watch(0, "creation");
  }
  ~Buffered() { on_next_call = nullptr; }
  // put, drain, replacements, replacement of another callback by the next callback called, destruction
  int nops() const { return int(alpha.size() + 1 + reps.size() + 2); }
  std::string op_name(int op) const {
    std::size_t o = op;
    if (o < alpha.size())
      return "put(" + mc::hex(bytes(1, alpha[o])) + ")";
    o -= alpha.size();
    if (o == 0)
      return "write all";
    o--;
    if (o < reps.size())
      return MC_STR("replace " << reps[o].first << " by a " << form_name[reps[o].second]);
    return o == reps.size() ? "the next callback replaces the last one" : "destroy";
  }
  bool enabled(int op) const {
    if (!d)
      return false;
    if (op < int(alpha.size()))
      return !m.loaded() || Di::dbl;
    if (op == nops() - 2)
      return armed < 0 && m.ibuf.size() >= sp.w; // a request is being loaded
    return true;
  }
  void apply(int op) {
    std::size_t o = op;
    if (o < alpha.size()) {
      u64 idx = ~0ull;
      if (m.completes(alpha[o])) {
        Model c = m;
        c.ibuf.push_back(alpha[o]);
        idx = c.index();
      }
      Status want = m.put(alpha[o]);
      if (idx != ~0ull) {
        last = -1;
        in.called(m, idx);
        if (armed >= 0) {
          in.set(m, R::count - 1, armed);
          armed = -1;
        }
      }
      Status got = to_status((*d)->put(alpha[o]));
      MC_CHECK(got == want, "put: " << sname(got) << " instead of " << sname(want));
      MC_CHECK(world().log == m.log, "put: calls " << evstr(world().log) << " instead of " << evstr(m.log));
      world().log.clear();
      m.log.clear();
      mc::count(sname(want));
    } else if (o == alpha.size()) {
      bytes want = m.drain(), got = drain_form(**d, 0, want.size());
      MC_CHECK(got == want, "response: " << mc::hex(got) << " instead of " << mc::hex(want));
    } else if (o - alpha.size() - 1 < reps.size()) {
      auto r = reps[o - alpha.size() - 1];
      R::run(**d, r.first, r.second);
      last = r.first;
      in.set(m, r.first, r.second);
      mc::count("replacements");
    } else if (op == nops() - 2) {
      // only if the callback being loaded is not the replaced one: a callback cannot destroy itself
      armed = R::can(TEMPORARY) ? int(TEMPORARY) : int(UNEVALUATED);
      if (m.index() == u64(R::count - 1)) {
        armed = -1;
        return;
      }
      int f = armed;
      T *t = &**d;
      on_next_call = [t, f] { R::run(*t, R::count - 1, f); };
    } else {
      d.reset();
      check_watch(0, "destruction");
      mc::count("destructions");
      return;
    }
    MC_CHECK((*d)->is_loaded() == m.loaded(), "is_loaded " << (*d)->is_loaded());
    check_watch(in.owned(Di::af), "after the operation");
  }
  std::string key() const {
    if (!d)
      return "destroyed";
    return m.key() + "/" + std::to_string(armed) + "/" + std::to_string(m.pos) + "/" + std::to_string(m.trail) + "/" + std::to_string(last);
  }
};

// ---------------------------------------------------------------------------------------------------- plain dispatchers
template<typename Rg, upd::action_features AF>
struct PlainSys {
  using T = upd::dispatcher<typename Rg::keyring, AF>;
  using R = Reps<T, Rg, AF>;
  const Spec &sp;
  std::unique_ptr<T> d;
  Model m;
  Installed in;
  std::vector<std::pair<int, int>> reps;
  PlainSys(const Spec &s) : sp(s), m(s), in(s) {
    world() = World{};
    watch() = Watch{};
    d.reset(new T);
    for (int i = 0; i < R::count; i++)
      for (int f = 0; f < FORMS; f++)
        if (R::can(f))
          reps.push_back({i, f});
  }
  int nops() const { return R::count + int(reps.size()); }
  std::string op_name(int op) const {
    if (op < R::count)
      return MC_STR("request " << op);
    return MC_STR("replace " << reps[op - R::count].first << " by a " << form_name[reps[op - R::count].second]);
  }
  bool enabled(int) const { return true; }
  void apply(int op) {
    if (op < R::count) {
      bytes b = sp.index_bytes(u64(op));
      for (std::size_t j = 0; j < sp.sigs[op].in_size; j++)
        b.push_back(byte(j + 5));
      for (byte x : b)
        m.put(x);
      in.called(m, std::size_t(op));
      Src src(b);
      Sink sink;
      MC_CHECK((*d)(src, sink) == typename T::index_t(op), "index");
      bytes want = m.drain();
      MC_CHECK(sink.out == want, "response: " << mc::hex(sink.out) << " instead of " << mc::hex(want));
      MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
      world().log.clear();
      m.log.clear();
    } else {
      auto r = reps[op - R::count];
      R::run(*d, r.first, r.second);
      in.set(m, r.first, r.second);
    }
    check_watch(in.owned(AF), "after the operation");
  }
  std::string key() const { return m.key(); }
};

struct Go {
  bytes alpha;
  unsigned states, depth;
  template<typename Di>
  void run() {
    static const Spec sp = spec_of<typename Di::ring>();
    const bytes &a = alpha;
    mc::bfs(Di::name(), [&] { return std::unique_ptr<Buffered<Di>>(new Buffered<Di>(a, sp)); }, states, depth);
  }
};
template<typename Rg>
void plain(unsigned states) {
  static const Spec sp = spec_of<Rg>();
  mc::bfs("plain/any " + Rg::name(), [&] { return std::unique_ptr<PlainSys<Rg, ANY>>(new PlainSys<Rg, ANY>(sp)); }, states, 30);
  mc::bfs("plain/weak " + Rg::name(), [&] { return std::unique_ptr<PlainSys<Rg, WEAK>>(new PlainSys<Rg, WEAK>(sp)); }, states, 30);
}

// Single actions: whatever they are made from, they keep their callback, through moves, until they are destroyed
template<typename F>
void actions() {
  using C = Ftor<F, false, true>;
  using M = Ftor<F, false, false>;
  using K = Ftor<F, true, true>;
  static const Sig sg = SigOf<F>::get();
  mc::explore("actions of " + sg.name, [&](mc::Ch &ch) {
    world() = World{};
    watch() = Watch{};
    upd::endianess_h<BE> e;
    upd::signed_mode_h<OC> s;
    {
      std::vector<upd::action> v;
      std::vector<int> ids, calls;
      int id = 40;
      for (int k = 0; k < 4; k++) {
        int what = ch(v.empty() ? 4 : 8, "operation");
        switch (what) {
        case 0:
          v.emplace_back(C{id}, e, s);
          break;
        case 1: {
          C f{id};
          v.emplace_back(f, e, s);
          *f.id = 3;
          break;
        }
        case 2:
          v.emplace_back(M{id}, e, s);
          break;
        case 3:
          v.emplace_back(K{id}, e, s);
          break;
        case 4: { // move construction
          upd::action a{std::move(v.back())};
          v.back() = std::move(a);
          break;
        }
        case 5: // move assignment over another action
          if (v.size() < 2)
            return;
          v.front() = std::move(v.back());
          v.pop_back();
          ids.front() = ids.back();
          calls.front() = calls.back();
          ids.pop_back();
          calls.pop_back();
          break;
        case 6:
          v.erase(v.begin());
          ids.erase(ids.begin());
          calls.erase(calls.begin());
          break;
        default:
          for (std::size_t i = 0; i < v.size(); i++) {
            bytes in(sg.in_size, byte(5 + i));
            Vals args = ref_decode(sg.in, in.data(), BE, OC);
            int who = ids[i];
            if (who & 1)
              who = who - 1 + calls[i]++ % CALLS;
            bytes want = ref_encode(sg.out, default_ret(who, args, sg.out), BE, OC);
            Src src(in);
            Sink sink;
            world().log.clear();
            v[i](src, sink);
            MC_CHECK(sink.out == want, "action " << i << " answers " << mc::hex(sink.out) << " instead of " << mc::hex(want));
            MC_CHECK((world().log == std::vector<Ev>{Ev{who, args}}), "action " << i << " calls " << evstr(world().log));
          }
        }
        if (what < 4) {
          ids.push_back(what == 3 ? id + 1 : id);
          calls.push_back(0);
          id += 10;
        }
        check_watch(v.size(), "actions");
        for (auto &a : v)
          MC_CHECK(a.input_size() == sg.in_size && a.output_size() == sg.out_size, "sizes of an action");
      }
    }
    check_watch(0, "after the destruction of the actions");
  });
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
#if PART == 0
  Go g{{0, 1, 2, 0x35}, mc::thorough() ? 60000u : 4000u, 30};
  all_dispatchers<Ring<LE, TC, u16(u8), void(), u8(bool)>>(g);
#elif PART == 1
  Go g{{0, 1, 0xff}, mc::thorough() ? 60000u : 4000u, 30};
  all_dispatchers<Ring<BE, OB, void(i8), O()>>(g);
#elif PART == 2
  Go g{{0, 1, 2}, mc::thorough() ? 12000u : 700u, 30};
  all_dispatchers<WideRing<BE, SM, 256, u8(), u32(u8)>>(g);
  actions<u16(i8)>();
  actions<void()>();
#elif PART == 3
  plain<Ring<LE, OC, u16(u8), void(O), N()>>(mc::thorough() ? 60000u : 3000u);
  plain<Ring<BE, SM, void(), u64(const u8 &)>>(mc::thorough() ? 60000u : 3000u);
#endif
  return mc::finish();
}
