// C18: calling remotely is indistinguishable from calling locally.
#define KEYS_ONLY
#include "disp.hpp"
#include "keys.hpp"
using namespace rig;

struct Call {
  int key;
  Vals args;
};
// The first keys of a keyring
template<typename Rg>
using Keys = KeyTable<Rg, mkseq_t<(Rg::size < 40 ? Rg::size : 40)>>;

static std::string cstr(const Call &c) { return "#" + std::to_string(c.key) + vstr(c.args); }

// What direct calls return and do
template<typename Rg>
static void locally(Keys<Rg> &keys, const std::vector<Call> &script, std::vector<Vals> &results, std::vector<Ev> &log) {
  World keep = world();
  world() = World{};
  for (auto &c : script)
    results.push_back(keys.keys[c.key]->direct(c.args));
  log = world().log;
  world() = keep;
}

// A caller, a callee and two bounded byte channels. The caller emits its requests without waiting for the responses.
template<typename Di>
struct Rpc {
  using T = typename Di::type;
  using Rg = typename Di::ring;
  enum { EMIT, PUT, GET, WRITE, RECEIVE, NOISE, OPS };
  const std::vector<Call> &script;
  const Spec &sp;
  Keys<Rg> &keys;
  const std::vector<Vals> &results;
  const std::vector<Ev> &log;
  std::size_t cap_req, cap_resp;
  int forms; // rotates the input and output forms of the caller
  Slot<T> d;
  Model m; // only tells the callee whether a byte completes a request while a response is pending
  std::deque<byte> req, resp;
  bytes tx, rx;
  int max_noise;
  std::string noise; // after how many requests invalid ones are emitted
  std::size_t sent = 0, done = 0, emitted = 0, puts = 0, gets = 0, received = 0;

  Rpc(const std::vector<Call> &s, const Spec &sp, Keys<Rg> &k, const std::vector<Vals> &r, const std::vector<Ev> &l, std::size_t c1,
      std::size_t c2, int f, int mn)
      : script(s), sp(sp), keys(k), results(r), log(l), cap_req(c1), cap_resp(c2), forms(f), m(sp), max_noise(mn) {
    world() = World{};
    skip();
  }
  int nops() const { return OPS; }
  std::string op_name(int op) const {
    static const char *n[] = {"caller emits a byte", "callee loads a byte", "callee unloads a byte", "callee writes its response",
                              "caller receives a byte",
                              "an invalid request is about to be emitted"};
    return n[op];
  }
  bool enabled(int op) const {
    switch (op) {
    case EMIT:
      return (sent < script.size() || !tx.empty()) && req.size() < cap_req;
    case PUT:
      return !req.empty() && (!d.obj->is_loaded() || (Di::dbl && !m.completes(req.front())));
    case GET:
      return d.obj->is_loaded() && resp.size() < cap_resp;
    case WRITE:
      return d.obj->is_loaded() && resp.size() + m.rest().size() <= cap_resp;
    case NOISE: // only before a request, so that it does not matter to the termination
      return int(noise.size()) < max_noise && tx.empty() && sent < script.size();
    default:
      return !resp.empty();
    }
  }
  // Results without any byte are available at once
  void skip() {
    while (done < script.size() && rx.size() == sp.sigs[script[done].key].out_size) {
      const Call &c = script[done];
      if (rx.empty() && done >= started())
        break;
      Src src(rx);
      Vals got = keys.keys[c.key]->read((forms + int(done)) % IN_FORMS, src, rx.size());
      MC_CHECK(got == results[done], cstr(c) << " returns " << vstr(got) << " remotely instead of " << vstr(results[done]));
      MC_CHECK(src.pos == rx.size(), "the key reads " << src.pos << " bytes");
      rx.clear();
      done++;
    }
  }
  std::size_t started() const { return world().log.size(); }
  void apply(int op) {
    switch (op) {
    case EMIT:
      if (tx.empty()) {
        const Call &c = script[sent];
        tx = keys.keys[c.key]->send(c.args, (forms + int(sent)) % OUT_FORMS, sp.w + sp.sigs[c.key].in_size, 1)[0];
        MC_CHECK(!tx.empty(), "an empty request");
        sent++;
      }
      req.push_back(tx.front());
      tx.erase(tx.begin());
      emitted++;
      break;
    case PUT: {
      byte b = req.front();
      req.pop_front();
      Status want = m.put(b), st = to_status(d->put(b));
      MC_CHECK(st == want, "status " << sname(st) << " instead of " << sname(want));
      puts++;
      break;
    }
    case GET:
      m.get();
      resp.push_back(d->get());
      gets++;
      break;
    case WRITE: {
      m.drain();
      Sink s;
      d->write_to(s);
      for (byte b : s.out)
        resp.push_back(b);
      gets += s.out.size();
      break;
    }
    case NOISE:
      tx = sp.index_bytes(sp.sigs.size() + noise.size() % 2 * 3);
      noise += char('0' + sent);
      break;
    default:
      rx.push_back(resp.front());
      resp.pop_front();
      received++;
    }
    skip();
    const std::vector<Ev> &l = world().log;
    MC_CHECK(l.size() <= log.size() && std::equal(l.begin(), l.end(), log.begin()), "remote calls " << evstr(l) << ", local ones " << evstr(log));
    bool any = false;
    for (int o = 0; o < OPS; o++)
      any |= enabled(o);
    if (!any) {
      MC_CHECK(done == script.size() && l == log && req.empty() && resp.empty() && tx.empty() && rx.empty(),
               "nothing can happen anymore after " << done << " results of " << script.size() << ", calls " << evstr(l));
      mc::count("complete schedules' last states");
    }
  }
  std::string key() const { return MC_STR(emitted << "," << puts << "," << gets << "," << received << "," << noise << (tx.empty() ? "|" : "+|")) + RawKey<T>::get()(d); }
};

struct Go {
  std::vector<Call> calls;
  int depth;
  std::size_t c1, c2;
  int noise;
  template<typename Di>
  void run() {
    using Rg = typename Di::ring;
    static const Spec sp = spec_of<Rg>();
    static Keys<Rg> keys;
    std::vector<int> ix(depth, 0);
    int n = 0;
    for (;;) {
      std::vector<Call> script;
      std::string name;
      for (int i : ix) {
        script.push_back(calls[i]);
        name += cstr(calls[i]);
      }
      std::vector<Vals> results;
      std::vector<Ev> log;
      locally(keys, script, results, log);
      n++;
      using S = Rpc<Di>;
      std::size_t a = c1 + n % 2, b = c2 + n / 2 % 2;
      mc::bfs(Di::name() + MC_STR(" " << name << " channels " << a << "/" << b << (noise ? " with invalid requests" : "")),
              [&] { return std::unique_ptr<S>(new S(script, sp, keys, results, log, a, b, n, noise)); }, 100000, 10000);
      int p = 0;
      while (p < depth && ++ix[p] == int(calls.size()))
        ix[p++] = 0;
      if (p == depth)
        break;
    }
  }
};

// Every boundary argument list and every boundary result, in lock-step, through every kind of callee
template<typename T>
bytes serve_plain(T &d, const bytes &p, int form, std::size_t out) {
  Src s(p);
  bytes o;
  Proc<typename T::index_t, T>::run(d, s, form, p.size(), out, o);
  MC_CHECK(s.pos == p.size(), "the dispatcher reads " << s.pos << " bytes of " << p.size());
  return o;
}
template<typename T>
bytes serve_buffered(T &d, const bytes &p, int form, std::size_t out) {
  Src s(p);
  bytes o;
  if (form % 2) {
    Proc<upd::packet_status, T>::run(d, s, form, p.size(), out, o);
  } else {
    MC_CHECK(to_status(Reader<upd::packet_status, T>::run(d, form / 2 % IN_FORMS, s, p.size())) == RESOLVED, "not resolved");
    o = drain_form(d, form / 2 % OUT_FORMS, out);
  }
  MC_CHECK(s.pos == p.size() && !d.is_loaded(), "the dispatcher reads " << s.pos << " bytes of " << p.size());
  return o;
}
template<typename Rg>
void values(int level, unsigned dev) {
  static const Spec sp = spec_of<Rg>();
  static Keys<Rg> keys;
  static typename Disp<Rg, false, ANY>::plain pa;
  static typename Disp<Rg, false, WEAK>::plain pw;
  static typename Disp<Rg, false, WEAK>::type sw;
  static typename Disp<Rg, true, ANY>::type da;
  for (std::size_t i = 0; i < Rg::size; i++) {
    const Sig &sg = sp.sigs[i];
    const std::vector<Vals> args = value_lists(sg.in, sp.s, level, dev), rets = value_lists(sg.out, sp.s, level, dev);
    const std::size_t n = args.size() > rets.size() ? args.size() : rets.size();
    int turn = 0;
    mc::sweep(Rg::name() + MC_STR(" values of " << i), 0, n * 4, [&](mc::u64 k) {
      const Vals &a = args[k / 4 % args.size()], &r = rets[k / 4 % rets.size()];
      int f = int(k) * 7 + turn++;
      bytes q = keys.keys[i]->send(a, f % OUT_FORMS, sp.w + sg.in_size, 1)[0];
      world() = World{};
      world().forced = true;
      world().ret = r;
      Vals direct = keys.keys[i]->direct(a);
      std::vector<Ev> log = world().log;
      world().log.clear();
      bytes o;
      switch (k % 4) {
      case 0:
        o = serve_plain(pa, q, f % PROC_FORMS, sg.out_size);
        break;
      case 1:
        o = serve_plain(pw, q, f % PROC_FORMS, sg.out_size);
        break;
      case 2:
        o = serve_buffered(sw, q, f % PROC_FORMS, sg.out_size);
        break;
      default:
        o = serve_buffered(da, q, f % PROC_FORMS, sg.out_size);
      }
      MC_CHECK(world().log == log, "remote call " << evstr(world().log) << ", local call " << evstr(log));
      Src s(o);
      Vals got = keys.keys[i]->read(f / 3 % IN_FORMS, s, o.size());
      MC_CHECK(s.pos == o.size(), "the key reads " << s.pos << " bytes of " << o.size());
      MC_CHECK(got == direct && direct == r, vstr(a) << " returns " << vstr(got) << " remotely and " << vstr(direct) << " locally");
    });
  }
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
  const int depth = mc::thorough() ? 4 : 3;
#if PART == 0
  all_dispatchers<Ring<LE, TC, u16(u8), void(), u8(bool)>>(Go{{{0, {0x80}}, {1, {}}, {2, {1}}}, depth + 1, 2, 2, 0});
#elif PART == 1
  all_dispatchers<Ring<BE, OB, i16(i8, u16), void(W)>>(Go{{{0, {-128, 0x00ff}}, {1, {0}}, {0, {0, 0}}}, depth, 3, 2, 0});
#elif PART == 2
  all_dispatchers<Wide<BE, TC, 40, u8(), u8(u8), O()>::type>(Go{{{1, {}}, {0, {1}}, {39, {}}}, depth, 2, 4, 0});
#elif PART == 3
  const int l = 2;
  const unsigned dev = mc::thorough() ? 3 : 2;
#define VALUES(E, S)                                                                                                   \
  values<Ring<E, S, u64(i64), i16(i8, u16), O(P), N(N), std::array<u16, 3>(const u8 (&)[2]), bool(bool), D(D), void(W),  \
              i32(u32, i32), i8(u8), W(const O &, bool)>>(l, dev)
  VALUES(LE, TC);
  VALUES(BE, TC);
  VALUES(LE, SM);
  VALUES(BE, OB);
#elif PART == 4
  const int l = 2;
  const unsigned dev = mc::thorough() ? 3 : 2;
#define VALUES(E, S)                                                                                                   \
  values<Ring<E, S, u64(i64), i16(i8, u16), O(P), N(N), std::array<u16, 3>(const u8 (&)[2]), bool(bool), D(D), void(W),  \
              i32(u32, i32), i8(u8), W(const O &, bool)>>(l, dev)
  VALUES(BE, SM);
  VALUES(LE, OC);
  VALUES(BE, OC);
  VALUES(LE, OB);
  using A300 = std::array<u8, 300>;
  values<Ring<LE, TC, A300(A300), u8(u8 (&&)[256], bool), std::array<u16, 128>(i8)>>(0, 1);
#elif PART == 5
  // with invalid requests in between: they are not answered and the others are not affected
  all_dispatchers<WideRing<LE, TC, 257, void(), u8(u8)>>(Go{{{0, {7}}, {1, {}}}, 2, 3, 1, 2});
  all_dispatchers<Ring<BE, SM, u16(bool), void()>>(Go{{{0, {1}}, {1, {}}}, depth, 2, 1, 2});
#endif
  return mc::finish();
}
