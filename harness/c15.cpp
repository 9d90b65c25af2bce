// C15: a failing callback, source or sink leaves the dispatcher consistent.
#include "disp.hpp"
#include "keys.hpp"
using namespace rig;

// A user-defined type whose extension may fail
struct X {
  u8 v;
  u16 w;
};
enum Fault { NONE, UNSERIALIZE, CALLBACK, SERIALIZE, FAULTS };
static int fault = NONE;
static void may_fail(int f) {
  if (fault == f) {
    fault = NONE;
    throw Boom{100 + f};
  }
}
template<>
struct upd_extension<X> {
  template<typename View>
  static void serialize(const X &x, View &view) {
    view.template set<0>(x.v);
    if (x.v || x.w) // values constructed by default may be serialized at any time
      may_fail(SERIALIZE);
    view.template set<1>(x.w);
  }
  static X unserialize(rig::u8 v, rig::u16 w) {
    may_fail(UNSERIALIZE);
    return X{v, w};
  }
};
namespace rig {
template<>
struct TT<X> {
  static void leaves(Leaves &l) {
    TT<u8>::leaves(l);
    TT<u16>::leaves(l);
  }
  static void fill(X &x, const V *&p) {
    TT<u8>::fill(x.v, p);
    TT<u16>::fill(x.w, p);
  }
  static void flat(const X &x, Vals &v) {
    v.push_back(x.v);
    v.push_back(x.w);
  }
  static std::string name() { return "X"; }
};
} // namespace rig

// Sources and sinks which fail when their `at`-th byte is asked for or given
struct FSrc {
  Src *s;
  long at;
  byte operator()() {
    if (at-- == 0)
      throw Boom{1};
    return (*s)();
  }
};
struct FIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = byte;
  using difference_type = std::ptrdiff_t;
  using pointer = const byte *;
  using reference = byte;
  struct Post {
    byte b;
    byte operator*() const { return b; }
  };
  FSrc *f;
  byte operator*() const {
    if (f->at == 0)
      throw Boom{1};
    if (f->s->pos >= f->s->n)
      mc::fail("an iterator was dereferenced beyond the end of the packet");
    return f->s->p[f->s->pos];
  }
  FIt &operator++() {
    f->at--;
    f->s->pos++;
    return *this;
  }
  Post operator++(int) {
    Post p{**this};
    ++*this;
    return p;
  }
  bool operator==(const FIt &o) const { return f == o.f; }
  bool operator!=(const FIt &o) const { return f != o.f; }
};
struct FSink {
  Sink *s;
  long at;
  void operator()(byte b) {
    (*s)(b); // the byte is received, whatever follows
    if (at-- == 0)
      throw Boom{2};
  }
};
struct FOut {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = void;
  using pointer = void;
  using reference = void;
  FSink *s;
  const FOut &operator*() const { return *this; }
  const FOut &operator=(byte b) const {
    (*s)(b);
    return *this;
  }
  FOut &operator++() { return *this; }
  FOut &operator++(int) { return *this; }
};
enum { NEVER = 1 << 24 };

static bool callback_fails(int) {
  if (fault == CALLBACK) {
    fault = NONE;
    return true;
  }
  return false;
}

// Any number of faults: breadth-first search whose operations are every way to load and unload, each with every place where the
// source, the callback, the user-defined types or the sink may fail
template<typename Di>
struct Faulty {
  using T = typename Di::type;
  struct Op {
    char kind; // 's'tart a packet, 'p'ut, 'b'ulk load, 'w'rite, 'g'et
    int a;     // packet or form
    long at, out_at;
    int f;
  };
  const Spec &sp;
  Slot<T> slot;
  T &d;
  Model m;
  bytes stream; // the current packet and what follows it
  u64 idx = 0;
  std::size_t pos = 0, len = 0;
  unsigned seen = 0; // the kinds of faults met so far, so that they are combined

  explicit Faulty(const Spec &s) : sp(s), d(*slot), m(s) {
    world() = World{};
    world().fail_hook = callback_fails;
    fault = NONE;
  }
  int npackets() const { return int(sp.sigs.size() < 4 ? sp.sigs.size() : 4) + 1; }
  static bool has_x(const Leaves &l) { return l.size() == 2 && l[0].size == 1 && l[1].size == 2 && !l[1].pad; }

  std::vector<Op> ops() const {
    std::vector<Op> r;
    if (pos == len) {
      if (!(m.loaded() && !Di::dbl))
        for (int i = 0; i < npackets(); i++)
          r.push_back(Op{'s', i, NEVER, NEVER, NONE});
    } else {
      std::vector<int> faults{NONE};
      std::size_t out_size = 0;
      if (idx < sp.sigs.size()) {
        faults.push_back(CALLBACK);
        if (has_x(sp.sigs[idx].in))
          faults.push_back(UNSERIALIZE);
        if (has_x(sp.sigs[idx].out))
          faults.push_back(SERIALIZE);
        out_size = sp.sigs[idx].out_size;
      }
      std::size_t rest = len - pos;
      for (int f : faults)
        if (f == NONE || rest == 1)
          r.push_back(Op{'p', 0, NEVER, NEVER, f});
      for (int form = 0; form < 8; form++) {
        for (long at = 0; at < long(rest); at++)
          r.push_back(Op{'b', form, at, NEVER, NONE});
        for (int f : faults)
          r.push_back(Op{'b', form, NEVER, NEVER, f});
        for (long o = 0; form >= 4 && o < long(out_size); o++)
          r.push_back(Op{'b', form, NEVER, o, NONE});
      }
    }
    if (m.loaded()) {
      r.push_back(Op{'g', 0, NEVER, NEVER, NONE});
      for (int form = 0; form < 4; form++)
        for (long o = -1; o < long(m.rest().size()); o++)
          r.push_back(Op{'w', form, NEVER, o < 0 ? long(NEVER) : o, NONE});
    }
    return r;
  }
  int nops() const { return int(ops().size()); }
  bool enabled(int) const { return true; }
  std::string op_name(int) const { return "?"; } // see trace()
  static std::string str(const Op &o) {
    static const char *fn[] = {"", ", the callback fails", ", the callback fails", ", the callback fails"};
    fn[UNSERIALIZE] = ", unserialize fails";
    fn[SERIALIZE] = ", serialize fails";
    static const char *in[] = {"function", "temporary", "iterator", "<<", "process functions", "process temporaries", "process iterators",
                               "process function and iterator"};
    std::string s = o.kind == 's'   ? MC_STR("packet " << o.a)
                    : o.kind == 'p' ? std::string("put")
                    : o.kind == 'b' ? std::string("load ") + in[o.a]
                    : o.kind == 'g' ? std::string("get")
                                    : MC_STR("write " << o.a);
    if (o.at != NEVER)
      s += MC_STR(", the source fails at " << o.at);
    if (o.out_at != NEVER)
      s += MC_STR(", the sink fails at " << o.out_at);
    return s + fn[o.f];
  }
  // The model loads a byte; returns false if it fails
  bool model_put(byte b, int f, Status &st) {
    m.fail_next = f != NONE;
    bool ok = true;
    try {
      st = m.put(b);
    } catch (const Boom &) {
      if (f == UNSERIALIZE)
        m.log.pop_back(); // never called
      ok = false;
    }
    m.fail_next = false;
    return ok;
  }
  void check(const std::string &what) {
    MC_CHECK(world().log == m.log, what << ": calls " << evstr(world().log) << " instead of " << evstr(m.log));
    MC_CHECK(d.is_loaded() == m.loaded(), what << ": is_loaded " << d.is_loaded());
    MC_CHECK(fault == NONE, what << ": the fault did not happen");
    world().log.clear();
    m.log.clear();
  }
  void apply(int op) {
    const Op o = ops().at(std::size_t(op));
    const std::string what = str(o);
    if (mc::g().replay)
      std::fprintf(stderr, "    %s\n", what.c_str());
    if (o.kind == 's') {
      idx = o.a == npackets() - 1 ? sp.sigs.size() : u64(o.a);
      stream = sp.index_bytes(idx);
      for (std::size_t j = 0; idx < sp.sigs.size() && j < sp.sigs[idx].in_size; j++)
        stream.push_back(byte(0x21 * (j + 1) + idx));
      pos = 0;
      len = stream.size();
      for (int i = 0; i < 3; i++)
        stream.push_back(0);
      return;
    }
    if (o.kind == 'g') {
      byte w = m.get(), g = d.get();
      MC_CHECK(g == w, "get: " << int(g) << " instead of " << int(w));
      check("get");
      return;
    }
    if (o.kind == 'w') {
      bytes want;
      if (o.out_at == NEVER)
        want = m.drain();
      else
        for (long j = 0; j <= o.out_at; j++)
          want.push_back(m.get());
      Sink sink;
      FSink fk{&sink, o.out_at};
      bool failed = false;
      try {
        if (o.a == 0)
          d.write_to(fk);
        else if (o.a == 1)
          d.write_to([&fk](byte b) { fk(b); });
        else if (o.a == 2)
          d.write_to(FOut{&fk});
        else
          d >> fk;
      } catch (const Boom &) {
        failed = true;
      }
      MC_CHECK(failed == (o.out_at != NEVER), what << ": the exception of the sink");
      MC_CHECK(sink.out == want, what << ": " << mc::hex(sink.out) << " instead of " << mc::hex(want));
      mc::count(failed ? "failing sinks" : "unloads");
      check(what);
      return;
    }
    std::size_t n = o.kind == 'p' ? 1 : len - pos;
    std::size_t taken = 0;
    bool fails = false;
    Status want = LOADING;
    for (; taken < n && long(taken) < o.at; taken++)
      if (!model_put(stream[pos + taken], taken + 1 == n ? o.f : int(NONE), want)) {
        fails = true;
        taken++;
        break;
      }
    fails = fails || taken < n;
    bytes out;
    if (o.kind == 'b' && o.a >= 4 && !fails && want == RESOLVED) {
      if (o.out_at != NEVER) {
        for (long j = 0; j <= o.out_at; j++)
          out.push_back(m.get());
        fails = true;
      } else
        out = m.drain();
    }
    fault = o.f;
    Src src(stream);
    src.pos = pos;
    FSrc fs{&src, o.at};
    Sink sink;
    FSink fk{&sink, o.out_at};
    Status got = LOADING;
    bool failed = false;
    try {
      if (o.kind == 'p')
        got = to_status(d.put(src()));
      else
        switch (o.a) {
        case 0:
          got = to_status(d.read_from(fs));
          break;
        case 1:
          got = to_status(d.read_from([&fs]() -> byte { return fs(); }));
          break;
        case 2:
          got = to_status(d.read_from(FIt{&fs}));
          break;
        case 3:
          got = to_status(d << fs);
          break;
        case 4:
          got = to_status(d(fs, fk));
          break;
        case 5:
          got = to_status(d([&fs]() -> byte { return fs(); }, [&fk](byte b) { fk(b); }));
          break;
        case 6:
          got = to_status(d(FIt{&fs}, FOut{&fk}));
          break;
        default:
          got = to_status(d(fs, FOut{&fk}));
        }
    } catch (const Boom &) {
      failed = true;
    }
    MC_CHECK(failed == fails, what << ": the exception " << (fails ? "does not reach the caller" : "comes from nowhere"));
    MC_CHECK(src.pos - pos == taken, what << ": " << src.pos - pos << " bytes are taken instead of " << taken);
    MC_CHECK(sink.out == out, what << ": outputs " << mc::hex(sink.out) << " instead of " << mc::hex(out));
    if (!fails)
      MC_CHECK(got == want, what << ": " << sname(got) << " instead of " << sname(want));
    pos += taken;
    int kind = !fails ? 0 : o.at != NEVER ? 1 : o.out_at != NEVER ? 2 : 3;
    mc::count(kind == 0 ? "loads" : kind == 1 ? "failing sources" : kind == 2 ? "failing sinks" : "failing callbacks");
    if (kind && mc::thorough())
      seen |= 1u << (kind == 3 ? 2 + o.f : kind - 1);
    check(what);
  }
  std::string key() const {
    return m.key() + "/" + std::to_string(idx) + "/" + std::to_string(pos == len ? 999 : pos) + "/" + std::to_string(seen) +
           RawKey<T>::get()(slot);
  }
};

struct Go {
  unsigned states;
  template<typename Di>
  void run() {
    static const Spec sp = spec_of<typename Di::ring>();
    mc::bfs(Di::name(), [&] { return std::unique_ptr<Faulty<Di>>(new Faulty<Di>(sp)); }, states, 40);
  }
};

// ------------------------------------------------------------------------- plain dispatchers, actions, keys and messages
template<typename Rg, upd::action_features AF, typename Is = mkseq_t<Rg::size>>
struct Plain {
  using T = upd::dispatcher<typename Rg::keyring, AF>;
  static const Spec &sp() {
    static const Spec s = spec_of<Rg>();
    return s;
  }
  static void go() {
    mc::explore(std::string(AF == ANY ? "plain/any " : "plain/weak ") + Rg::name(), [&](mc::Ch &ch) {
      world() = World{};
      world().fail_hook = callback_fails;
      fault = NONE;
      T d;
      const int n = int(sp().sigs.size());
      for (int k = 0; k < 2; k++) {
        int i = ch(n + 1, "index");
        bytes pkt = sp().index_bytes(u64(i));
        for (std::size_t j = 0; i < n && j < sp().sigs[i].in_size; j++)
          pkt.push_back(byte(0x31 * (j + 1)));
        Vals args = i < n ? ref_decode(sp().sigs[i].in, pkt.data() + sp().w, sp().e, sp().s) : Vals{};
        bytes resp = i < n ? ref_encode(sp().sigs[i].out, default_ret(i, args, sp().sigs[i].out), sp().e, sp().s) : bytes();
        int form = ch(4, "form");
        bool via_action = i < n && ch(2, "through the action");
        std::size_t start = via_action ? sp().w : 0;
        // the fault: none, the source, the callback or the sink
        std::size_t total = pkt.size() - start;
        int w = k ? 0 : ch(int(1 + total + (i < n ? 1 + resp.size() : 0)), "fault");
        long at = NEVER, out_at = NEVER;
        if (w > 0 && w <= int(total))
          at = w - 1;
        else if (w == int(total) + 1)
          fault = CALLBACK;
        else if (w > int(total) + 1)
          out_at = w - int(total) - 2;
        bool called = i < n && at == NEVER;
        bytes want_out;
        if (called && fault == NONE)
          want_out.assign(resp.begin(), out_at == NEVER ? resp.end() : resp.begin() + out_at + 1);
        bytes all = pkt;
        all.push_back(0x99);
        Src src(all);
        src.pos = start;
        FSrc fs{&src, at};
        Sink sink;
        FSink fk{&sink, out_at};
        bool fails = w != 0, failed = false;
        u64 r = u64(i);
        try {
          if (via_action) {
            auto &a = d[typename T::index_t(i)];
            if (form == 0)
              a(fs, fk);
            else if (form == 1)
              a([&fs]() -> byte { return fs(); }, [&fk](byte b) { fk(b); });
            else if (form == 2)
              a(FIt{&fs}, FOut{&fk});
            else
              a(fs, FOut{&fk});
          } else {
            if (form == 0)
              r = d(fs, fk);
            else if (form == 1)
              r = d([&fs]() -> byte { return fs(); }, [&fk](byte b) { fk(b); });
            else if (form == 2)
              r = d(FIt{&fs}, FOut{&fk});
            else
              r = d(fs, FOut{&fk});
          }
        } catch (const Boom &) {
          failed = true;
        }
        MC_CHECK(failed == fails, "the exception " << (fails ? "does not reach the caller" : "comes from nowhere"));
        MC_CHECK(r == u64(i), "index " << r << " instead of " << i);
        MC_CHECK(src.pos - start == (at == NEVER ? total : std::size_t(at)), src.pos - start << " bytes are read");
        MC_CHECK(sink.out == want_out, "outputs " << mc::hex(sink.out) << " instead of " << mc::hex(want_out));
        MC_CHECK(world().log.size() == std::size_t(called), "calls " << evstr(world().log));
        if (called)
          MC_CHECK((world().log[0] == Ev{i, args}), "calls " << evstr(world().log));
        MC_CHECK(fault == NONE, "the callback did not fail");
        world().log.clear();
        mc::count(fails ? "faults" : "requests");
      }
    });
  }
};

template<typename Rg>
void keys_() {
  static const Spec sp = spec_of<Rg>();
  mc::explore("keys of " + Rg::name(), [&](mc::Ch &ch) {
    world() = World{};
    world().fail_hook = nullptr;
    fault = NONE;
    KeyTable<Rg> kt;
    int i = ch(int(kt.keys.size()), "key");
    const Sig &sg = sp.sigs[i];
    // a response whose source fails, then the same one
    bytes resp;
    for (std::size_t j = 0; j < sg.out_size; j++)
      resp.push_back(byte(0x41 + 3 * j));
    (void)resp;
    if (sg.out_size) {
      bytes cut(resp.begin(), resp.begin() + ch(int(sg.out_size), "available"));
      Src s(cut);
      bool failed = false;
      try {
        kt.keys[i]->read(ch(3, "form"), s, 0);
      } catch (const mc::Failure &) { // Src refuses to be read beyond its end
        failed = true;
      }
      MC_CHECK(failed && s.pos == cut.size(), "the exception of the source");
      Src again(resp);
      Vals v = kt.keys[i]->read(0, again, sg.out_size);
      MC_CHECK(v == ref_decode(sg.out, resp.data(), sp.e, sp.s), "the response is not decoded any more");
    }
  });
}

// A replacement which fails leaves the previous callback in place
struct CopyFails {
  int id;
  bool armed;
  CopyFails(int i, bool a) : id(i), armed(a) {}
  CopyFails(const CopyFails &o) : id(o.id), armed(false) {
    if (o.armed)
      throw Boom{3};
  }
  u8 operator()(u8 x) const { return Ret<u8>::get(id, flatten<u8>(x)); }
};
template<bool Dbl>
void replacements() {
  using Rg = Ring<LE, TC, u8(u8), void()>;
  using Di = Disp<Rg, Dbl, ANY>;
  static const Spec sp = spec_of<Rg>();
  mc::explore(Di::name() + " failing replacements", [&](mc::Ch &ch) {
    world() = World{};
    fault = NONE;
    typename Di::type d;
    Model m(sp);
    for (int k = 0; k < 7; k++) {
      int op = ch(4, "operation");
      if (op == 0) {
        byte b = m.ibuf.empty() ? 0 : byte(9 + k);
        if (m.loaded()) {
          bytes want = m.drain(), got = drain_form(d, 0, want.size());
          MC_CHECK(got == want, "response " << mc::hex(got) << " instead of " << mc::hex(want));
        }
        Status want = m.put(b), got = to_status(d.put(b));
        MC_CHECK(got == want, "put " << sname(got) << " instead of " << sname(want));
        MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
      } else {
        CopyFails f{50 + k, op != 1};
        bool failed = false;
        try {
          if (op == 3)
            d.template replace<0>(static_cast<const CopyFails &>(f));
          else
            d.template replace<0>(f);
          m.installed[0] = f.id;
        } catch (const Boom &) {
          failed = true;
        }
        MC_CHECK(failed == f.armed, "the exception of the copy");
      }
    }
  });
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
  Go g{mc::thorough() ? 60000u : 1000u};
#if PART == 0
  all_dispatchers<Ring<LE, TC, u16(u8), void()>>(g);
  all_dispatchers<Ring<BE, OC, X(), void(X)>>(g);
#elif PART == 1
  all_dispatchers<Ring<BE, SM, X(X)>>(g);
  all_dispatchers<Ring<BE, OB, O(i8), void(u16, bool)>>(g);
#elif PART == 2
  all_dispatchers<WideRing<LE, TC, 257, void(), u8(u8)>>(g);
  replacements<false>();
  replacements<true>();
#elif PART == 3
  Plain<Ring<LE, TC, u16(u8), void(), void(O), u32(u16)>, ANY>::go();
  Plain<Ring<LE, TC, u16(u8), void(), void(O), u32(u16)>, WEAK>::go();
  Plain<Ring<BE, OC, N(i8), void(u8), i64()>, ANY>::go();
  Plain<Ring<BE, OC, N(i8), void(u8), i64()>, WEAK>::go();
  keys_<Ring<LE, SM, u16(u8), N(), void(), i64(bool), D()>>();
#endif
  return mc::finish();
}
