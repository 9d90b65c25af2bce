// C16: replying forwards the whole response as one well-formed request, or nothing.
#include <algorithm>
#define KEYS_ONLY
#include "disp.hpp"
#include "keys.hpp"
using namespace rig;

// Sends through `reply` in one of 7 forms; exact is the size of the expected output, 0 if none is expected
enum { REPLY_FORMS = 5 };
template<typename T, typename K>
bool reply_form(T &d, const K &k, int form, std::size_t exact, bytes &out) {
  Sink s;
  bool r;
  switch (form) {
  case 0:
    r = d.reply(s, k);
    out = s.out;
    return r;
  case 1:
    r = d.reply([&s](byte b) { s(b); }, k);
    out = s.out;
    return r;
  case 2:
    r = d.reply(OutIt{&s}, k);
    out = s.out;
    return r;
  case 3: {
    Exact b(exact, 0xcd);
    r = d.reply(b.p, k);
    out = r ? b.get() : bytes();
    return r;
  }
  default:
    r = d.reply(std::back_inserter(out), k);
    return r;
  }
}

template<typename T, typename B>
struct ReplyTo {
  template<std::size_t I>
  static bool one(T &d, int form, std::size_t exact, bytes &out) {
    typename B::template Key<I> k;
    return reply_form(d, k, form, exact, out);
  }
  template<std::size_t... Is>
  static bool run(seq<Is...>, int j, T &d, int form, std::size_t exact, bytes &out) {
    using Fp = bool (*)(T &, int, std::size_t, bytes &);
    static const Fp t[] = {&one<Is>...};
    return t[j](d, form, exact, out);
  }
};

// The keys of the first callbacks of a keyring
template<typename Rg>
using FirstKeys = KeyTable<Rg, mkseq_t<(Rg::size < 4 ? Rg::size : 4)>>;

// Di: the replying dispatcher. B: the ring of the other side, whose first Nt callbacks accept a single byte buffer
template<typename Di, typename B, std::size_t Nt>
struct Replying {
  using T = typename Di::type;
  using Bd = typename Disp<B, false, ANY>::type;
  const bytes &alpha;
  const Spec &sp, &spb;
  Slot<T> d;
  Model m;
  bool any = false;      // a response was produced
  std::size_t last = 0;  // the request it answers to
  FirstKeys<typename Di::ring> &keys;
  Vals value;            // the value of the response

  Replying(const bytes &a, const Spec &s, const Spec &b, FirstKeys<typename Di::ring> &k) : alpha(a), sp(s), spb(b), m(s), keys(k) {
    world() = World{};
  }
  int nops() const { return int(alpha.size()) + 2 + int(Nt) * REPLY_FORMS; }
  std::string op_name(int op) const {
    if (op < int(alpha.size()))
      return "put(" + mc::hex(bytes(1, alpha[op])) + ")";
    op -= int(alpha.size());
    if (op == 0)
      return "get";
    if (op == 1)
      return "write all";
    op -= 2;
    return MC_STR("reply to " << spb.sigs[op / REPLY_FORMS].name << " in form " << op % REPLY_FORMS);
  }
  bool enabled(int op) const {
    if (op < int(alpha.size()))
      return !m.loaded() || Di::dbl;
    if (op >= int(alpha.size()) + 2)
      return any;
    return true;
  }
  void apply(int op) {
    if (op < int(alpha.size())) {
      byte b = alpha[op];
      bool c = m.completes(b);
      Model before = m;
      before.ibuf.push_back(b);
      Status want = m.put(b), got = to_status(d->put(b));
      MC_CHECK(got == want, "put: " << sname(got) << " instead of " << sname(want));
      if (c) {
        any = true;
        last = std::size_t(before.index());
      }
    } else if (op == int(alpha.size())) {
      byte want = m.get(), got = d->get();
      MC_CHECK(want == got, "get: " << int(got) << " instead of " << int(want));
    } else if (op == int(alpha.size()) + 1) {
      bytes want = m.drain(), got = drain_form(*d, 0, want.size());
      MC_CHECK(want == got, "write_to: " << mc::hex(got) << " instead of " << mc::hex(want));
    } else {
      int o = op - int(alpha.size()) - 2, j = o / REPLY_FORMS, form = o % REPLY_FORMS;
      const std::size_t cap = spb.sigs[j].in_size;
      bool want = m.pos == 0 && m.pending.size() <= cap;
      bytes resp = m.rest(), out;
      std::size_t exact = want ? spb.w + cap : 0;
      bool got = ReplyTo<T, B>::run(mkseq_t<Nt>{}, j, *d, form, exact, out);
      MC_CHECK(got == want, "reply returns " << got << " for " << resp.size() << " bytes of " << m.pending.size() << " to a buffer of " << cap);
      if (!want) {
        MC_CHECK(out.empty(), "a refused reply outputs " << mc::hex(out));
        mc::count("refused replies");
      } else {
        m.drain();
        MC_CHECK(out.size() == spb.w + cap, "the reply is made of " << out.size() << " bytes instead of " << spb.w + cap);
        bytes head(out.begin(), out.begin() + spb.w + resp.size()), hwant = spb.index_bytes(u64(j));
        hwant.insert(hwant.end(), resp.begin(), resp.end());
        MC_CHECK(head == hwant, "the reply begins with " << mc::hex(head) << " instead of " << mc::hex(hwant));
        receive(out, j, resp);
        mc::count("replies");
      }
    }
    MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
    MC_CHECK(d->is_loaded() == m.loaded(), "is_loaded " << d->is_loaded());
    world().log.clear();
    m.log.clear();
  }
  // The request is accepted by the other dispatcher, whose callback gets what the key needs
  void receive(const bytes &out, int j, const bytes &resp) {
    Bd b;
    std::vector<Ev> keep = world().log;
    world().log.clear();
    for (std::size_t i = 0; i < out.size(); i++) {
      Status st = to_status(b.put(out[i]));
      MC_CHECK(st == (i + 1 == out.size() ? RESOLVED : LOADING), "the reply is not one request: " << sname(st) << " at byte " << i);
    }
    MC_CHECK(world().log.size() == 1 && world().log[0].id == spb.base + j, "the reply calls " << evstr(world().log));
    bytes buf;
    for (V v : world().log[0].args)
      buf.push_back(byte(v));
    world().log = keep;
    Src src(buf);
    Vals v = keys.keys[std::min(last, keys.keys.size() - 1)]->read(0, src, sp.sigs[last].out_size);
    MC_CHECK(src.pos == sp.sigs[last].out_size, "the key reads " << src.pos << " bytes of the buffer");
    MC_CHECK(v == ref_decode(sp.sigs[last].out, resp.data(), sp.e, sp.s), "the key reads " << vstr(v) << " in the buffer");
  }
  std::string key() const { return m.key() + RawKey<T>::get()(d) + (any ? "1" : "0"); }
};

template<typename B, std::size_t Nt>
struct Go {
  bytes alpha;
  unsigned states;
  template<typename Di>
  void run() {
    static const Spec sp = spec_of<typename Di::ring>(), spb = spec_of<B>();
    static FirstKeys<typename Di::ring> keys;
    const bytes &a = alpha;
    using S = Replying<Di, B, Nt>;
    mc::bfs(Di::name() + " to " + B::name(), [&] { return std::unique_ptr<S>(new S(a, sp, spb, keys)); }, states, 14);
  }
};

// Large responses: one request, some bytes delivered, a reply
template<typename Di, typename B, std::size_t Nt>
void large() {
  using T = typename Di::type;
  static const Spec sp = spec_of<typename Di::ring>(), spb = spec_of<B>();
  mc::explore(Di::name() + " large replies to " + B::name(), [&](mc::Ch &ch) {
    world() = World{};
    Slot<T> d;
    Model m(sp);
    for (int k = 0; k < 2; k++) {
      int i = ch(int(sp.sigs.size()), "request");
      bytes pkt = sp.index_bytes(u64(i));
      pkt.resize(pkt.size() + sp.sigs[i].in_size, byte(0x5a + k));
      for (byte b : pkt) {
        Status want = m.put(b), got = to_status(d->put(b));
        MC_CHECK(got == want, "put " << sname(got) << " instead of " << sname(want));
      }
      int gets = ch(2, "gets");
      if (gets)
        MC_CHECK(m.get() == d->get(), "get");
      bool empty = m.pending.empty();
      int j, form; // the second reply is less varied
      static int j0;
      if (k == 0) {
        j = j0 = ch(int(Nt), "target");
        form = ch(REPLY_FORMS, "form");
      } else {
        j = mc::thorough() ? ch(int(Nt), "target") : (j0 + ch(2, "target")) % int(Nt);
        form = mc::thorough() ? ch(2, "form") * 3 : 0;
      }
      std::size_t cap = spb.sigs[j].in_size;
      bool want = m.pos == 0 && m.pending.size() <= cap;
      if (empty)
        continue;
      bytes resp = m.rest(), out;
      bool got = ReplyTo<T, B>::run(mkseq_t<Nt>{}, j, *d, form, want ? spb.w + cap : 0, out);
      MC_CHECK(got == want, "reply returns " << got << " for " << resp.size() << " bytes of " << m.pending.size() << " to a buffer of " << cap);
      if (want) {
        m.drain();
        bytes hwant = spb.index_bytes(u64(j));
        hwant.insert(hwant.end(), resp.begin(), resp.end());
        MC_CHECK(out.size() == spb.w + cap, "the reply is made of " << out.size() << " bytes instead of " << spb.w + cap);
        MC_CHECK(std::equal(hwant.begin(), hwant.end(), out.begin()), "the reply does not begin with the response");
        mc::count("replies");
      } else {
        MC_CHECK(out.empty(), "a refused reply outputs something");
        bytes rest = m.drain(), g = drain_form(*d, 0, rest.size());
        MC_CHECK(rest == g, "a refused reply alters the response");
        mc::count("refused replies");
      }
      MC_CHECK(!d->is_loaded(), "is_loaded");
    }
  });
}
template<typename B, std::size_t Nt>
struct GoLarge {
  template<typename Di>
  void run() {
    large<Di, B, Nt>();
  }
};

template<std::size_t K>
using A8 = std::array<u8, K>;

int main(int argc, char **argv) {
  mc::init(argc, argv);
  unsigned lim = mc::thorough() ? 20000u : 500u;
#if PART == 0
  using B = RingB<LE, TC, 500, void(u8 (&&)[1]), void(A8<2>), void(A8<3>), u8(const u8 (&)[4])>;
  all_dispatchers<Ring<LE, TC, u16(u8), void(), u8(bool)>>(Go<B, 4>{{0, 1, 2, 0x77}, lim});
#elif PART == 1
  using B = RingB<BE, OB, 500, u16(A8<5>), void(const A8<6> &), void(const u8 (&)[4])>;
  all_dispatchers<Ring<BE, SM, O(i8), D(), A8<3>()>>(Go<B, 3>{{0, 1, 2, 0xff}, lim});
#elif PART == 2
  using B = Wide<LE, OC, 258, void(), void(A8<1>), u8(A8<2>), void(A8<9>)>::type;
  all_dispatchers<Ring<BE, OC, N(bool), u8()>>(Go<B, 3>{{0, 1, 0x80}, lim});
  using C = RingB<BE, TC, 500, void(A8<1>), void(u8 (&&)[8])>;
  all_dispatchers<WideRing<LE, TC, 257, u16(), u64()>>(Go<C, 2>{{0, 1, 0x80}, mc::thorough() ? 3000u : 300u});
#elif PART == 3
  using B = RingB<LE, SM, 500, void(A8<255>), void(A8<256>), void(A8<257>), void(A8<299>), void(A8<300>), void(A8<511>), void(A8<512>), u8(A8<1000>)>;
  all_dispatchers<Ring<LE, OC, A8<300>(u8), std::array<u16, 128>(), void(), std::array<u16, 256>(), u8(u8), A8<255>()>>(GoLarge<B, 8>{});
#endif
  return mc::finish();
}
