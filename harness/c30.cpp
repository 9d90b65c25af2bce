// C30: a double-buffered dispatcher receives a request while it sends a response, whatever the instruction where one of them
// interrupts the other.
#include "lite.hpp"
#include "step.hpp"

namespace lite {
Trace *current;
inline u8 cb_buf(const u8 (&b)[12]) {
  u8 r = 0;
  for (u8 v : b) {
    note(v);
    r = u8(r * 3 + v);
  }
  return r;
}
template<int I>
u16 cb_wide(u8 v) {
  note(u64(I));
  note(v);
  return u16(v * 257 + I);
}
} // namespace lite
using namespace lite;
using step::st;

namespace {

constexpr auto LE = endianess::LITTLE, BE = endianess::BIG;
constexpr auto TC = signed_mode::TWOS_COMPLEMENT, SM = signed_mode::SIGNED_MAGNITUDE;

template<endianess E, signed_mode S>
using Ring = upd::keyring<E, S, LITE_H(cb_mul), LITE_H(cb_void), LITE_H(cb_pt), LITE_H(cb_ret), LITE_H(cb_arr), LITE_H(cb_reta), LITE_H(cb_buf)>;
template<endianess E, signed_mode S>
using BufKey = typename Ring<E, S>::template key_t<LITE_H(cb_buf)>;

template<int... Is>
struct ints {};
template<int N, int... Is>
struct upto : upto<N - 1, N - 1, Is...> {};
template<int... Is>
struct upto<0, Is...> {
  using type = ints<Is...>;
};
template<endianess E, signed_mode S, typename L>
struct wide_ring;
template<endianess E, signed_mode S, int... Is>
struct wide_ring<E, S, ints<Is...>> {
  using type = upd::keyring<E, S, H<decltype(&cb_wide<Is>), &cb_wide<Is>>...>;
};
template<endianess E, signed_mode S>
using Wide = typename wide_ring<E, S, upto<260>::type>::type;

// The dispatchers: made in static memory, which the explorer records
template<endianess E, signed_mode S>
struct Weak : upd::double_buffered_dispatcher<upd::dispatcher<Ring<E, S>, WEAK>> {
  static const char *name() { return "weak"; }
  static unsigned index(unsigned i) { return i; }
  static constexpr bool little = E == LE;
  static constexpr unsigned width = 1, callbacks = 7;
  static constexpr bool replies = true;
  using reply_key = BufKey<E, S>;
};
template<endianess E, signed_mode S>
struct Any : upd::double_buffered_dispatcher<upd::dispatcher<Ring<E, S>, ANY>> {
  static const char *name() { return "any"; }
  static unsigned index(unsigned i) { return i; }
  static constexpr bool little = E == LE;
  static constexpr unsigned width = 1, callbacks = 7;
  static constexpr bool replies = true;
  using reply_key = BufKey<E, S>;
  Any() {
    int k = 5;
    this->template replace<0>([k](u8 a, i16 b) {
      note(a);
      note(u64(b));
      return i16((a + k) ^ (b / 2));
    });
  }
};
// Made by the user: buffers right after each other, polymorphic class
struct Poly {
  virtual ~Poly() {}
  int x = 3;
};
template<endianess E, signed_mode S>
struct User : Poly, upd::buffered_dispatcher<User<E, S>, upd::dispatcher<Ring<E, S>, WEAK>> {
  static const char *name() { return "derived"; }
  static unsigned index(unsigned i) { return i; }
  static constexpr bool little = E == LE;
  static constexpr unsigned width = 1, callbacks = 7;
  static constexpr bool replies = true;
  using reply_key = BufKey<E, S>;
  byte mem[13 + 8];
  byte *ibuf_begin() { return mem; }
  byte *obuf_begin() { return mem + 13; }
};
template<endianess E, signed_mode S>
struct Many : upd::double_buffered_dispatcher<upd::dispatcher<Wide<E, S>, WEAK>> {
  static const char *name() { return "wide"; }
  static unsigned index(unsigned i) { return i ? 259 : 3; }
  static constexpr bool little = E == LE;
  static constexpr unsigned width = 2, callbacks = 2;
  static constexpr bool replies = false;
};

enum Send { GET, GET_TWICE, WRITE, WRITE_ITERATOR, DRAIN, REPLY, SENDS };
const char *const send_names[] = {"get()", "get() twice", "write_to()", "write_to(iterator)", "get() while loaded", "reply()"};

Trace sent, received, after;
Trace want_sent, want_received, want_after;
Bytes first, second; // requests; what is left of them is at `r`
Bytes incoming;      // what is received at the same time
unsigned send_op;
bool sending_is_interrupted, bytewise, send_done;

template<typename D>
struct Session {
  alignas(16) static char mem[sizeof(D)];
  static D &d() { return *reinterpret_cast<D *>(mem); }

  static unsigned input_size(unsigned i) { return unsigned(d()[typename D::index_t(D::index(i))].input_size()); }
  static unsigned output_size(unsigned i) { return unsigned(d()[typename D::index_t(D::index(i))].output_size()); }
  static void request(Bytes &b, unsigned i, Rnd &r) {
    b = Bytes();
    std::memset(b.b, 0, sizeof b.b);
    const unsigned x = D::index(i);
    for (unsigned k = 0; k < D::width; k++)
      b(byte(x >> (8 * (D::little ? k : D::width - 1 - k))));
    const unsigned n = input_size(i);
    for (unsigned k = 0; k < n; k++)
      b(r.get<u8>());
  }

  template<typename K>
  static bool reply_(K *) {
    Bytes o;
    const bool done = d().reply(Put{&o}, K{});
    note(done);
    o.log();
    return done;
  }
  static bool reply_(void *) { return false; }
  template<typename T>
  static bool reply(std::true_type, T *) {
    return reply_(static_cast<typename T::reply_key *>(nullptr));
  }
  template<typename T>
  static bool reply(std::false_type, T *) {
    return false;
  }

  static void send() {
    Trace *c = current;
    current = &sent;
    switch (send_op) {
    case GET:
      note(d().is_loaded());
      note(d().get());
      break;
    case GET_TWICE:
      note(d().get());
      note(d().get());
      note(d().is_loaded());
      break;
    case WRITE: {
      Bytes o;
      d().write_to(Put{&o});
      o.log();
      break;
    }
    case WRITE_ITERATOR: {
      byte o[16] = {};
      d().write_to(o + 0);
      for (byte b : o)
        note(b);
      break;
    }
    case DRAIN:
      while (d().is_loaded())
        note(d().get());
      break;
    default:
      reply<D>(std::integral_constant<bool, D::replies>{}, static_cast<D *>(nullptr));
    }
    current = c;
  }
  static void receive_one() {
    Trace *c = current;
    current = &received;
    note(u64(d().put(incoming())));
    current = c;
  }
  static void receive() {
    while (incoming.r < incoming.w)
      receive_one();
  }
  static void victim() { sending_is_interrupted ? send() : receive(); }
  static bool handler() {
    if (sending_is_interrupted) {
      if (!bytewise)
        receive();
      else if (incoming.r < incoming.w)
        receive_one();
    } else if (!bytewise)
      send();
    else if (d().is_loaded()) {
      Trace *c = current;
      current = &sent;
      note(d().get());
      current = c;
    }
    return true;
  }
  // What is left to do, then everything which follows
  static bool ended() {
    if (sending_is_interrupted)
      receive();
    else if (bytewise)
      send();
    current = &after;
    for (int k = 0; k < 3; k++) {
      while (d().is_loaded())
        note(d().get());
      Bytes &b = k == 1 ? first : second;
      if (k == 1)
        b.r = 0;
      if (k < 2)
        while (b.r < b.w)
          note(u64(d().put(b())));
    }
    return sent == want_sent && received == want_received && after == want_after;
  }
  static void reset(unsigned r1, unsigned unloaded, unsigned r2, unsigned loaded, unsigned more, bool dropped) {
    std::memset(mem, 0x5a, sizeof mem);
    new (mem) D;
    sent = received = after = Trace{0, 1469598103934665603ull};
    current = &after;
    Rnd rnd{r1 * 100 + r2};
    request(first, r1, rnd);
    while (first.r < first.w)
      note(u64(d().put(first())));
    for (unsigned k = 0; k < unloaded; k++)
      note(d().get());
    request(second, r2, rnd);
    incoming = Bytes();
    std::memset(incoming.b, 0, sizeof incoming.b);
    for (unsigned k = 0; k < loaded; k++)
      note(u64(d().put(second())));
    if (dropped)
      for (unsigned k = 0; k < D::width; k++)
        incoming(0xee);
    for (unsigned k = 0; k < more; k++)
      incoming(second());
  }

  // One of the numbers under n; the first and the last ones in the quick tier
  static unsigned some(mc::Ch &ch, unsigned n, const char *what) {
#if THOROUGH
    return n ? unsigned(ch(int(n), what)) : 0;
#else
    if (n < 3)
      return n ? unsigned(ch(int(n), what)) : 0;
    const unsigned v[] = {0, n / 2, n - 1};
    return v[ch(3, what)];
#endif
  }
  static void explore(const char *format) {
    new (mem) D;
    unsigned in[8] = {}, out[8] = {};
    for (unsigned i = 0; i < D::callbacks; i++)
      in[i] = input_size(i), out[i] = output_size(i);
    d().~D();
    u64 total = 0;
    for (unsigned dir = 0; dir < 2; dir++)
      for (unsigned r1 = 0; r1 < D::callbacks; r1++) {
        const std::string name = MC_STR(D::name() << " " << format << ", " << (dir ? "receiving" : "sending") << " interrupted, response of "
                                                  << r1);
        u64 reached = 0, instructions = 0;
        mc::explore(name, [&](mc::Ch &ch) {
          const unsigned op = unsigned(ch(D::replies ? int(SENDS) : int(REPLY), "send"));
          const unsigned unloaded = some(ch, out[r1], "unloaded");
          const unsigned r2 = unsigned(ch(int(D::callbacks), "request"));
          const unsigned length = D::width + in[r2];
          if (length < 2) {
            mc::outcome(0);
            return;
          }
          const unsigned loaded = some(ch, length - 1, "loaded");
          const unsigned more = 1 + some(ch, length - 1 - loaded, "more");
          const bool dropped = loaded == 0 && ch(2, "dropped");
          send_op = op;
          sending_is_interrupted = dir == 0;
          bytewise = false;
          // One after the other, in the two orders
          reset(r1, unloaded, r2, loaded, more, dropped);
          receive();
          send();
          bytewise = false;
          ended();
          want_sent = sent, want_received = received, want_after = after;
          d().~D();
          reset(r1, unloaded, r2, loaded, more, dropped);
          send();
          receive();
          const bool same = ended();
          d().~D();
          MC_CHECK(same, send_names[op] << " and the loading of " << incoming.w << " bytes of a request do not commute");
          const u64 n = run(step::COUNT, r1, unloaded, r2, loaded, more, dropped);
          if (n < 5)
            step::trouble("the processor does not trap");
          if (dir == 0 || op == DRAIN) {
            run(step::EVERY, r1, unloaded, r2, loaded, more, dropped);
            reached++;
          }
          const u64 last = run(step::STEP, r1, unloaded, r2, loaded, more, dropped);
          if (last < n)
            step::trouble("the boundaries differ from one run to another");
          reached += last;
          instructions += n;
          mc::outcome(mc::mix(want_sent.h, want_after.h));
        });
        if (reached) {
          mc::g().stats[name].states = mc::g().stats[name].executions = reached;
          mc::g().stats[name].transitions = instructions;
          total += reached;
        }
      }
    mc::count("instructions where an operation was interrupted", total);
  }
  static bool nothing() { return true; }
  static u64 run(step::Mode mode, unsigned r1, unsigned unloaded, unsigned r2, unsigned loaded, unsigned more, bool dropped) {
    reset(r1, unloaded, r2, loaded, more, dropped);
    bytewise = mode == step::EVERY;
    if (mode == step::COUNT) // the other one follows
      return (step::run(mode, 0, victim, nothing, nothing), handler(), check(ended(), "nowhere"), d().~D(), st->count);
    step::run(mode, 1, victim, handler, ended);
    check(!st->wrong_victim, mode == step::EVERY ? "byte after byte" : "once");
    const u64 n = st->count;
    d().~D();
    return n;
  }
  static void check(bool good, const char *where) {
    MC_CHECK(good, (sending_is_interrupted ? send_names[send_op] : "put()")
                       << " interrupted " << where << " by " << (sending_is_interrupted ? "put()" : send_names[send_op]) << " after "
                       << st->count << " instructions: " << (sent == want_sent ? "" : "wrong response; ")
                       << (received == want_received ? "" : "wrong statuses; ")
                       << (after == want_after ? "" : "wrong state afterwards; ") << incoming.w << " bytes received");
  }
};
template<typename D>
alignas(16) char Session<D>::mem[sizeof(D)];

} // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  step::init();
#if PART == 0
  Session<Weak<LE, TC>>::explore("LE/TC");
  Session<Many<BE, SM>>::explore("BE/SM");
#elif PART == 1
  Session<Any<BE, SM>>::explore("BE/SM");
  Session<Many<LE, TC>>::explore("LE/TC");
#else
  Session<User<LE, TC>>::explore("LE/TC");
  Session<Weak<BE, SM>>::explore("BE/SM");
#endif
  return mc::finish();
}
