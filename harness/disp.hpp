// Breadth-first exploration of a real buffered dispatcher driven along with its reference model.
#pragma once

#include "rig.hpp"

namespace rig {

struct DispOpts {
  bytes alphabet;        // bytes given to `put`
  bool get = false;      // `get` is an operation
  bool drain = false;    // complete unloading, through every output form if `forms`
  bool forms = false;
  bool raw = true;       // the representation of the object is a part of the state
  bool load_over = true; // load while a response is pending (never on single-buffered dispatchers)
};

template<typename Di>
struct DispSys {
  using T = typename Di::type;
  const DispOpts &o;
  const Spec &sp;
  Slot<T> d;
  Model m;

  DispSys(const DispOpts &opts, const Spec &spec) : o(opts), sp(spec), m(spec) {
    world() = World{};
    check("creation");
  }

  int nputs() const { return int(o.alphabet.size()); }
  int nops() const { return nputs() + (o.get ? 1 : 0) + (o.drain ? (o.forms ? int(OUT_FORMS) : 1) : 0); }
  std::string op_name(int op) const {
    if (op < nputs())
      return "put(" + mc::hex(bytes(1, o.alphabet[op])) + ")";
    op -= nputs();
    if (o.get && op-- == 0)
      return "get";
    return std::string("write all through ") + out_form(op);
  }
  bool enabled(int op) const {
    if (op < nputs())
      return !(m.loaded() && (!Di::dbl || !o.load_over));
    return true;
  }
  void check(const char *what) {
    MC_CHECK(world().log == m.log, what << ": calls " << evstr(world().log) << " instead of " << evstr(m.log));
    MC_CHECK(d->is_loaded() == m.loaded(), what << ": is_loaded() is " << d->is_loaded() << " instead of " << m.loaded());
    const T &cd = *d;
    MC_CHECK(cd.is_loaded() == m.loaded(), what << ": is_loaded() const");
    world().log.clear();
    m.log.clear();
  }
  void apply(int op) {
    if (op < nputs()) {
      byte b = o.alphabet[op];
      Status want = m.put(b);
      Status got = to_status(d->put(b));
      MC_CHECK(got == want, "put: " << sname(got) << " instead of " << sname(want));
      mc::count(sname(want));
      check("put");
      return;
    }
    op -= nputs();
    if (o.get && op-- == 0) {
      bool l = m.loaded();
      byte want = m.get();
      byte got = d->get();
      MC_CHECK(got == want, "get: " << int(got) << " instead of " << int(want) << (l ? "" : " (nothing is loaded)"));
      mc::count(l ? "bytes unloaded" : "neutral bytes");
      check("get");
      return;
    }
    bytes want = m.drain();
    bytes got = drain_form(*d, op, want.size());
    MC_CHECK(got == want, "write_to through " << out_form(op) << ": " << mc::hex(got) << " instead of " << mc::hex(want));
    mc::count("complete unloads");
    check("write_to");
  }
  std::string key() const {
    std::string k = m.key();
    if (o.raw)
      k += RawKey<T>::get()(d);
    else // the model forgets what came before, the dispatcher may not
      k += std::to_string(m.trail);
    return k;
  }
};

template<typename Di>
void disp_bfs(const std::string &label, const DispOpts &o, unsigned max_states, unsigned max_depth) {
  static const Spec sp = spec_of<typename Di::ring>();
  mc::bfs(Di::name() + " " + label, [&] { return std::unique_ptr<DispSys<Di>>(new DispSys<Di>(o, sp)); }, max_states,
          max_depth);
}

// Depth-first exploration of whole packets, for signatures too large for the byte-wise search: every sequence of `npackets`
// packets (each index, several payload patterns, invalid indexes), each fed byte by byte, the response being unloaded up to
// every interesting position with `get` before the next packet (and completely at last)
template<typename Di>
void disp_packets(const std::string &label, int npackets, bool partial_unload) {
  using T = typename Di::type;
  static const Spec sp = spec_of<typename Di::ring>();
  const int n = int(sp.sigs.size());
  mc::explore(Di::name() + " packets " + label, [&](mc::Ch &ch) {
    world() = World{};
    Slot<T> d;
    Model m(sp);
    for (int k = 0; k < npackets; k++) {
      int i = ch(n + 2, "index");
      bytes pkt;
      if (i >= n)
        pkt = sp.index_bytes(i == n ? u64(n) : (sp.w == 1 ? 0xff : 0xffff));
      else {
        int pat = sp.sigs[i].in_size ? ch(k == 0 ? 4 : partial_unload ? 1 : 2, "pattern") : 0;
        pkt = sp.index_bytes(u64(i));
        for (std::size_t j = 0; j < sp.sigs[i].in_size; j++)
          pkt.push_back(pat == 0 ? byte(j * 7 + k + 1) : pat == 1 ? 0xff : pat == 2 ? 0 : byte(j == sp.sigs[i].in_size - 1));
      }
      for (std::size_t j = 0; j < pkt.size(); j++) {
        Status want = m.put(pkt[j]);
        Status got = to_status(d->put(pkt[j]));
        MC_CHECK(got == want, "packet " << k << " byte " << j << ": " << sname(got) << " instead of " << sname(want));
        MC_CHECK(d->is_loaded() == m.loaded(), "packet " << k << " byte " << j << ": is_loaded " << d->is_loaded());
      }
      MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
      std::size_t left = m.rest().size();
      std::vector<std::size_t> stops{left};
      if (partial_unload && k == npackets - 1 && k > 0 && !mc::thorough()) {
        if (left)
          stops.push_back(left / 2), stops.push_back(0);
      } else if (partial_unload) {
        for (std::size_t s : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(127), std::size_t(128),
                              std::size_t(254), std::size_t(255), std::size_t(256), std::size_t(257)})
          if (s < left)
            stops.push_back(s);
      }
      std::size_t stop = stops[ch(int(stops.size()), "unloaded bytes")];
      for (std::size_t j = 0; j < stop; j++) {
        byte want = m.get(), got = d->get();
        MC_CHECK(got == want, "response byte " << j << ": " << int(got) << " instead of " << int(want));
        MC_CHECK(d->is_loaded() == m.loaded(), "after response byte " << j << ": is_loaded " << d->is_loaded());
      }
      if (m.loaded() && (!Di::dbl || k == npackets - 1 || ch(2, "write the rest"))) {
        bytes want = m.drain(), got = drain_form(*d, k == npackets - 1 && stop == 0 ? ch(OUT_FORMS, "form") : 0, want.size());
        MC_CHECK(got == want, "rest of the response: " << mc::hex(got) << " instead of " << mc::hex(want));
      }
      if (!m.loaded())
        for (int j = 0; j < 2; j++)
          MC_CHECK(d->get() == 0 && !d->is_loaded(), "an unloaded dispatcher delivers something");
    }
    mc::outcome(mc::hash_str(m.key()));
    mc::count("packets", npackets);
  });
}

template<typename Rg, typename F>
void all_dispatchers(F f) {
  f.template run<Disp<Rg, false, ANY>>();
  f.template run<Disp<Rg, false, WEAK>>();
  f.template run<Disp<Rg, true, ANY>>();
  f.template run<Disp<Rg, true, WEAK>>();
}

// A keyring of N callbacks, the first ones with the signatures Fs and the others with the signature Fill
template<endianess E, signed_mode S, std::size_t N, typename Fill, typename... Fs>
struct Wide {
  template<std::size_t I, bool B, typename L>
  struct pick {
    using type = Fill;
  };
  template<std::size_t I, typename L>
  struct pick<I, true, L> : nth<I, L> {};
  template<typename Is>
  struct mk;
  template<std::size_t... Is>
  struct mk<seq<Is...>> {
    using type = ring_impl<E, S, 0, seq<Is...>, typename pick<Is, (Is < sizeof...(Fs)), types<Fs...>>::type...>;
  };
  using type = typename mk<mkseq_t<N>>::type;
};
template<endianess E, signed_mode S, std::size_t N, typename Fill, typename... Fs>
using WideRing = typename Wide<E, S, N, Fill, Fs...>::type;

} // namespace rig
