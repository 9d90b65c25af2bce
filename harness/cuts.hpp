// Streams of packets cut and delivered in every way to a real buffered dispatcher driven along with its reference model.
#pragma once

#include "disp.hpp"
#include "keys.hpp"

namespace rig {

// The stream is a sequence of packets chosen among a few. Each packet is delivered by putting any number of its bytes one by
// one, then the rest in bulk through any form: read_from, operator<< or operator()(input, output). The source goes on with the
// bytes of the next packets, which bulk loading must not read. Between packets, responses are unloaded in any form, or (double
// buffers) left there after any number of `get`.
template<typename Di>
struct Cuts {
  using T = typename Di::type;
  static const Spec &sp() {
    static const Spec s = spec_of<typename Di::ring>();
    return s;
  }
  static std::vector<bytes> packets() {
    std::vector<bytes> r;
    for (std::size_t i = 0; i < sp().sigs.size() && i < 4; i++)
      for (int pat = 0; pat < (sp().sigs[i].in_size && mc::thorough() ? 2 : 1); pat++) {
        bytes b = sp().index_bytes(i);
        for (std::size_t j = 0; j < sp().sigs[i].in_size; j++)
          b.push_back(pat == 0 ? byte(0xa0 + 7 * j + i) : byte(i));
        r.push_back(b);
      }
    r.push_back(sp().index_bytes(sp().sigs.size()));
    r.push_back(sp().index_bytes(sp().w == 1 ? 255 : 65535));
    return r;
  }

  static void load(mc::Ch &ch, T &d, Model &m, Src &src, std::size_t len, int forms, bool &written) {
    int k = ch(int(len) + 1, "bytes put");
    written = false;
    for (int j = 0; j < k; j++) {
      Status want = m.put(src.p[src.pos]);
      Status got = to_status(d.put(src()));
      MC_CHECK(got == want, "put: " << sname(got) << " instead of " << sname(want));
      MC_CHECK(d.is_loaded() == m.loaded(), "put: is_loaded " << d.is_loaded());
    }
    std::size_t rest = len - std::size_t(k), from = src.pos;
    if (rest == 0)
      return;
    Status want = LOADING;
    for (std::size_t j = 0; j < rest; j++)
      want = m.put(src.p[src.pos + j]);
    MC_CHECK(want != LOADING, "harness: the packet is not complete");
    int form = ch(forms, "form");
    // the forms are rotated when only a few are explored
    if (forms < int(IN_FORMS + PROC_FORMS))
      form = (form * 5 + k * 7 + int(len)) % int(IN_FORMS + PROC_FORMS);
    Status got;
    if (form < IN_FORMS) {
      got = to_status(Reader<upd::packet_status, T>::run(d, form, src, rest));
    } else {
      bytes out;
      bytes expected = want == RESOLVED ? m.drain() : bytes();
      got = to_status(Proc<upd::packet_status, T>::run(d, src, form - IN_FORMS, rest, expected.size(), out));
      MC_CHECK(out == expected, proc_form(form - IN_FORMS) << " writes " << mc::hex(out) << " instead of " << mc::hex(expected));
      written = want == RESOLVED;
    }
    MC_CHECK(got == want, "bulk loading: " << sname(got) << " instead of " << sname(want));
    MC_CHECK(src.pos - from == rest, "bulk loading reads " << src.pos - from << " bytes instead of " << rest);
    MC_CHECK(d.is_loaded() == m.loaded(), "bulk loading: is_loaded " << d.is_loaded());
    mc::count("bulk loads");
  }
  static void unload(mc::Ch &ch, T &d, Model &m, bool all) {
    if (!m.loaded()) {
      MC_CHECK(d.get() == 0, "an unloaded dispatcher delivers something");
      return;
    }
    std::size_t left = m.rest().size();
    // 0: write all through a form; 1: get all; 2...: leave the response there after some gets
    int what = ch(Di::dbl ? 4 : 2, "unload");
    if (what == 0 || what == 1) {
      std::size_t n = what == 1 ? left : ch(2, "gets") ? 1 : 0;
      for (std::size_t j = 0; j < n; j++)
        MC_CHECK(d.get() == m.get(), "get gives a wrong byte");
      if (m.loaded()) {
        int form = all ? ch(OUT_FORMS, "form") : int((left + n) % OUT_FORMS);
        bytes want = m.drain(), got = drain_form(d, form, want.size());
        MC_CHECK(got == want, "write_to: " << mc::hex(got) << " instead of " << mc::hex(want));
      }
    } else if (what == 3)
      MC_CHECK(d.get() == m.get(), "get gives a wrong byte");
    MC_CHECK(d.is_loaded() == m.loaded(), "unload: is_loaded " << d.is_loaded());
  }

  static void go(const std::string &label, int npackets, int first_forms, int forms, bool all_out) {
    static const std::vector<bytes> pk = packets();
    mc::explore(Di::name() + " " + label, [&](mc::Ch &ch) {
      world() = World{};
      Slot<T> d;
      Model m(sp());
      bytes stream;
      std::vector<std::size_t> len;
      for (int k = 0; k < npackets; k++) {
        const bytes &b = pk[ch(int(pk.size()), "packet")];
        len.push_back(b.size());
        stream.insert(stream.end(), b.begin(), b.end());
      }
      for (int i = 0; i < 4; i++) // what follows
        stream.push_back(byte(i));
      Src src(stream);
      for (int k = 0; k < npackets; k++) {
        bool written;
        load(ch, *d, m, src, len[k], k == 0 ? first_forms : forms, written);
        MC_CHECK(world().log == m.log, "calls " << evstr(world().log) << " instead of " << evstr(m.log));
        if (!written)
          unload(ch, *d, m, all_out && k == npackets - 1);
      }
      mc::outcome(mc::hash_str(m.key(), stream.size()));
    });
  }
};

enum { ALL = IN_FORMS + PROC_FORMS };

} // namespace rig
