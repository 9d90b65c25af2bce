// Bounded exhaustive exploration of the real code: stateless DFS over choice vectors, breadth-first search with replayed
// histories on fresh objects, and complete sweeps of integer ranges. C++11. See DESIGN.md.
#pragma once

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

using u64 = unsigned long long;

struct Failure {
  std::string msg;
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

#define MC_STR(...) (static_cast<std::ostringstream &>(std::ostringstream{}.flush() << __VA_ARGS__).str())
#define MC_CHECK(COND, ...)                                                                                            \
  do {                                                                                                                 \
    if (!(COND))                                                                                                       \
      ::mc::fail(MC_STR(__VA_ARGS__));                                                                                 \
  } while (0)

inline u64 hash_bytes(const void *p, std::size_t n, u64 h = 1469598103934665603ull) {
  const unsigned char *b = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  return h ^ (h >> 29);
}
inline u64 hash_str(const std::string &s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

inline std::string hex(const std::vector<unsigned char> &v) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (unsigned char c : v) {
    s += d[c >> 4];
    s += d[c & 15];
  }
  return s.empty() ? std::string("-") : s;
}
inline std::string hex(const unsigned char *p, std::size_t n) { return hex(std::vector<unsigned char>(p, p + n)); }

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o + "\"";
}

// What is being executed right now, in shared memory, so that a crash can be attributed to a case.
struct CaseRecord {
  char name[2000];
  u64 index;
  u64 progress;
  unsigned n;
  int ch[2000];
};

struct ScenarioStats {
  u64 states = 0, transitions = 0, executions = 0, max_depth = 0;
  bool complete = true;
  std::string note;
};

struct FailureRecord {
  std::string scenario, msg, desc;
  std::vector<int> ch;
  u64 index;
};

struct Global {
  CaseRecord *rec = nullptr;
  CaseRecord local;
  bool thorough = false, replay = false, trace = false;
  std::string rname;
  u64 rindex = 0;
  std::vector<int> rch;
  bool rfound = false;
  unsigned shard = 0, nshards = 1, counter = 0;
  std::string out;
  std::map<std::string, ScenarioStats> stats;
  std::vector<std::string> order;
  std::vector<std::string> samples;
  std::unordered_set<u64> outcomes;
  std::map<std::string, u64> digests;
  std::vector<FailureRecord> failures;
  u64 steps = 0; // operations performed in the current sweep
  std::map<std::string, u64> counters;
  u64 last_progress = 0;
  double t0 = 0, budget = 0;
  bool over_budget = false;
};

inline Global &g() {
  static Global x;
  return x;
}

inline double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline bool thorough() { return g().thorough; }

inline void on_tick(int) {
  Global &G = g();
  if (G.rec->progress == G.last_progress) {
    static const char m[] = "MC-HANG\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(78);
  }
  G.last_progress = G.rec->progress;
}

inline void init(int argc, char **argv) {
  Global &G = g();
  G.rec = &G.local;
  G.t0 = now();
  int hang = 40;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--thorough")
      G.thorough = true;
    else if (a == "--out")
      G.out = next();
    else if (a == "--trace")
      G.trace = true;
    else if (a == "--hang")
      hang = std::atoi(next().c_str());
    else if (a == "--budget")
      G.budget = std::atof(next().c_str());
    else if (a == "--shard") {
      std::string s = next();
      std::sscanf(s.c_str(), "%u/%u", &G.shard, &G.nshards);
    } else if (a == "--case") {
      int fd = open(next().c_str(), O_RDWR | O_CREAT, 0600);
      if (fd >= 0 && ftruncate(fd, sizeof(CaseRecord)) == 0) {
        void *p = mmap(nullptr, sizeof(CaseRecord), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED)
          G.rec = static_cast<CaseRecord *>(p);
      }
    } else if (a == "--replay") { // name|index|c,c,c
      G.replay = true;
      std::string s = next();
      std::size_t p2 = s.rfind('|'), p1 = s.rfind('|', p2 - 1);
      G.rname = s.substr(0, p1);
      G.rindex = std::strtoull(s.substr(p1 + 1, p2 - p1 - 1).c_str(), nullptr, 10);
      std::stringstream ss(s.substr(p2 + 1));
      std::string t;
      while (std::getline(ss, t, ','))
        if (!t.empty())
          G.rch.push_back(std::atoi(t.c_str()));
    }
  }
  std::memset(G.rec, 0, sizeof *G.rec);
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick;
  sigaction(SIGALRM, &sa, nullptr);
  itimerval tv;
  tv.it_interval.tv_sec = tv.it_value.tv_sec = hang;
  tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
  setitimer(ITIMER_REAL, &tv, nullptr);
}

inline void begin_case(const std::string &name) {
  Global &G = g();
  std::snprintf(G.rec->name, sizeof G.rec->name, "%s", name.c_str());
  G.rec->n = 0;
  G.rec->index = 0;
  G.rec->progress++;
}
inline void record_choice(int c) {
  CaseRecord *r = g().rec;
  if (r->n < 2000)
    r->ch[r->n++] = c;
  r->progress++;
}

inline void outcome(u64 h) {
  if (g().outcomes.size() < 4000000)
    g().outcomes.insert(h);
}
inline void digest(const std::string &scenario, u64 h) {
  u64 &d = g().digests[scenario];
  d = mix(d, h);
}
inline void count(const std::string &k, u64 n = 1) { g().counters[k] += n; }
inline void step(u64 n = 1) { g().steps += n; }
inline void sample(const std::string &s) {
  if (g().samples.size() < 12)
    g().samples.push_back(s);
}

// Returns true if the scenario is to be run in this process
inline bool enter(const std::string &name) {
  Global &G = g();
  if (G.replay) {
    if (G.rname != name)
      return false;
    G.rfound = true;
    return true;
  }
  unsigned id = G.counter++;
  if (id % G.nshards != G.shard)
    return false;
  if (!G.stats.count(name))
    G.order.push_back(name);
  return true;
}

inline bool out_of_budget(ScenarioStats &st) {
  Global &G = g();
  if (G.budget > 0 && now() - G.t0 > G.budget) {
    st.complete = false;
    st.note = "time budget reached";
    G.over_budget = true;
    return true;
  }
  return false;
}

int finish();

inline void record_failure(const std::string &name, const std::string &msg, const std::string &desc = "") {
  Global &G = g();
  FailureRecord f;
  f.scenario = name;
  f.msg = msg;
  f.desc = desc;
  f.index = G.rec->index;
  f.ch.assign(G.rec->ch, G.rec->ch + G.rec->n);
  G.failures.push_back(f);
  std::fprintf(stderr, "MC-FAIL %s: %s %s\n", name.c_str(), msg.c_str(), desc.c_str());
  if (G.failures.size() >= 8 && !G.replay) {
    std::exit(finish());
  }
}

// ---------------------------------------------------------------------------------------------------------------- DFS

class Ch {
public:
  int operator()(int n, const char *label = nullptr) {
    int c;
    if (pos < prefix.size()) {
      c = prefix[pos];
      if (c >= n || (pos < arity.size() && !g().replay && arity[pos] != n))
        fail(MC_STR("harness: divergence while replaying choice " << pos << " (" << c << " of " << n << ")"));
    } else {
      c = 0;
      prefix.push_back(0);
    }
    if (pos >= arity.size())
      arity.push_back(n);
    pos++;
    record_choice(c);
    if (g().trace && label)
      std::fprintf(stderr, "  choice %s = %d\n", label, c);
    return c;
  }
  std::vector<int> prefix, arity;
  std::size_t pos = 0;
};

template<typename F>
void explore(const std::string &name, F fn, u64 cap = 0) {
  if (!enter(name))
    return;
  Global &G = g();
  ScenarioStats &st = G.stats[name];
  Ch ch;
  if (G.replay)
    ch.prefix = G.rch;
  for (;;) {
    begin_case(name);
    ch.pos = 0;
    std::size_t before = ch.prefix.size();
    try {
      fn(ch);
    } catch (const Failure &f) {
      record_failure(name, f.msg);
      return;
    } catch (const std::exception &e) {
      record_failure(name, std::string("unexpected exception: ") + e.what());
      return;
    } catch (...) {
      record_failure(name, "unexpected exception");
      return;
    }
    st.executions++;
    if (ch.pos > st.max_depth)
      st.max_depth = ch.pos;
    st.states += (ch.pos >= before ? ch.pos - (before ? before - 1 : 0) : 0) + (before ? 0 : 1);
    if (G.replay)
      return;
    ch.prefix.resize(ch.pos);
    ch.arity.resize(ch.pos);
    while (!ch.prefix.empty() && ch.prefix.back() + 1 >= ch.arity.back()) {
      ch.prefix.pop_back();
      ch.arity.pop_back();
    }
    if (ch.prefix.empty())
      break;
    ch.prefix.back()++;
    if ((cap && st.executions >= cap) || ((st.executions & 255) == 0 && out_of_budget(st))) {
      st.complete = false;
      if (st.note.empty())
        st.note = "execution cap reached";
      break;
    }
  }
  st.transitions = st.states ? st.states - 1 : 0;
}

// -------------------------------------------------------------------------------------------------------------- sweep

template<typename F>
void sweep(const std::string &name, u64 lo, u64 hi, F fn) { // [lo, hi)
  if (!enter(name))
    return;
  Global &G = g();
  ScenarioStats &st = G.stats[name];
  begin_case(name);
  if (G.replay) {
    lo = G.rindex;
    hi = lo + 1;
  }
  G.steps = 0;
  volatile u64 *idx = &G.rec->index;
  volatile u64 *prog = &G.rec->progress;
  u64 i = lo;
  try {
    for (; i < hi; i++) {
      *idx = i;
      *prog = *prog + 1;
      fn(i);
      if ((i & 0xffffff) == 0 && out_of_budget(st)) {
        i++;
        break;
      }
    }
  } catch (const Failure &f) {
    record_failure(name, f.msg);
  } catch (const std::exception &e) {
    record_failure(name, std::string("unexpected exception: ") + e.what());
  }
  st.executions += i - lo;
  st.states += i - lo;
  st.transitions += G.steps ? G.steps : i - lo;
  if (st.max_depth < 1)
    st.max_depth = 1;
}

// ---------------------------------------------------------------------------------------------------------------- BFS
//
// Sys requirements: default constructible through `make()`, int nops(), std::string op_name(int), bool enabled(int),
// void apply(int) (acts on the real object and on the model and compares them, throws Failure), std::string key().

template<typename Make>
void bfs(const std::string &name, Make make, u64 max_states, unsigned max_depth) {
  if (!enter(name))
    return;
  Global &G = g();
  ScenarioStats &st = G.stats[name];
  using Ptr = decltype(make());

  auto run = [&](const std::vector<int> &h, bool traced) -> Ptr {
    begin_case(name);
    Ptr s = make();
    for (int op : h) {
      record_choice(op);
      if (traced)
        std::fprintf(stderr, "  op %s\n", s->op_name(op).c_str());
      s->apply(op);
    }
    return s;
  };
  auto describe = [&](const std::vector<int> &h) {
    std::string d;
    try {
      Ptr s = make();
      for (int op : h)
        d += (d.empty() ? "" : ", ") + s->op_name(op);
    } catch (...) {
    }
    return d;
  };

  if (G.replay) {
    try {
      run(G.rch, true);
      st.executions++;
    } catch (const Failure &f) {
      record_failure(name, f.msg, describe(G.rch));
    } catch (const std::exception &e) {
      record_failure(name, std::string("unexpected exception: ") + e.what(), describe(G.rch));
    }
    return;
  }

  struct Node {
    int parent, op;
    unsigned depth;
  };
  std::vector<Node> nodes;
  std::unordered_set<std::string> seen;
  std::vector<int> h;
  auto history = [&](int id) {
    h.clear();
    for (; id > 0; id = nodes[id].parent)
      h.insert(h.begin(), nodes[id].op);
  };
  try {
    Ptr s = run({}, false);
    nodes.push_back(Node{-1, -1, 0});
    seen.insert(s->key());
  } catch (const Failure &f) {
    record_failure(name, f.msg);
    return;
  }
  for (std::size_t id = 0; id < nodes.size(); id++) {
    if (nodes[id].depth >= max_depth) {
      st.complete = false;
      st.note = "depth bound reached";
      break;
    }
    if (nodes.size() >= max_states || ((id & 63) == 0 && out_of_budget(st))) {
      st.complete = false;
      if (st.note.empty())
        st.note = "state bound reached";
      break;
    }
    int nops = 0;
    std::vector<int> base;
    try {
      history(int(id));
      base = h;
      Ptr probe = run(base, false);
      nops = probe->nops();
      std::vector<char> en(nops);
      for (int op = 0; op < nops; op++)
        en[op] = probe->enabled(op);
      bool used = false;
      for (int op = 0; op < nops; op++) {
        if (!en[op])
          continue;
        Ptr s2;
        if (!used) { // the probe serves for the first enabled operation
          s2 = std::move(probe);
          used = true;
        } else
          s2 = run(base, false);
        record_choice(op);
        s2->apply(op);
        st.transitions++;
        st.executions++;
        std::string k = s2->key();
        outcome(hash_str(k));
        if (seen.insert(k).second) {
          nodes.push_back(Node{int(id), op, nodes[id].depth + 1});
          if (nodes[id].depth + 1 > st.max_depth)
            st.max_depth = nodes[id].depth + 1;
        }
      }
    } catch (const Failure &f) {
      std::vector<int> full(G.rec->ch, G.rec->ch + G.rec->n);
      std::string msg = f.msg;
      std::string d = describe(full);
      record_failure(name, msg, d);
      st.states += nodes.size();
      return;
    } catch (const std::exception &e) {
      record_failure(name, std::string("unexpected exception: ") + e.what());
      st.states += nodes.size();
      return;
    }
  }
  st.states += nodes.size();
  if (!nodes.empty()) {
    history(int(nodes.size()) - 1);
    sample(name + ": " + describe(h));
  }
}

// --------------------------------------------------------------------------------------------------------------- end

inline int finish() {
  Global &G = g();
  itimerval tv;
  std::memset(&tv, 0, sizeof tv);
  setitimer(ITIMER_REAL, &tv, nullptr);
  if (G.replay && !G.rfound)
    std::fprintf(stderr, "MC-NOSUCHCASE %s\n", G.rname.c_str());
  if (!G.out.empty()) {
    FILE *f = std::fopen(G.out.c_str(), "w");
    if (f) {
      u64 states = 0, trans = 0, ex = 0;
      std::fprintf(f, "{\"scenarios\":[");
      bool first = true;
      for (const std::string &n : G.order) {
        const ScenarioStats &s = G.stats[n];
        states += s.states;
        trans += s.transitions;
        ex += s.executions;
        std::fprintf(f, "%s{\"name\":%s,\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"depth\":%llu,"
                        "\"complete\":%s,\"note\":%s,\"digest\":\"%016llx\"}",
                     first ? "" : ",", jstr(n).c_str(), s.states, s.transitions, s.executions, s.max_depth,
                     s.complete ? "true" : "false", jstr(s.note).c_str(), G.digests.count(n) ? G.digests[n] : 0ull);
        first = false;
      }
      std::fprintf(f, "],\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"outcomes\":%llu,\"samples\":[",
                   states, trans, ex, (u64)G.outcomes.size());
      first = true;
      for (const std::string &s : G.samples) {
        std::fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str());
        first = false;
      }
      std::fprintf(f, "],\"counters\":{");
      first = true;
      for (auto &kv : G.counters) {
        std::fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), kv.second);
        first = false;
      }
      std::fprintf(f, "},\"failures\":[");
      first = true;
      for (const FailureRecord &r : G.failures) {
        std::fprintf(f, "%s{\"scenario\":%s,\"index\":%llu,\"msg\":%s,\"desc\":%s,\"choices\":[", first ? "" : ",",
                     jstr(r.scenario).c_str(), r.index, jstr(r.msg).c_str(), jstr(r.desc).c_str());
        for (std::size_t i = 0; i < r.ch.size(); i++)
          std::fprintf(f, "%s%d", i ? "," : "", r.ch[i]);
        std::fprintf(f, "]}");
        first = false;
      }
      std::fprintf(f, "]}\n");
      std::fclose(f);
    }
  }
  return G.failures.empty() ? 0 : 3;
}

} // namespace mc
