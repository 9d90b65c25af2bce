// C27: separate uses of the library never interfere, even when one interrupts another at any instruction.
#include "lite.hpp"
#include "step.hpp"

namespace lite {
Trace *current;
}
using namespace lite;
using step::arena;
using step::arena_pos;
using step::in_operation;
using step::st;

namespace {

struct Op { // an operation and the memory it works on
  const char *name;
  const char *format;
  std::size_t size;
  void (*make)(void *, u64);
  void (*run)(void *);
  void (*drop)(void *);
};
struct Ops {
  std::vector<Op> all;
  const char *format;
  template<typename T>
  static void make(void *p, u64 s) {
    new (p) T(s);
  }
  template<typename T>
  static void run(void *p) {
    static_cast<T *>(p)->run();
  }
  template<typename T>
  static void drop(void *p) {
    static_cast<T *>(p)->~T();
  }
  template<typename T>
  void add() {
    { T first(1); } // what is made once only
    all.push_back(Op{T::name(), format, sizeof(T), &make<T>, &run<T>, &drop<T>});
  }
};

struct Use {
  const Op *op;
  u64 seed;
  alignas(16) char mem[4096];
  Trace t;
  void make() {
    if (op->size > sizeof mem)
      std::abort();
    std::memset(mem, 0x5a, sizeof mem);
    t = Trace{0, 1469598103934665603ull};
    op->make(mem, seed);
  }
  void run() {
    Trace *c = current;
    current = &t;
    op->run(mem);
    current = c;
  }
};

Use A, B;
Trace expect_a, expect_b;

void victim() { A.run(); }
bool interrupt() {
  char *pos = arena_pos;
  B.make();
  B.run();
  const bool good = B.t == expect_b;
  B.op->drop(B.mem);
  arena_pos = pos;
  return good;
}
bool ended() { return A.t == expect_a; }


Trace alone(Use &u) {
  in_operation = true;
  arena_pos = arena;
  u.make();
  u.run();
  u.op->drop(u.mem);
  in_operation = false;
  return u.t;
}
u64 stepped(step::Mode mode, u64 first, const Trace &ta, const Trace &tb) {
  in_operation = true;
  arena_pos = arena;
  A.make();
  expect_a = ta;
  expect_b = tb;
  step::run(mode, first, victim, interrupt, ended);
  A.op->drop(A.mem);
  in_operation = false;
  const char *where = mode == step::EVERY ? "at every instruction" : mode == step::COUNT ? "nowhere" : "once";
  MC_CHECK(!st->wrong_handler, "'" << B.op->name << "' (" << B.op->format << ") goes wrong when it interrupts '" << A.op->name << "' ("
                             << A.op->format << ") after " << st->count << " instructions");
  MC_CHECK(!st->wrong_victim, "'" << A.op->name << "' (" << A.op->format << ") goes wrong when '" << B.op->name << "' (" << B.op->format
                             << ") interrupts it " << where << " after " << st->count << " instructions");
  return st->count;
}

} // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  step::init();

  Ops ops;
  ops.format = "LE/TC";
  all_operations<endianess::LITTLE, signed_mode::TWOS_COMPLEMENT>(ops);
  ops.format = "BE/SM";
  all_operations<endianess::BIG, signed_mode::SIGNED_MAGNITUDE>(ops);

  for (std::size_t a = 0; a < ops.all.size(); a++)
    for (std::size_t b = 0; b < ops.all.size(); b++) {
      u64 n = 0;
      Trace ta, tb;
      A.op = &ops.all[a];
      B.op = &ops.all[b];
      const std::string name = MC_STR(A.op->name << " " << A.op->format << " interrupted by " << B.op->name << " " << B.op->format);
      u64 reached = 0;
      mc::explore(name, [&](mc::Ch &ch) {
        if (!n) {
          A.seed = 11;
          B.seed = 23;
          ta = alone(A), tb = alone(B);
          MC_CHECK(alone(A) == ta && alone(B) == tb, "the result of an operation depends on a former one on other objects");
          n = stepped(step::COUNT, 0, ta, tb);
          if (n < 50)
            step::trouble("the processor does not trap");
        }
        const int what = ch(2);
        if (what == 0) {
          stepped(step::EVERY, 0, ta, tb);
          reached++;
        } else {
          const u64 last = stepped(step::STEP, 1, ta, tb);
          if (last < n)
            step::trouble("the boundaries differ from one run to another");
          reached += last;
        }
        mc::outcome(mc::mix(ta.h, tb.h));
      });
      if (reached) { // one state per boundary
        mc::g().stats[name].states = mc::g().stats[name].executions = reached;
        mc::g().stats[name].transitions = n;
        mc::count("instructions where an operation was interrupted", reached - 1);
      }
    }
  return mc::finish();
}
