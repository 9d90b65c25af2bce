// A controlled scheduler of instructions: a function is executed instruction by instruction (trap flag of the processor), and a
// handler runs at one boundary, at every one of them, or at none. Only one run reaches all the boundaries: at each of them, the state
// of the interrupted function (registers, stack, static data) is recorded before the handler runs; once the interrupted function
// is at its end, the recorded state is put back to reach the next boundary. Linux, x86-64.
#pragma once

#include "mc.hpp"

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>

#include <ucontext.h>

// Allocation that can be interrupted: what the harness itself and the owning actions need
namespace step {
alignas(16) char arena[1 << 14];
char *arena_pos;
bool in_operation;
} // namespace step
void *operator new(std::size_t n) {
  if (!step::in_operation)
    return std::malloc(n ? n : 1);
  n = (n + 15) / 16 * 16;
  char *p = __atomic_fetch_add(&step::arena_pos, n, __ATOMIC_RELAXED);
  if (p + n > step::arena + sizeof step::arena)
    std::abort();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (p && !(p >= step::arena && p < step::arena + sizeof step::arena))
    std::free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }

extern "C" char __data_start[], _end[];

namespace step {

using u64 = std::uint64_t;

enum Mode { COUNT, EVERY, STEP, FINISH, RESTORE };
struct Stepper { // on the heap: the recorded state does not include it
  Mode mode;
  u64 count, first;
  void (*victim)();   // what is interrupted
  bool (*handler)();  // what runs in between: whether all is well
  bool (*ended)();    // after each end of what is interrupted: whether all is well
  bool wrong_victim, wrong_handler;
  char *base, *low, *frame; // the stack of the interrupted function, and what the kernel has saved
  std::vector<char> stack, data, saved;
  char *alt_top;
  char alt[1 << 18];
};
Stepper *st;

inline void trouble(const char *m) {
  std::fprintf(stderr, "harness: %s\n", m);
  std::exit(3);
}
inline void keep(std::vector<char> &v, const char *p, std::size_t n) {
  if (n > v.size())
    _exit(3);
  std::memcpy(v.data(), p, n);
}
inline void on_trap(int, siginfo_t *, void *ucp) {
  ucontext_t *uc = static_cast<ucontext_t *>(ucp);
  greg_t &flags = uc->uc_mcontext.gregs[REG_EFL];
  char *frame = static_cast<char *>(ucp);
  const std::size_t frame_size = std::size_t(st->alt_top - frame), data_size = std::size_t(_end - __data_start);
  switch (st->mode) {
  case COUNT:
    st->count++;
    break;
  case EVERY:
    st->count++;
    if (!st->handler()) {
      st->wrong_handler = true;
      flags &= ~greg_t(0x100);
    }
    break;
  case STEP:
    st->count++;
    if (st->count < st->first)
      break;
    st->low = reinterpret_cast<char *>(uc->uc_mcontext.gregs[REG_RSP]) - 128;
    st->frame = frame;
    keep(st->stack, st->low, std::size_t(st->base - st->low));
    keep(st->saved, frame, frame_size);
    keep(st->data, __data_start, data_size);
    if (!st->handler())
      st->wrong_handler = true;
    st->mode = FINISH;
    flags &= ~greg_t(0x100);
    break;
  case RESTORE:
    if (frame != st->frame)
      _exit(3);
    std::memcpy(__data_start, st->data.data(), data_size);
    std::memcpy(st->low, st->stack.data(), std::size_t(st->base - st->low));
    std::memcpy(frame, st->saved.data(), frame_size);
    st->mode = STEP;
    break;
  default:
    _exit(3);
  }
}
__attribute__((noinline)) void step_on() {
  asm volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "memory", "cc");
}
__attribute__((noinline)) void step_off() {
  asm volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "memory", "cc");
}

// Goes to the end of the interrupted function once per boundary, from the first one asked for
inline bool finished() {
  if (st->mode == STEP) // all the boundaries were reached
    return true;
  if (!st->ended())
    st->wrong_victim = true;
  if (st->wrong_victim || st->wrong_handler || st->mode != FINISH)
    return true;
  mc::g().rec->index = st->count;
  mc::g().rec->progress++;
  st->mode = RESTORE;
  return false;
}
__attribute__((noinline)) void go() {
  st->base = static_cast<char *>(__builtin_frame_address(0)) + 16;
  step_on();
  st->victim();
  step_off();
  if (!finished())
    asm volatile("int3" ::: "memory");
}
inline void init() {
  st = new Stepper;
  st->alt_top = st->alt + sizeof st->alt;
  st->stack.resize(1 << 16);
  st->saved.resize(1 << 15);
  st->data.resize(std::size_t(_end - __data_start));
  stack_t alt;
  std::memset(&alt, 0, sizeof alt);
  alt.ss_sp = st->alt;
  alt.ss_size = sizeof st->alt;
  sigaltstack(&alt, nullptr);
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGTRAP, &sa, nullptr);
}
// How many instructions were executed; see also `wrong_victim` and `wrong_handler`
inline u64 run(Mode mode, u64 first, void (*victim)(), bool (*handler)(), bool (*ended)()) {
  st->mode = mode;
  st->count = 0;
  st->first = first;
  st->victim = victim;
  st->handler = handler;
  st->ended = ended;
  st->wrong_victim = st->wrong_handler = false;
  go();
  return st->count;
}

} // namespace step
