// Deterministic scheduler: the harness owns the interleaving and the clock.
//
// The library is compiled with -fsanitize=thread but linked against vsched.cc
// instead of the sanitizer's runtime: every atomic operation becomes a
// scheduling point. pthread, futex, sleep, clock and blocking socket calls are
// interposed. Exactly one thread runs at a time; which one is decided by the
// strategy drawn from the case's choices, so schedules shrink and replay.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <cstdint>
#include "pbt.h"

namespace sched {
struct Stats { uint64_t points, switches, threads, time_jumps, spurious; };
struct Limits { uint64_t max_points = 3000000; bool allow_time_jumps = true; bool allow_spurious = true; bool io_faults = false; bool coarse = false; bool date_steps = true; };
// From here on the calling thread and every thread it creates are scheduled.
void start(pbt::Src &src, Limits lim = {});
// Back to ordinary execution; only when no other thread is alive or wanted.
bool active();
uint64_t now_ns();            // virtual monotonic time
void point();                 // explicit scheduling point
Stats stats();
// Virtual time may only be trusted as "not late" when no jumps are injected.
bool jumps();
// The system's date may be set while threads wait: set it now, is it set at
// random in this case, and no longer set it.
void step_date(int64_t ns);
bool date_steps();
void keep_date();
// Stop injecting preemptions/jumps/faults (fair round robin from now on).
void calm();
// Waits (in virtual time) until no other thread is runnable now; true if idle.
void settle();
// Lets virtual time pass.
void sleep_ns(uint64_t ns);
// While choked, sends on the descriptor find its buffer full.
void choke(int fd, bool on);
// While denied, no further descriptor can be added to an epoll set.
void deny_watch(bool on);
uint64_t live_threads();
int self_id();                // never reused
// Bookkeeping of the harness itself: no scheduling points while one is alive.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet &) = delete; };
}  // namespace sched
#endif
