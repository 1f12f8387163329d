#include "vsched.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <deque>
#include <map>
#include <new>
#include <cstring>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <cstddef>
#include <time.h>
#include <unistd.h>

namespace sched {

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
template <typename F> static F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name) static auto real_fn = ::sched::real<decltype(&::name)>(#name)

constexpr uint64_t kInf = UINT64_MAX;
enum St { RUN, READY, WAIT, IOWAIT, DONE };
struct Thread {
  int id = 0; std::atomic<int> go{0}; St st = READY; const void *obj = nullptr; const char *why = ""; uint64_t deadline = kInf; bool real = false, next_real = false;  // is (will) the deadline (be) a date?
  bool timed_out = false; uint64_t prio = 0; uint64_t io_seen = 0; pthread_t handle{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; uint64_t streak = 0;
  const void *recent[8] = {}; uint32_t recent_at = 0, repeats = 0;
};
struct Mutex { Thread *owner = nullptr; int depth = 0; };
struct G {
  bool on = false; std::vector<Thread *> th; Thread *cur = nullptr;
  std::unordered_map<const void *, Mutex> mx; std::unordered_map<const void *, int> once;
  uint64_t now = 1000000000ull; uint64_t points = 0, switches = 0, jumps = 0, spurious = 0; uint64_t rng = 1;
  int mode = 0; uint32_t preempt_den = 8; std::vector<uint64_t> change; size_t next_change = 0; uint64_t low_prio = 1u << 20;
  bool time_jumps = false, spur = false, io_faults = false, calm = false; Limits lim; uint64_t io_epoch = 1; pthread_key_t key; bool have_key = false; uint32_t jump_den = 400; uint32_t step_den = 0, steps = 0; uint64_t real_base = 1700000000ull * 1000000000ull;
  std::string trace; uint64_t version = 1, seen_version = 0, next_deadline = 0;  // mode 1: is a new choice needed?
  bool idle_polled = false;
};
static G &g() { static G *p = new G; return *p; }
static __thread Thread *self = nullptr;
static __thread int in_rt = 0;

bool active() { return g().on && self != nullptr; }
static uint64_t rnd() { uint64_t z = (g().rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }

static void wait_go(Thread *t) { while (t->go.load(std::memory_order_acquire) == 0) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); t->go.store(0, std::memory_order_relaxed); }
static void give_go(Thread *t) { t->go.store(1, std::memory_order_release); raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static std::string describe() {
  std::string s; char b[160];
  for (auto *t : g().th) { if (t->st == DONE) continue; snprintf(b, sizeof b, " [T%d %s%s%s]", t->id, t->st == WAIT ? "waits:" : t->st == IOWAIT ? "io:" : "ready", t->st == WAIT || t->st == IOWAIT ? t->why : "", t->deadline != kInf ? " timed" : ""); s += b; }
  return s;
}
static bool runnable(Thread *t) {
  if (t->st == READY) return true;
  if (t->st == IOWAIT) return t->io_seen != g().io_epoch || t->deadline <= g().now;
  return false;
}
static void expire() { for (auto *t : g().th) if (t->st == WAIT && t->deadline <= g().now) { t->st = READY; t->timed_out = true; } }
static uint64_t earliest() { uint64_t e = kInf; for (auto *t : g().th) if ((t->st == WAIT || t->st == IOWAIT) && t->deadline < e) e = t->deadline; return e; }

// Chooses the next thread to run. The current one may be among the candidates.
static Thread *choose(bool allow_cur) {
  G &x = g();
  for (;;) {
    expire();
    static std::vector<Thread *> &c = *new std::vector<Thread *>; c.clear(); for (auto *t : x.th) if ((t != x.cur || allow_cur) && runnable(t)) c.push_back(t);
    if (!c.empty()) {
      if (x.calm) { // fair: round robin by id after the current one
        Thread *best = nullptr; for (auto *t : c) if (t->id > x.cur->id && (!best || t->id < best->id)) best = t;
        return best ? best : c[0];
      }
      if (x.mode == 1) { Thread *b = c[0]; for (auto *t : c) if (t->prio > b->prio) b = t; return b; }
      return c[rnd(c.size())];
    }
    bool io = false; for (auto *t : x.th) if (t->st == IOWAIT) io = true;
    if (io && !x.idle_polled) { // one more look, in case an event was not announced
      x.idle_polled = true; ++x.io_epoch; continue;
    }
    uint64_t e = earliest();
    if (e == kInf) return nullptr;
    if (e > x.now) x.now = e; x.idle_polled = false;
  }
}
static void run_next(Thread *n) {  // current thread gives the token to n and waits for its turn
  G &x = g(); Thread *me = self; x.cur = n; n->st = RUN; if (n != me) { ++x.version; ++x.switches; n->streak = 0; give_go(n); wait_go(me); }
}
static void deadlock() { pbt::fail("deadlock: no thread can run:%s", describe().c_str()); }

// Sets the system's date forward or back.
static void step(int64_t ns) {
  G &x = g(); x.real_base += uint64_t(ns); ++x.steps; ++x.version;
  for (auto *t : x.th) if ((t->st == WAIT || t->st == IOWAIT) && t->real && t->deadline < kInf - 1) t->deadline = ns < 0 ? t->deadline + uint64_t(-ns) : t->deadline > uint64_t(ns) ? t->deadline - uint64_t(ns) : 0;
}
static void bump() {
  G &x = g(); x.now += 100;
  if (++x.points > x.lim.max_points) pbt::fail("no progress: %llu scheduling points without an end:%s", (unsigned long long)x.points, describe().c_str());
  if (!x.calm && x.time_jumps && rnd(x.jump_den) == 0) { uint64_t e = earliest(); if (e != kInf && e > x.now && e - x.now < 600ull * 1000000000ull) { x.now = e; ++x.jumps; } }
  if (x.step_den && x.steps < 16 && rnd(x.step_den) == 0) { static const int64_t kSteps[] = {1, 20, 700, 5000, 60000, 3600000, 86400000}; int64_t d = kSteps[rnd(7)] * 1000000; step(rnd(2) ? d : -d); }
}
void point() {
  if (!active() || in_rt) return;
  ++in_rt; G &x = g(); bump(); x.idle_polled = false; Thread *me = self; ++me->streak; bool sw = false;
  if (x.calm) sw = me->streak % 40 == 0;
  else if (x.mode == 0) sw = rnd(x.preempt_den) == 0;
  else if (x.mode == 1) {
    while (x.next_change < x.change.size() && x.points >= x.change[x.next_change]) { ++x.next_change; me->prio = --x.low_prio; ++x.version; }
    sw = x.version != x.seen_version || x.now >= x.next_deadline;
    if (sw) { x.seen_version = x.version; x.next_deadline = earliest(); }
  }
  if (!sw && me->streak > 3000) { sw = true; }
  if (me->streak > 3000) { me->prio = --x.low_prio; me->streak = 0; ++x.version; }
  if (sw) { me->st = READY; Thread *n = choose(true); run_next(n); me->st = RUN; }
  --in_rt;
}
static void yield_point() {
  if (!active() || in_rt) return;
  ++in_rt; G &x = g(); bump(); x.idle_polled = false; Thread *me = self; if (x.mode == 1) me->prio = --x.low_prio; me->st = READY; Thread *n = choose(false); if (n) run_next(n); me->st = RUN; --in_rt;
}
// Blocks the current thread; returns true when woken, false on timeout.
static bool block(const void *obj, const char *why, uint64_t deadline, St st = WAIT) {
  G &x = g(); Thread *me = self; bump();
  me->st = st; me->obj = obj; me->why = why; me->deadline = deadline; me->real = me->next_real; me->next_real = false; me->timed_out = false; me->io_seen = x.io_epoch;
  Thread *n = choose(true);
  if (!n) { deadlock(); }
  run_next(n); me->st = RUN; me->obj = nullptr; bool to = me->timed_out; me->deadline = kInf; return !to;
}
static void wake(const void *obj, size_t n) {
  G &x = g(); ++x.version; std::vector<Thread *> w; for (auto *t : x.th) if (t->st == WAIT && t->obj == obj) w.push_back(t);
  while (n-- && !w.empty()) { size_t i = rnd(w.size()); w[i]->st = READY; w[i]->timed_out = false; w.erase(w.begin() + i); }
}
static size_t waiters(const void *obj) { size_t n = 0; for (auto *t : g().th) if (t->st == WAIT && t->obj == obj) ++n; return n; }

static void finish(void *p) {
  Thread *t = static_cast<Thread *>(p);
  if (!g().on) return;
  ++in_rt; t->st = DONE; wake(t, SIZE_MAX); G &x = g(); Thread *n = choose(false);
  self = nullptr; --in_rt;
  if (!n) deadlock();
  x.cur = n; n->st = RUN; n->streak = 0; ++x.switches; give_go(n);
}
static void *trampoline(void *p) {
  Thread *t = static_cast<Thread *>(p); self = t; wait_go(t); t->st = RUN;
  pthread_setspecific(g().key, t);
  return t->fn(t->arg);
}
static Thread *add_thread() {
  Thread *t = new Thread; t->id = g().th.size(); t->prio = (1u << 20) + 1 + rnd(1u << 30); g().th.push_back(t); ++g().version; return t;
}
static bool heap_ready = false; static uint32_t plain_den = 0; static void heap_init();
void start(pbt::Src &src, Limits lim) {
  G &x = g(); x.lim = lim;
  size_t m = src.pick({1, 4, 4}); x.rng = src.draw(UINT32_MAX);
  x.mode = m == 0 ? 2 : m == 1 ? 1 : 0;
  if (x.mode == 1) { size_t d = src.draw(5); for (size_t i = 0; i < d; ++i) { uint32_t b = 3 + src.draw(10); x.change.push_back(src.draw((1ull << b) - 1)); } std::sort(x.change.begin(), x.change.end()); }
  static const uint32_t den[] = {40, 12, 4, 2}; if (x.mode == 0) x.preempt_den = den[src.draw(3)];
  x.time_jumps = lim.allow_time_jumps && src.chance(1, 3); if (x.time_jumps) { static const uint32_t jd[] = {2000, 400, 60}; x.jump_den = jd[src.draw(2)]; }
  x.spur = lim.allow_spurious && src.chance(1, 4); x.io_faults = lim.io_faults && src.flip();
  if (lim.date_steps && src.chance(1, 6)) { static const uint32_t sd[] = {2000, 300, 40}; x.step_den = sd[src.draw(2)]; }
  src.note("schedule: %s%s%s%s%s", x.mode == 0 ? "random walk" : x.mode == 1 ? "priorities" : "run to block", x.time_jumps ? ", early timeouts" : "", x.spur ? ", spurious wakeups" : "", x.io_faults ? ", short/failing socket calls" : "", x.step_den ? ", the date is set now and then" : "");
  static const uint32_t pd[] = {0, 0, 200, 20}; plain_den = pd[src.draw(3)];
  if (!heap_ready) heap_init();
  if (!x.have_key) { pthread_key_create(&x.key, finish); x.have_key = true; }
  self = add_thread(); self->st = RUN; x.cur = self; x.on = true;
}
uint64_t now_ns() { return g().now; }
Stats stats() { G &x = g(); return {x.points, x.switches, x.th.size(), x.jumps, x.spurious}; }
bool jumps() { return g().time_jumps; }
bool date_steps() { return g().step_den != 0; }
void keep_date() { g().step_den = 0; }
void step_date(int64_t ns) { ++in_rt; step(ns); --in_rt; }
void calm() { g().calm = true; g().time_jumps = false; g().spur = false; g().io_faults = false; }
void settle() {
  if (!active()) return;
  // Run the others until all of them are blocked, without advancing the clock.
  for (int i = 0; i < 2000000; ++i) {
    ++in_rt; G &x = g(); expire(); bool other = false; for (auto *t : x.th) if (t != self && runnable(t)) other = true; --in_rt;
    if (!other) return; yield_point();
  }
}
void sleep_ns(uint64_t ns) { ++in_rt; G &x = g(); uint64_t d = x.now + ns; while (x.now < d) block(nullptr, "sleep", d); --in_rt; }
Quiet::Quiet() { ++in_rt; }
Quiet::~Quiet() { --in_rt; }
static bool choked[1024];
static std::atomic<bool> watch_denied;
void deny_watch(bool on) { watch_denied = on; }
void choke(int fd, bool on) { if (fd >= 0 && fd < 1024) choked[fd] = on; }
int self_id() { return self ? self->id : -1; }
uint64_t live_threads() { uint64_t n = 0; for (auto *t : g().th) if (t->st != DONE) ++n; return n; }

static uint64_t ts_ns(const struct timespec *t) { return uint64_t(t->tv_sec) * 1000000000ull + t->tv_nsec; }
static uint64_t abs_to_virtual(clockid_t c, const struct timespec *t) {
  if (self) self->next_real = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  if (t->tv_sec < 0) return 0;
  if (uint64_t(t->tv_sec) > 9000000000ull) return kInf - 1;
  uint64_t v = ts_ns(t); if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) return v > g().real_base ? v - g().real_base : 0; return v; }
static uint64_t rel_to_virtual(uint64_t ns) { if (self) self->next_real = false; uint64_t n = g().now; return ns > kInf - 2 - n ? kInf - 1 : n + ns; }

static int do_lock(pthread_mutex_t *m, bool try_only, uint64_t deadline) {
  Mutex *x = &g().mx[m];
  if (x->owner == self) { int kind = m->__data.__kind & 3; if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x->depth; return 0; } if (try_only) return EBUSY; if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; pbt::fail("deadlock: a thread locks a mutex it already holds:%s", describe().c_str()); }
  while (x->owner) { if (try_only) return EBUSY; if (!block(m, "mutex", deadline)) return ETIMEDOUT; x = &g().mx[m]; }
  x->owner = self; x->depth = 1; return 0;
}
static int do_unlock(pthread_mutex_t *m) {
  auto it = g().mx.find(m); if (it == g().mx.end() || it->second.owner != self) return EPERM;
  if (--it->second.depth == 0) { g().mx.erase(it); wake(m, 1); } return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
  auto it = g().mx.find(m); int depth = it == g().mx.end() ? 1 : it->second.depth; if (it != g().mx.end()) { g().mx.erase(it); wake(m, 1); }
  bool woken = true;
  if (g().spur && rnd(6) == 0) { ++g().spurious; self->next_real = false; self->st = READY; bump(); Thread *n = choose(true); run_next(n); self->st = RUN; }
  else woken = block(c, "condition", deadline);
  do_lock(m, false, kInf); g().mx[m].depth = depth; return woken ? 0 : ETIMEDOUT;
}
// --- heap: addresses are never reused within a case; accesses of instrumented
// code to released memory are reported. -----------------------------------
constexpr uintptr_t kHeap = 0x400000000000ull; constexpr size_t kHeapSize = 4ull << 30; constexpr uintptr_t kShadow = 0x410000000000ull;
static uintptr_t heap_next = kHeap;
static inline bool in_heap(const void *p) { return uintptr_t(p) - kHeap < kHeapSize; }
static inline unsigned char *shadow(uintptr_t p) { return reinterpret_cast<unsigned char *>(kShadow + ((p - kHeap) >> 4)); }
static void heap_init() {
  long a = raw6(SYS_mmap, kHeap, kHeapSize, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0), b = raw6(SYS_mmap, kShadow, kHeapSize >> 4, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
  heap_ready = a == long(kHeap) && b == long(kShadow);
}
static void *heap_alloc(size_t n, size_t al) {
  if (!heap_ready || !self || !g().on) return nullptr;
  if (al < 16) al = 16;
  uintptr_t p = (heap_next + 16 + al - 1) & ~(al - 1); if (p + n + 64 > kHeap + kHeapSize) return nullptr;
  // 16 guard bytes before and after stay marked as not accessible.
  memset(shadow(heap_next), 2, (p - heap_next) >> 4);
  *reinterpret_cast<size_t *>(p - 16) = n; heap_next = (p + n + 15) & ~uintptr_t(15); memset(shadow(p), 0, (heap_next - p) >> 4); *shadow(heap_next) = 2; if (n == 0) {} return reinterpret_cast<void *>(p);
}
static void heap_free(void *p) {
  uintptr_t a = uintptr_t(p); size_t n = *reinterpret_cast<size_t *>(a - 16), k = (n + 15) >> 4;
  if (n && *shadow(a) == 1) pbt::fail("memory released twice");
  if (n && *shadow(a) == 2) pbt::fail("release of something that is not a block");
  memset(shadow(a), 1, k ? k : 0); if (self && g().on) memset(p, 0xdb, n);
}
static inline void access(const void *p, const char *kind) {
  if (!self || in_rt || !g().on) return;
  if (in_heap(p)) { unsigned char s = *shadow(uintptr_t(p)); if (s) pbt::fail(s == 1 ? "%s of released memory" : "%s outside of an allocated block", kind); }
  else if (uintptr_t(p) - uintptr_t(__builtin_frame_address(0)) < (1u << 20)) return;  // own stack
  if (plain_den && rnd(plain_den) == 0) point();
}
// With "coarse", atomics this thread has just used are points only now and then.
static void atomic_point(const void *p) {
  if (!active() || in_rt) return;
  if (g().lim.coarse) { Thread *t = self; for (auto *q : t->recent) if (q == p) { if (++t->repeats % 24) return; point(); return; } t->recent[t->recent_at++ % 8] = p; }
  point();
}
struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };
static void io_event() { ++g().io_epoch; ++g().version; }
}  // namespace sched

using namespace sched;
#define ACTIVE (sched::active() && !sched::in_rt)

extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  REAL(pthread_create);
  if (!ACTIVE) return real_fn(t, a, fn, arg);
  point(); Thread *n; { Rt r; n = add_thread(); n->fn = fn; n->arg = arg; int e = real_fn(&n->handle, a, trampoline, n); if (e) { n->st = DONE; return e; } *t = n->handle; }
  point(); return 0;
}
int pthread_join(pthread_t t, void **ret) {
  REAL(pthread_join);
  if (ACTIVE) { point(); Rt r; for (auto *x : g().th) if (x->st != DONE && x->handle && pthread_equal(x->handle, t) && x != self) { while (x->st != DONE) block(x, "join", kInf); break; } }
  return real_fn(t, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!ACTIVE) { REAL(pthread_mutex_lock); if (sched::active() ) return 0; return real_fn(m); } point(); Rt r; return do_lock(m, false, kInf); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!ACTIVE) { REAL(pthread_mutex_trylock); if (sched::active()) return 0; return real_fn(m); } point(); Rt r; return do_lock(m, true, kInf); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!ACTIVE) { REAL(pthread_mutex_timedlock); return real_fn(m, ts); } point(); Rt r; return do_lock(m, false, abs_to_virtual(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { if (!ACTIVE) { REAL(pthread_mutex_clocklock); return real_fn(m, c, ts); } point(); Rt r; return do_lock(m, false, abs_to_virtual(c, ts)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!ACTIVE) { REAL(pthread_mutex_unlock); if (sched::active()) return 0; return real_fn(m); } int e; { Rt r; e = do_unlock(m); } point(); return e; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (sched::active()) { g().mx.erase(m); return 0; } REAL(pthread_mutex_destroy); return real_fn(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ACTIVE) { REAL(pthread_cond_wait); return real_fn(c, m); } point(); Rt r; return cond_wait(c, m, kInf); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!ACTIVE) { REAL(pthread_cond_timedwait); return real_fn(c, m, ts); } point(); Rt r; return cond_wait(c, m, abs_to_virtual(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (!ACTIVE) { REAL(pthread_cond_clockwait); return real_fn(c, m, k, ts); } point(); Rt r; return cond_wait(c, m, abs_to_virtual(k, ts)); }
int pthread_cond_signal(pthread_cond_t *c) { if (!ACTIVE) { REAL(pthread_cond_signal); return real_fn(c); } point(); { Rt r; wake(c, 1); } point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!ACTIVE) { REAL(pthread_cond_broadcast); return real_fn(c); } point(); { Rt r; wake(c, SIZE_MAX); } point(); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { if (sched::active()) return 0; REAL(pthread_cond_destroy); return real_fn(c); }
// Reader/writer locks are treated as exclusive locks (sound: fewer schedules).
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!ACTIVE) { REAL(pthread_rwlock_rdlock); return real_fn(l); } point(); Rt r; Mutex *x = &g().mx[l]; while (x->owner) { block(l, "rwlock", kInf); x = &g().mx[l]; } x->owner = self; x->depth = 1; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!ACTIVE) { REAL(pthread_rwlock_wrlock); return real_fn(l); } return pthread_rwlock_rdlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!ACTIVE) { REAL(pthread_rwlock_unlock); return real_fn(l); } { Rt r; g().mx.erase(l); wake(l, SIZE_MAX); } point(); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!ACTIVE) { REAL(pthread_once); return real_fn(o, fn); }
  point();
  for (;;) { int *s; { Rt r; s = &g().once[o]; if (*s == 2 || *o == 2) return 0; if (*s == 1) { block(s, "once", kInf); continue; } *s = 1; }
    fn(); Rt r; g().once[o] = 2; *o = 2; wake(&g().once[o], SIZE_MAX); return 0; }
}
int sched_yield(void) { if (!ACTIVE) return raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); yield_point(); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *rem) { if (!ACTIVE) { long r = raw6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; } point(); Rt r; block(nullptr, "sleep", rel_to_virtual(ts_ns(ts))); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) { if (!ACTIVE) return -raw6(SYS_clock_nanosleep, c, flags, (long)ts, (long)rem, 0, 0); point(); Rt r; block(nullptr, "sleep", flags & TIMER_ABSTIME ? abs_to_virtual(c, ts) : rel_to_virtual(ts_ns(ts))); return 0; }
int usleep(useconds_t us) { if (!ACTIVE) { struct timespec t{long(us / 1000000), long(us % 1000000) * 1000}; raw6(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); return 0; } point(); Rt r; block(nullptr, "sleep", rel_to_virtual(us * 1000ull)); return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!sched::active() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE)) { long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  g().now += 50; uint64_t n = g().now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g().real_base : 0); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0;
}
int gettimeofday(struct timeval *tv, void *) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && ACTIVE) {
    int op = int(b) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(); Rt r; auto *addr = reinterpret_cast<std::atomic<int> *>(a);
      if (addr->load() != int(c)) { errno = EAGAIN; return -1; }
      uint64_t dl = kInf; auto *ts = reinterpret_cast<const struct timespec *>(d);
      if (ts) dl = op == FUTEX_WAIT ? rel_to_virtual(ts_ns(ts)) : abs_to_virtual((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      if (g().spur && rnd(8) == 0) { ++g().spurious; errno = EINTR; return -1; }
      if (!block(addr, "futex", dl)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { point(); long k; { Rt r; size_t w = waiters(reinterpret_cast<void *>(a)); k = std::min<long>(long(w), int(c)); wake(reinterpret_cast<void *>(a), size_t(int(c))); } point(); return k; }
  }
  if (n == SYS_sched_yield) return sched_yield();
  if (n == SYS_clock_gettime) return clock_gettime(clockid_t(a), reinterpret_cast<struct timespec *>(b));
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = int(-r); return -1; }
  return r;
}
int sem_wait(sem_t *s) { if (!ACTIVE) { REAL(sem_wait); return real_fn(s); } point(); for (;;) { if (sem_trywait(s) == 0) return 0; Rt r; block(s, "sem", kInf); } }
int sem_timedwait(sem_t *s, const struct timespec *ts) { if (!ACTIVE) { REAL(sem_timedwait); return real_fn(s, ts); } point(); for (;;) { if (sem_trywait(s) == 0) return 0; Rt r; if (!block(s, "sem", abs_to_virtual(CLOCK_REALTIME, ts))) { errno = ETIMEDOUT; return -1; } } }
int sem_clockwait(sem_t *s, clockid_t c, const struct timespec *ts) { if (!ACTIVE) { REAL(sem_clockwait); return real_fn(s, c, ts); } point(); for (;;) { if (sem_trywait(s) == 0) return 0; Rt r; if (!block(s, "sem", abs_to_virtual(c, ts))) { errno = ETIMEDOUT; return -1; } } }
int sem_post(sem_t *s) { REAL(sem_post); int e = real_fn(s); if (ACTIVE) { { Rt r; wake(s, 1); } point(); } return e; }

// --- sockets ----------------------------------------------------------------
static uint64_t io_deadline(int timeout_ms) { return timeout_ms < 0 ? kInf : rel_to_virtual(uint64_t(timeout_ms) * 1000000ull); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) noexcept {
  REAL(epoll_ctl); if (!ACTIVE) return real_fn(ep, op, fd, ev);
  point(); if (op == EPOLL_CTL_ADD && sched::watch_denied) { errno = ENOSPC; return -1; }
  return real_fn(ep, op, fd, ev);
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
  REAL(epoll_wait); if (!ACTIVE) return real_fn(ep, ev, n, timeout);
  point(); Rt r; uint64_t dl = io_deadline(timeout);
  for (;;) { int k = real_fn(ep, ev, n, 0); if (k != 0 || timeout == 0) return k; if (g().now >= dl) return 0; if (g().io_faults && rnd(60) == 0) { errno = EINTR; return -1; } block(nullptr, "epoll", dl, IOWAIT); }
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int timeout, const sigset_t *) { return epoll_wait(ep, ev, n, timeout); }
int poll(struct pollfd *p, nfds_t n, int timeout) {
  if (!ACTIVE) { long r = raw6(SYS_poll, (long)p, n, timeout, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  point(); Rt r; uint64_t dl = io_deadline(timeout);
  for (;;) { int k = raw6(SYS_poll, (long)p, n, 0, 0, 0, 0); if (k < 0) { errno = -k; return -1; } if (k != 0 || timeout == 0) return k; if (g().now >= dl) return 0; block(nullptr, "poll", dl, IOWAIT); }
}
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *tv) {
  REAL(select); if (!ACTIVE) return real_fn(n, a, b, c, tv);
  point(); Rt r; uint64_t dl = tv ? rel_to_virtual(tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull) : kInf; fd_set sa, sb, sc; if (a) sa = *a; if (b) sb = *b; if (c) sc = *c;
  struct Left { struct timeval *tv; uint64_t dl; ~Left() { if (!tv) return; uint64_t n = g().now, l = dl > n ? dl - n : 0; tv->tv_sec = l / 1000000000ull; tv->tv_usec = l % 1000000000ull / 1000; } } left{tv, dl};  // as Linux does
  for (;;) { struct timeval z{0, 0}; if (a) *a = sa; if (b) *b = sb; if (c) *c = sc; int k = real_fn(n, a, b, c, &z); if (k != 0) return k; if (g().now >= dl) return 0; if (g().io_faults && rnd(60) == 0) { errno = EINTR; return -1; } block(nullptr, "select", dl, IOWAIT); }
}
static bool blocking_fd(int fd) { int fl = raw6(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0); return fl >= 0 && !(fl & O_NONBLOCK); }
static void wait_fd(int fd, short ev) { for (;;) { struct pollfd p{fd, ev, 0}; if (raw6(SYS_poll, (long)&p, 1, 0, 0, 0, 0) != 0) return; block(nullptr, "socket", kInf, IOWAIT); } }
ssize_t send(int fd, const void *b, size_t n, int fl) {
  if (!ACTIVE) { long r = raw6(SYS_sendto, fd, (long)b, n, fl, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  point(); ssize_t k; { Rt r; if (blocking_fd(fd)) wait_fd(fd, POLLOUT);
    if (fd >= 0 && fd < 1024 && choked[fd]) { errno = EAGAIN; return -1; }
    if (g().io_faults && n > 1) { uint64_t q = rnd(8); if (q == 0) { errno = EAGAIN; return -1; } if (q < 4) n = 1 + rnd(n); }
    long v = raw6(SYS_sendto, fd, (long)b, n, fl, 0, 0); io_event(); if (v < 0) { errno = -v; k = -1; } else k = v; }
  point(); return k;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  if (!ACTIVE) { long r = raw6(SYS_recvfrom, fd, (long)b, n, fl, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  point(); ssize_t k; { Rt r; if (blocking_fd(fd) && !(fl & MSG_DONTWAIT)) wait_fd(fd, POLLIN);
    if (g().io_faults && n > 1 && rnd(3) == 0) n = 1 + rnd(n);
    long v = raw6(SYS_recvfrom, fd, (long)b, n, fl, 0, 0); io_event(); if (v < 0) { errno = -v; k = -1; } else k = v; }
  point(); return k;
}
// Internet stream sockets become abstract Unix sockets named after the process
// and the port: same calls, but nothing happens behind the scheduler's back.
static uint16_t next_port = 20000;
static std::map<uint16_t, std::string> &names() { static auto *m = new std::map<uint16_t, std::string>; return *m; }
static bool is_unix(int fd) { int d = 0; socklen_t l = sizeof d; return raw6(SYS_getsockopt, fd, SOL_SOCKET, SO_DOMAIN, (long)&d, (long)&l, 0) == 0 && d == AF_UNIX; }
static socklen_t unix_name(struct sockaddr_un *u, const std::string &n) { memset(u, 0, sizeof *u); u->sun_family = AF_UNIX; memcpy(u->sun_path + 1, n.data(), n.size()); return socklen_t(offsetof(struct sockaddr_un, sun_path) + 1 + n.size()); }
static bool inet_of(const struct sockaddr *a, socklen_t l, int *fam, uint32_t *ip, uint16_t *port) {
  if (a && a->sa_family == AF_INET && l >= sizeof(struct sockaddr_in)) { auto *s = reinterpret_cast<const struct sockaddr_in *>(a); *fam = 4; *ip = ntohl(s->sin_addr.s_addr); *port = ntohs(s->sin_port); return true; }
  if (a && a->sa_family == AF_INET6 && l >= sizeof(struct sockaddr_in6)) { auto *s = reinterpret_cast<const struct sockaddr_in6 *>(a); *fam = 6; *ip = 1; *port = ntohs(s->sin6_port); return true; }
  return false;
}
static std::string name_for(int fam, uint32_t ip, uint16_t port) { char b[64]; snprintf(b, sizeof b, "vsched-%d-%d-%08x-%u", int(getpid()), fam, ip, unsigned(port)); return b; }
static int bind_port(int fd, int fam, uint32_t ip, uint16_t port) {
  bool any = port == 0;
  for (int i = 0; i < 20000; ++i) {
    if (any) port = next_port++;
    if (names().count(port)) { struct sockaddr_un p; socklen_t pl = unix_name(&p, names()[port]); int t = raw6(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, 0, 0, 0); long e = raw6(SYS_bind, t, (long)&p, pl, 0, 0, 0); raw6(SYS_close, t, 0, 0, 0, 0, 0); if (e < 0) { if (any) continue; errno = EADDRINUSE; return -1; } }
    std::string n = name_for(fam, ip, port); struct sockaddr_un u; socklen_t ul = unix_name(&u, n); long e = raw6(SYS_bind, fd, (long)&u, ul, 0, 0, 0);
    if (e == 0) { names()[port] = n; return 0; }
    if (e != -EADDRINUSE || !any) { errno = int(-e); return -1; }
  }
  errno = EADDRINUSE; return -1;
}
static void to_inet(const struct sockaddr_un *u, socklen_t ul, struct sockaddr *a, socklen_t *l) {
  int pid = 0, fam = 4; unsigned ip = 0x7f000001, port = 0; if (ul > offsetof(struct sockaddr_un, sun_path) + 1) { char b[120]; size_t n = std::min<size_t>(sizeof b - 1, ul - offsetof(struct sockaddr_un, sun_path) - 1); memcpy(b, u->sun_path + 1, n); b[n] = 0; sscanf(b, "vsched-%d-%d-%x-%u", &pid, &fam, &ip, &port); }
  if (fam == 6) { struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(uint16_t(port)); s.sin6_addr = in6addr_loopback; memcpy(a, &s, std::min<socklen_t>(*l, sizeof s)); *l = sizeof s; }
  else { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(uint16_t(port)); s.sin_addr.s_addr = htonl(ip); memcpy(a, &s, std::min<socklen_t>(*l, sizeof s)); *l = sizeof s; }
}
int socket(int d, int t, int p) {
  bool map = sched::active() && (d == AF_INET || d == AF_INET6) && (t & 0xf) == SOCK_STREAM; if (map) point();
  long k = raw6(SYS_socket, map ? AF_UNIX : d, t, map ? 0 : p, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } return int(k);
}
int bind(int fd, const struct sockaddr *a, socklen_t l) noexcept {
  int fam; uint32_t ip; uint16_t port;
  if (sched::active() && inet_of(a, l, &fam, &ip, &port) && is_unix(fd)) { Rt r; return bind_port(fd, fam, ip, port); }
  long k = raw6(SYS_bind, fd, (long)a, l, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } return 0;
}
int listen(int fd, int n) noexcept { if (sched::active()) n = 4096; long k = raw6(SYS_listen, fd, n, 0, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } return 0; }
static int name_call(long nr, int fd, struct sockaddr *a, socklen_t *l) {
  if (sched::active() && is_unix(fd)) { Rt r; struct sockaddr_un u; socklen_t ul = sizeof u; long k = raw6(nr, fd, (long)&u, (long)&ul, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } to_inet(&u, ul, a, l); return 0; }
  long k = raw6(nr, fd, (long)a, (long)l, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) noexcept { return name_call(SYS_getsockname, fd, a, l); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) noexcept { return name_call(SYS_getpeername, fd, a, l); }
int accept(int fd, struct sockaddr *a, socklen_t *l) {
  if (!ACTIVE) { long k = raw6(SYS_accept, fd, (long)a, (long)l, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } return int(k); }
  point(); long k; { Rt r; if (blocking_fd(fd)) wait_fd(fd, POLLIN); struct sockaddr_un u; socklen_t ul = sizeof u; k = raw6(SYS_accept, fd, (long)&u, (long)&ul, 0, 0, 0); if (k >= 0 && a && l) to_inet(&u, ul, a, l); io_event(); }
  point(); if (k < 0) { errno = int(-k); return -1; } return int(k);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!ACTIVE) { long k = raw6(SYS_connect, fd, (long)a, l, 0, 0, 0); if (k < 0) { errno = int(-k); return -1; } return 0; }
  point(); long k; { Rt r; int fam; uint32_t ip; uint16_t port;
    if (inet_of(a, l, &fam, &ip, &port) && is_unix(fd)) {
      struct sockaddr_un u; socklen_t ul = sizeof u; if (raw6(SYS_getsockname, fd, (long)&u, (long)&ul, 0, 0, 0) == 0 && ul <= offsetof(struct sockaddr_un, sun_path)) bind_port(fd, fam, 0x7f000001, 0);
      auto it = names().find(port); if (it == names().end()) k = -ECONNREFUSED; else { ul = unix_name(&u, it->second); k = raw6(SYS_connect, fd, (long)&u, ul, 0, 0, 0); }
    } else k = raw6(SYS_connect, fd, (long)a, l, 0, 0, 0);
    io_event(); }
  point(); if (k < 0) { errno = int(-k); return -1; } return 0;
}
int shutdown(int fd, int how) { REAL(shutdown); int k = real_fn(fd, how), e = errno; if (ACTIVE) { { Rt r; io_event(); } point(); } errno = e; return k; }
int close(int fd) { long k = raw6(SYS_close, fd, 0, 0, 0, 0, 0); if (ACTIVE) { { Rt r; io_event(); } point(); } if (k < 0) { errno = -k; return -1; } return 0; }
ssize_t read(int fd, void *b, size_t n) {
  if (ACTIVE && blocking_fd(fd)) { struct pollfd p{fd, POLLIN, 0}; Rt r; while (raw6(SYS_poll, (long)&p, 1, 0, 0, 0, 0) == 0) block(nullptr, "read", kInf, IOWAIT); }
  long v = raw6(SYS_read, fd, (long)b, n, 0, 0, 0); if (ACTIVE) { Rt r; io_event(); } if (v < 0) { errno = -v; return -1; } return v;
}
ssize_t write(int fd, const void *b, size_t n) { long v = raw6(SYS_write, fd, (long)b, n, 0, 0, 0); if (ACTIVE) { Rt r; io_event(); } if (v < 0) { errno = -v; return -1; } return v; }

void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept { const char *b = strrchr(f, '/'); pbt::fail("assertion of the library failed: %s (%s:%u)", e, b ? b + 1 : f, l); }
// --- instrumentation --------------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n(void *p) { access(p, "read"); } void __tsan_write##n(void *p) { access(p, "write"); } void __tsan_unaligned_read##n(void *p) { access(p, "read"); } void __tsan_unaligned_write##n(void *p) { access(p, "write"); } void __tsan_volatile_read##n(void *p) { access(p, "read"); } void __tsan_volatile_write##n(void *p) { access(p, "write"); } void __tsan_read##n##_pc(void *p, void *) { access(p, "read"); } void __tsan_write##n##_pc(void *p, void *) { access(p, "write"); } void __tsan_unaligned_volatile_read##n(void *p) { access(p, "read"); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void access_range(const void *p, unsigned long n, const char *k) { if (!n) return; access(p, k); access(static_cast<const char *>(p) + n - 1, k); }
void __tsan_read_range(void *p, unsigned long n) { access_range(p, n, "read"); }
void __tsan_write_range(void *p, unsigned long n) { access_range(p, n, "write"); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access_range(d, n, "write"); access_range(s, n, "read"); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access_range(d, n, "write"); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access_range(d, n, "write"); access_range(s, n, "read"); return memmove(d, s, n); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); point(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); atomic_point((const void *)a); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); atomic_point((const void *)a); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_point((const void *)a); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_point((const void *)a); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((const void *)a, "atomic access"); atomic_point((const void *)a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_point((const void *)a); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
void *operator new(size_t n) { if (void *p = sched::heap_alloc(n, 16)) return p; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (void *p = sched::heap_alloc(n, 16)) return p; return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void *operator new(size_t n, std::align_val_t al) { if (void *p = sched::heap_alloc(n, size_t(al))) return p; void *p = nullptr; if (posix_memalign(&p, std::max(sizeof(void *), size_t(al)), n ? n : 1)) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
static void release(void *p) noexcept { if (!p) return; if (sched::in_heap(p)) { sched::heap_free(p); return; } free(p); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete(void *p, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release(p); }
