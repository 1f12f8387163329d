// Timers under a controlled scheduler with a virtual clock: never early, once
// (or every period), on their executor, never after a cancellation.
#include "vsched.h"
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/engine/timer.h"
#include "plain/engine/timer_queue.h"
#include "plain/basic/utility.h"

using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;
using plain::Timer;
using plain::TimerQueue;

namespace {
enum Kind { kInline, kManual, kWorker, kPool, kThread };
const char *kNames[] = {"inline", "manual", "worker thread", "thread pool", "thread"};
enum What { kPeriodic, kOneShot, kDelay };
const char *kWhat[] = {"periodic timer", "one-shot timer", "delay"};
struct Rec {
  What what = kOneShot; int exec = 0; uint64_t created = 0; uint64_t due = 0, min_freq = 0, freq = 0; int runs = 0, running = 0;
  bool cancelled = false; int inflight = 0; int after = 0; bool refused = false; bool interrupted = false; bool made = false; int by = -1; std::vector<uint64_t> starts;
};
struct Exec { Kind kind; std::shared_ptr<ex::Basic> e; ex::Manual *manual = nullptr; int size = 1; bool down = false; bool going = false; std::map<int, int> threads; };
struct World {
  std::vector<Rec> r; std::vector<Exec> x; int alive = 0; std::shared_ptr<TimerQueue> q; bool qdown = false, qgoing = false; std::map<int, int> owner; std::map<int, bool> drivers; std::map<int, bool> timer_threads;
};
World *w;

void started(int id) {
  sched::Quiet q; Rec &r = w->r[id]; Exec &x = w->x[r.exec]; uint64_t now = sched::now_ns(); ++r.runs; r.starts.push_back(now); int me = sched::self_id();
  if (!r.made && r.what != kDelay && !r.created) pbt::fail("%s %d ran before it was made", kWhat[r.what], id);
  uint64_t earliest = r.created + (r.due + (r.runs - 1) * (r.what == kPeriodic ? r.min_freq : 0)) * 1000000ull;
  if (now < earliest) pbt::fail("%s %d (due %llu ms, every %llu ms): run %d started %.3f ms early", kWhat[r.what], id, (unsigned long long)r.due, (unsigned long long)r.freq, r.runs, (earliest - now) / 1e6);
  if (r.what != kPeriodic && r.runs > 1) pbt::fail("%s %d ran %d times", kWhat[r.what], id, r.runs);
  if (r.cancelled) { ++r.after; if (r.after > x.size || (r.by == me && (x.kind == kManual || x.kind == kWorker))) pbt::fail("%s %d started after it was cancelled (%s executor)", kWhat[r.what], id, kNames[x.kind]); }
  if (x.kind == kWorker || x.kind == kPool || x.kind == kThread) {
    auto it = w->owner.find(me); if (it != w->owner.end() && it->second != r.exec) pbt::fail("one thread ran timers of two executors"); w->owner[me] = r.exec;
    if (w->drivers.count(me)) pbt::fail("%s %d ran on a thread of its user", kWhat[r.what], id);
    if (w->timer_threads.count(me)) pbt::fail("%s %d of the %s executor ran on the timer thread", kWhat[r.what], id, kNames[x.kind]);
  }
  if (x.kind == kManual && !w->drivers.count(me)) pbt::fail("%s %d of the manual executor ran on a thread that does not drive it", kWhat[r.what], id);
}
struct Body {
  int id; int sleep_us; std::shared_ptr<Timer> holds; std::shared_ptr<Timer> self; bool live = true; int child = -1; std::shared_ptr<std::vector<Timer>> kids;
  Body(int i, int s) : id(i), sleep_us(s) { sched::Quiet q; ++w->alive; }
  Body(const Body &b) : id(b.id), sleep_us(b.sleep_us), holds(b.holds), self(b.self), child(b.child), kids(b.kids) { sched::Quiet q; ++w->alive; }
  Body(Body &&b) noexcept : id(b.id), sleep_us(b.sleep_us), holds(std::move(b.holds)), self(std::move(b.self)), child(b.child), kids(std::move(b.kids)) { sched::Quiet q; ++w->alive; }
  ~Body() { sched::Quiet q; if (!live) pbt::fail("callable of timer %d destroyed twice", id); live = false; --w->alive; }
  void operator()();
};
result::null delay_user(std::shared_ptr<TimerQueue> q, int id, Body b, bool again) {
  bool ok = true;
  try {
    auto l = q->make_delay_object(ms(w->r[id].due), w->x[w->r[id].exec].e);
    co_await l;
  } catch (const std::runtime_error &) { sched::Quiet qq; ok = false; w->r[id].interrupted = true; if (!w->qgoing && !w->x[w->r[id].exec].going) pbt::fail("delay %d was interrupted although its queue and executor are up", id); }
  if (ok) started(id);
  // A continuation that uses the queue: refused once it is shut down.
  if (again) { try { Timer t = q->make_one_shot_timer(ms(1), w->x[0].e, [] {}); } catch (const std::runtime_error &) { if (!w->qgoing && !w->x[0].going) pbt::fail("queue refused a timer although it is up"); } }
}
void make_child(int id);
void Body::operator()() {
  if (!live) pbt::fail("timer %d runs after its callable was destroyed", id);
  started(id);
  if (child >= 0) { int c = child; child = -1; make_child(c); }
  if (sleep_us) std::this_thread::sleep_for(std::chrono::microseconds(sleep_us)); else sched::point();
}
std::vector<Timer> *g_children; std::mutex *g_children_lock;
void make_child(int id) {
  Rec &r = w->r[id]; { sched::Quiet q; r.created = sched::now_ns(); }
  try { Timer t = w->q->make_one_shot_timer(ms(r.due), w->x[r.exec].e, Body(id, 0)); { sched::Quiet q; r.made = true; } std::lock_guard<std::mutex> l(*g_children_lock); g_children->push_back(std::move(t)); }
  catch (const std::runtime_error &) { sched::Quiet q; r.refused = true; if (!w->qgoing) pbt::fail("queue refused a timer although it is up"); }
}
void make_exec(pbt::Src &src) {
  Exec x; x.kind = Kind(src.pick({1, 2, 3, 3, 1}));
  switch (x.kind) {
    case kInline: x.e = std::make_shared<ex::Inline>(); break;
    case kManual: { auto m = std::make_shared<ex::Manual>(); x.manual = m.get(); x.e = m; x.size = 3; break; }
    case kWorker: x.e = std::make_shared<ex::WorkerThread>(); break;
    case kPool: x.size = 1 + src.below(3); x.e = std::make_shared<ex::ThreadPool>("t", x.size, ms(1 + src.below(60))); break;
    case kThread: x.e = std::make_shared<ex::Thread>(); x.size = 99; break;
  }
  w->x.push_back(x);
}
struct Op { int kind, id, slot, val; int sleep_us; bool holds, self; int child; };
}  // namespace

PROPERTY(timers, pbt::Options{.weight = 6, .batch = 1, .hang_s = 60}) {
  World world; w = &world; world.r.reserve(256); sched::start(src); std::vector<Timer> children; std::mutex cl; g_children = &children; g_children_lock = &cl;
  size_t nx = 1 + src.below(2); for (size_t i = 0; i < nx; ++i) make_exec(src);
  int idle = 1 + int(src.below(30));
  world.q = std::make_shared<TimerQueue>(ms(idle), [](std::string_view) { sched::Quiet q; w->timer_threads[sched::self_id()] = true; });
  CHECK(world.q->max_worker_idle_time() == ms(idle));
  size_t nc = 1 + src.below(2); std::vector<std::vector<Op>> progs(nc);
  int cut_exec = src.chance(1, 5) ? int(src.below(nx)) : -1; bool cut_queue = src.chance(1, 4); int cut_us = int(src.below(25000));
  for (auto &p : progs) {
    size_t slots = 0;
    for (pbt::Src::Loop l(src, 8); l.more();) {
      Op o{}; o.kind = int(src.pick({4, 4, 2, 3, 3, 2, 2, 1, 1})); o.slot = int(src.below(4)); o.val = int(src.range(0, 12)); o.child = -1;
      if (o.kind <= 2) {
        Rec r; r.what = What(o.kind); r.exec = int(src.below(nx)); r.due = uint64_t(src.pick({2, 4, 1}) == 0 ? 0 : src.range(0, 20)); r.freq = r.min_freq = 1 + uint64_t(src.range(0, 9));
        o.id = int(world.r.size()); world.r.push_back(r); o.sleep_us = src.chance(1, 4) ? int(src.below(4000)) : 0; o.holds = src.chance(1, 6);
        if (o.kind == 1 && src.chance(1, 5)) { Rec c; c.what = kOneShot; c.exec = int(src.below(nx)); c.due = uint64_t(src.range(0, 8)); o.child = int(world.r.size()); world.r.push_back(c); }
        src.note("%s %d: due %llu ms, every %llu ms, executor %s", kWhat[r.what], o.id, (unsigned long long)r.due, (unsigned long long)r.freq, kNames[world.x[r.exec].kind]);
      }
      p.push_back(o);
    }
  }
  std::vector<std::vector<std::pair<Timer, int>>> slots(nc);
  for (auto &s : slots) s.resize(4); for (auto &s : slots) for (auto &t : s) t.second = -1;
  auto cancelled = [&](int id) { if (id >= 0) { sched::Quiet q; Rec &r = world.r[id]; if (!r.cancelled) { r.cancelled = true; r.by = sched::self_id(); } } };
  auto client = [&](size_t ci) {
    { sched::Quiet q; world.drivers[sched::self_id()] = true; }
    auto &sl = slots[ci];
    for (auto &o : progs[ci]) {
      auto &slot = sl[o.slot]; Timer &t = slot.first;
      switch (o.kind) {
        case 0: case 1: {
          Rec &r = world.r[o.id]; Body b(o.id, o.sleep_us); b.child = o.child; if (o.holds) { b.holds = std::make_shared<Timer>(std::move(t)); if (t) pbt::fail("a moved-from timer is not empty"); slot.second = -1; }
          try {
            bool was_down; { sched::Quiet q; r.created = sched::now_ns(); was_down = world.qdown; }
            Timer n = o.kind == 0 ? world.q->make_timer(ms(r.due), ms(r.freq), world.x[r.exec].e, std::move(b)) : world.q->make_one_shot_timer(ms(r.due), world.x[r.exec].e, std::move(b));
            { sched::Quiet q; r.made = true; if (was_down) pbt::fail("a timer was accepted after the shutdown of its queue"); }
            if (!n || n.get_due_time() != ms(r.due) || n.get_executor() != world.x[r.exec].e || n.get_timer_queue().lock() != world.q || n.get_frequency() != ms(o.kind == 0 ? r.freq : 0)) pbt::fail("timer %d does not report what it was made with", o.id);
            t = std::move(n); if (n) pbt::fail("a moved-from timer is not empty"); cancelled(slot.second); slot.second = o.id;
          } catch (const std::runtime_error &) { sched::Quiet q; r.refused = true; if (!world.qgoing) pbt::fail("the queue refused a timer although it is up"); }
          break; }
        case 2: { Rec &r = world.r[o.id]; { sched::Quiet q; r.created = sched::now_ns(); r.made = true; } delay_user(world.q, o.id, Body(o.id, 0), o.val & 1); break; }
        case 3: std::this_thread::sleep_for(std::chrono::microseconds(o.val * 1700)); break;
        case 4: t.cancel(); if (t) pbt::fail("a cancelled timer is not empty"); cancelled(slot.second); slot.second = -1; break;
        case 5: if (t) { Rec &r = world.r[slot.second]; uint64_t f = 1 + uint64_t(o.val); { sched::Quiet q; r.min_freq = std::min(r.min_freq, f); r.freq = f; } t.set_frequency(ms(f)); if (t.get_frequency() != ms(f)) pbt::fail("set_frequency had no effect"); } else { bool th = false; try { t.set_frequency(ms(1)); } catch (const std::runtime_error &) { th = true; } if (!th) pbt::fail("an empty timer accepts a frequency"); th = false; try { t.get_due_time(); } catch (const std::runtime_error &) { th = true; } if (!th) pbt::fail("an empty timer has a due time"); } break;
        case 6: { auto &s2 = sl[(o.slot + 1) % 4]; s2.first = std::move(t); cancelled(s2.second); s2.second = slot.second; slot.second = -1; if (t) pbt::fail("a moved-from timer is not empty"); break; }
        case 7: for (auto &x : world.x) if (x.manual) { try { x.manual->loop_for(2, ms(o.val)); } catch (const std::runtime_error &) { if (!x.going) pbt::fail("manual executor refused to loop"); } } break;
        case 8: { bool th = false; try { world.q->make_one_shot_timer(ms(1), std::shared_ptr<ex::Basic>(), [] {}); } catch (const std::invalid_argument &) { th = true; } if (!th) pbt::fail("a timer without executor was accepted"); break; }
      }
    }
  };
  std::thread cutter; if (cut_exec >= 0 || cut_queue) cutter = std::thread([&] {
    std::this_thread::sleep_for(std::chrono::microseconds(cut_us));
    if (cut_exec >= 0) { { sched::Quiet q; world.x[cut_exec].going = true; } world.x[cut_exec].e->shutdown(); world.x[cut_exec].down = true; }
    if (cut_queue) { { sched::Quiet q; world.qgoing = true; } world.q->shutdown(); sched::Quiet q; world.qdown = true; }
  });
  { sched::Quiet q; world.drivers[sched::self_id()] = true; }
  std::vector<std::thread> ts; for (size_t i = 1; i < nc; ++i) ts.emplace_back(client, i);
  client(0);
  for (auto &t : ts) t.join(); if (cutter.joinable()) cutter.join();
  if (cut_queue && !world.q->shutdown_requested()) pbt::fail("shutdown_requested() is false after shutdown");
  sched::calm();
  auto drain = [&] { for (auto &x : world.x) if (x.manual && !x.down) x.manual->loop(50); };
  auto pass = [&](int n) { for (int i = 0; i < n; ++i) { sched::settle(); drain(); sched::settle(); sched::sleep_ns(1000000); } };
  pass(60);
  // Periodic timers go on, at their pace.
  std::map<size_t, int> before; std::map<size_t, uint64_t> t0; bool any = false;
  for (auto &s : slots) for (auto &t : s) if (t.second >= 0 && t.first && world.r[t.second].what == kPeriodic) { before[t.second] = world.r[t.second].runs; any = true; }
  if (any && !cut_queue && cut_exec < 0) {
    size_t sleepers = 0; for (auto &p : progs) for (auto &o : p) if (o.kind <= 1 && o.sleep_us) ++sleepers;
    uint64_t tb = sched::now_ns(); pass(60); double el = (sched::now_ns() - tb) / 1e6;
    for (auto &b : before) { Rec &r = world.r[b.first]; int got = r.runs - b.second; if (!sleepers && got > el / r.freq + 3) pbt::fail("periodic timer %zu (every %llu ms) ran %d times in %.1f ms", b.first, (unsigned long long)r.freq, got, el); if (!sleepers && got + 3 < el / (r.freq + 1)) pbt::fail("periodic timer %zu (every %llu ms) ran only %d times in %.1f ms", b.first, (unsigned long long)r.freq, got, el); }
  }
  // Without the periodic ones an overloaded executor catches up.
  for (auto &sl : slots) for (auto &t : sl) if (t.second >= 0 && world.r[t.second].what == kPeriodic) { if (src.flip()) t.first.cancel(); else t.first = Timer(); cancelled(t.second); t.second = -1; }
  pass(40);
  // What has to have run by now.
  for (size_t i = 0; i < world.r.size(); ++i) {
    Rec &r = world.r[i]; if (!r.made || r.refused) continue; bool up = !cut_queue && !world.x[r.exec].going;
    if (r.what == kOneShot && up && !r.cancelled && !r.runs) { bool held = false; for (auto &p : progs) for (auto &o : p) if (o.holds) held = true; bool child = false; if (!held && !child) pbt::fail("one-shot timer %zu (due %llu ms) never ran", i, (unsigned long long)r.due); }
    if (r.what == kDelay && up && r.runs != 1) pbt::fail("delay %zu never ended", i);
    if (r.what == kDelay && !r.runs && !r.interrupted && (cut_queue || (!up && world.x[r.exec].kind != kInline))) pbt::fail("delay %zu neither ended nor was interrupted", i);
  }
  // Cancel everything: nothing starts any more once all is quiet.
  for (auto &s : slots) for (auto &t : s) { if (src.flip()) t.first.cancel(); else t.first = Timer(); cancelled(t.second); }
  { std::lock_guard<std::mutex> l(cl); for (auto &t : children) t.cancel(); }
  sched::settle(); drain(); sched::settle();
  std::vector<int> at; for (auto &r : world.r) at.push_back(r.runs);
  pass(20);
  for (size_t i = 0; i < world.r.size(); ++i) if (world.r[i].cancelled && world.r[i].runs != at[i]) pbt::fail("%s %zu ran after it was cancelled", kWhat[world.r[i].what], i);
  int order = int(src.below(3)); { sched::Quiet q; world.qgoing = true; for (auto &x : world.x) x.going = true; }
  if (order == 0) { for (auto &x : world.x) x.e->shutdown(); world.q->shutdown(); } else { world.q->shutdown(); if (order == 2) world.q->shutdown(); for (auto &x : world.x) x.e->shutdown(); }
  bool th = false; try { Timer t = world.q->make_timer(ms(1), ms(1), world.x[0].e, [] {}); } catch (const std::runtime_error &) { th = true; } if (!th) pbt::fail("a timer was accepted after the shutdown of its queue");
  sched::settle(); uint64_t live = sched::live_threads(); if (live != 1) pbt::fail("%llu threads are alive after the shutdown of queue and executors", (unsigned long long)(live - 1));
  { std::lock_guard<std::mutex> l(cl); children.clear(); } slots.clear(); world.q.reset(); for (auto &x : world.x) x.e.reset();
  if (world.alive != 0) pbt::fail("%d timer callables are still alive after queue, timers and executors are gone", world.alive);
  int runs = 0; for (auto &r : world.r) runs += r.runs; if (runs >= 2 && sched::stats().switches > 4) src.nontrivial(); src.steps(sched::stats().points);
  src.note("%zu timers, %d runs, %llu switches", world.r.size(), runs, (unsigned long long)sched::stats().switches); src.label(kNames[world.x[0].kind]); if (cut_queue) src.label("queue shut down"); if (cut_exec >= 0) src.label("executor shut down");
}

// Times that no clock can count to: such a timer waits, and disturbs nobody.
PROPERTY(far_timers, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  sched::start(src); static const int64_t kFar[] = {INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MAX / 1000000 + 1, INT64_MAX / 1000000, 9223372036854, 9400000000000, 1000LL * 3600 * 24 * 365 * 300, 1000LL * 3600 * 24 * 365 * 50, INT64_MAX / 1000};
  auto far = [&] { return ms(kFar[src.below(10)]); }; auto q = std::make_shared<TimerQueue>(src.flip() ? far() : ms(5)); auto e = std::make_shared<ex::WorkerThread>();
  struct T { bool due_far, freq_far, oneshot; int64_t due, freq; int runs = 0; }; std::vector<std::unique_ptr<T>> all; std::vector<Timer> ts; size_t n = src.range(1, 5);
  for (size_t i = 0; i < n; ++i) {
    auto t = std::make_unique<T>(); t->due_far = src.flip(); t->freq_far = src.flip(); t->oneshot = src.chance(1, 3); t->due = t->due_far ? far().count() : int64_t(src.below(4)); t->freq = t->freq_far ? far().count() : int64_t(src.range(1, 4)); T *p = t.get(); auto body = [p] { sched::Quiet qq; ++p->runs; };
    src.note("%s due %lld ms, every %lld ms", t->oneshot ? "one-shot" : "periodic", (long long)t->due, (long long)t->freq);
    ts.push_back(t->oneshot ? q->make_one_shot_timer(ms(t->due), e, body) : q->make_timer(ms(t->due), ms(t->freq), e, body)); CHECK(ts.back().get_due_time() == ms(t->due)); if (!t->oneshot) { CHECK(ts.back().get_frequency() == ms(t->freq)); if (!t->due_far && src.chance(1, 3)) { t->freq_far = true; t->freq = far().count(); ts.back().set_frequency(ms(t->freq)); } } all.push_back(std::move(t));
  }
  sched::calm(); uint64_t t0 = sched::now_ns(); for (int i = 0; i < 30; ++i) { sched::settle(); sched::sleep_ns(1000000); } double el = double(sched::now_ns() - t0) / 1e6;
  for (auto &t : all) {
    if (t->due_far) { if (t->runs) pbt::fail("a timer due in %lld ms ran %d times within %.1f ms", (long long)t->due, t->runs, el); }
    else if (t->oneshot) { if (t->runs != 1) pbt::fail("a one-shot timer ran %d times", t->runs); }
    else if (t->freq_far) { if (t->runs < 1 || t->runs > 40) pbt::fail("a timer set to every %lld ms ran %d times within %.1f ms", (long long)t->freq, t->runs, el); }
    else if (t->runs < int(el / (double(t->freq) + 1)) - 4) pbt::fail("a timer of every %lld ms ran only %d times within %.1f ms", (long long)t->freq, t->runs, el);
  }
  for (auto &t : all) if (!t->oneshot && !t->due_far && t->freq_far) { int before = t->runs; for (int i = 0; i < 10; ++i) { sched::settle(); sched::sleep_ns(1000000); } if (t->runs != before) pbt::fail("a timer set to every %lld ms goes on", (long long)t->freq); }
  ts.clear(); q->shutdown(); e->shutdown(); sched::settle(); CHECK(sched::live_threads() == 1); src.nontrivial(); src.steps(sched::stats().points);
}

// A sleep lasts as long as asked; what has no executor is refused.
PROPERTY(sleeps, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60, .max_cases = 1500}) {
  sched::start(src); sched::calm(); static const uint32_t kLong[] = {0, 1, 999, 1000, 60000, 2147484, 4294967, 4294968, 7200000, 86400000, 2147483647u, 4294967295u};
  { auto q = std::make_shared<TimerQueue>(ms(1 + src.below(40))); std::shared_ptr<ex::Basic> none; int bad = 0; auto refused = [&](auto f) { try { f(); } catch (const std::invalid_argument &) { return; } ++bad; };
    refused([&] { (void)q->make_timer(ms(1), ms(1), none, [] {}); }); refused([&] { (void)q->make_one_shot_timer(ms(1), none, [] {}); }); refused([&] { (void)q->make_delay_object(ms(1), none); }); CHECK_MSG(!bad, "%d timers without executor were made", bad); }
  size_t n = 1 + src.below(3);
  for (size_t i = 0; i < n; ++i) { uint32_t want = src.flip() ? kLong[src.below(12)] : uint32_t(src.bits(32)); uint64_t t0 = sched::now_ns(); plain::sleep(want); double took = double(sched::now_ns() - t0) / 1e6; src.note("sleep of %u ms took %.3f ms", want, took); CHECK_MSG(took >= want && took <= want + 50.0, "a sleep of %u ms took %.3f ms", want, took); }
  src.nontrivial();
}

// Hundreds of timers at once: each on time, the cancelled ones silent.
PROPERTY(many_timers, pbt::Options{.weight = 1, .batch = 1, .hang_s = 150, .max_cases = 60}) {
  size_t n = 100 + src.below(400), spread = 1 + src.below(60); uint32_t salt = uint32_t(src.bits(32)); int kind = int(src.below(3)); auto mix = [&](size_t i) { uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ull + salt; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return size_t(x >> 33); };
  src.note("%zu timers due within %zu ms", n, spread); auto l = sched::Limits{}; l.max_points = 40000000; sched::start(src, l);
  {
    auto q = std::make_shared<TimerQueue>(ms(1 + src.below(40))); std::shared_ptr<ex::Basic> e; if (kind == 0) e = std::make_shared<ex::Inline>(); else if (kind == 1) e = std::make_shared<ex::WorkerThread>(); else e = std::make_shared<ex::ThreadPool>("t", 3, ms(20));
    struct T { int runs = 0, late = 0; bool cancelled = false, periodic = false; uint64_t made = 0, due = 0; }; static std::vector<T> *t; t = new std::vector<T>(n); std::vector<Timer> timers(n); size_t cancels = 0;
    for (size_t i = 0; i < n; ++i) {
      T &x = (*t)[i]; x.due = mix(i) % spread; x.periodic = mix(i + 7 * n) % 5 == 0; { sched::Quiet qq; x.made = sched::now_ns(); }
      auto body = [i] { sched::Quiet qq; T &y = (*t)[i]; if (y.cancelled && ++y.late > 1) pbt::fail("timer %zu ran on after it was cancelled", i); if (sched::now_ns() < y.made + (y.due + (y.periodic ? uint64_t(y.runs) * 40 : 0)) * 1000000ull) pbt::fail("timer %zu ran early", i); if (++y.runs > 1 && !y.periodic) pbt::fail("timer %zu ran %d times", i, y.runs); };
      timers[i] = x.periodic ? q->make_timer(ms(x.due), ms(40), e, body) : q->make_one_shot_timer(ms(x.due), e, body);
    }
    sched::calm();
    for (size_t i = 0; i < n; ++i) if (mix(i + 3 * n) % 3 == 0) { timers[i].cancel(); sched::Quiet qq; T &x = (*t)[i]; x.cancelled = true; ++cancels; }
    sched::sleep_ns((spread + 130) * 1000000ull);
    for (size_t i = 0; i < n; ++i) { T &x = (*t)[i]; int most = int((sched::now_ns() - x.made) / 1000000 - x.due) / 40 + 1; if (!x.cancelled && (x.periodic ? x.runs < 3 || x.runs > most : x.runs != 1)) pbt::fail("timer %zu of %zu (due %llu ms%s) ran %d times", i, n, (unsigned long long)x.due, x.periodic ? ", every 40 ms" : "", x.runs); }
    std::vector<int> had; for (auto &x : *t) had.push_back(x.runs); timers.clear(); for (size_t i = 0; i < 3; ++i) sched::sleep_ns(50000000); { sched::Quiet qq; for (size_t i = 0; i < n; ++i) if ((*t)[i].runs > had[i] + 1) pbt::fail("timer %zu ran on after its end", i); }
    q->shutdown(); e->shutdown(); if (cancels) src.nontrivial(); src.steps(n);
  }
  CHECK(sched::live_threads() == 1);
}
