// Executors under a controlled scheduler: every accepted task runs exactly once
// on the executor it was given to (C12); shutdown is a clean cut (C13).
#include "vsched.h"
#include <atomic>
#include <map>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"

using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;

void submit_kid(int e, int id, int parent);
void submit_kids(const std::vector<std::pair<int, int>> &kids, size_t from, size_t to, int parent);
namespace {
enum Kind { kInline, kManual, kWorker, kPool, kThread };
const char *kNames[] = {"inline", "manual", "worker thread", "thread pool", "thread"};

struct Rec {
  int runs = 0; int where = -1; int thread = -1; uint64_t order = 0; bool submitted_ok = false; bool rejected = false; bool accepted = false;
  int exec = 0; int producer = 0; int seq = 0; bool throws = false; int parent = -1; bool bulk = false; bool finished = false;
};
struct World;
struct Exec {
  Kind kind; std::shared_ptr<ex::Basic> e; ex::Manual *manual = nullptr; ex::ThreadPool *pool = nullptr; int size = 0; int running = 0; bool down = false; int worker = -1; bool has_worker = false; uint64_t started_after = 0; int loopers = 1;
};
thread_local int on_exec = -1;   // executor this thread belongs to, told by what ran on it
struct World {
  std::vector<Rec> r; std::vector<Exec> x; uint64_t clock = 0; int alive = 0; int task_sleep_ms = 0; bool destroyed = false;
};
World *w;

// The callable of a task. Counts its own copies so that leaks and double
// destruction are seen.
struct Body {
  int id; std::vector<std::pair<int, int>> kids; /* executor, id */ int sleep_us; bool live = true; std::string pad; ex::Basic *farewell = nullptr; /* dropped: says so to its executor */
  Body(int i, std::vector<std::pair<int, int>> k, int s, size_t padn) : id(i), kids(std::move(k)), sleep_us(s), pad(padn, 'p') { sched::Quiet q; ++w->alive; }
  Body(const Body &b) : id(b.id), kids(b.kids), sleep_us(b.sleep_us), pad(b.pad), farewell(b.farewell) { sched::Quiet q; ++w->alive; }
  Body(Body &&b) noexcept : id(b.id), kids(std::move(b.kids)), sleep_us(b.sleep_us), pad(std::move(b.pad)), farewell(std::exchange(b.farewell, nullptr)) { sched::Quiet q; ++w->alive; }
  ~Body() { if (farewell) { try { farewell->shutdown_requested(); farewell->post([] {}); } catch (const std::runtime_error &) {} } sched::Quiet q; if (!live) pbt::fail("callable of task %d destroyed twice", id); live = false; --w->alive; }
  void run() {
    farewell = nullptr;
    { sched::Quiet q;
    if (!live) pbt::fail("task %d runs after its callable was destroyed", id);
    Rec &r = w->r[id]; Exec &x = w->x[r.exec];
    if (++r.runs > 1) pbt::fail("task %d ran %d times on the %s executor", id, r.runs, kNames[x.kind]);
    r.thread = sched::self_id(); r.order = ++w->clock; ++x.running;
    if (x.down && x.kind != kInline) { ++x.started_after; if (x.kind != kManual || int(x.started_after) > x.loopers) pbt::fail("task %d started after shutdown of the %s executor had returned", id, kNames[x.kind]); }
    if (x.kind == kPool && x.running > x.size) pbt::fail("%d tasks at once on a pool of %d", x.running, x.size);
    if (x.kind == kWorker && x.running > 1) pbt::fail("%d tasks at once on a worker thread executor", x.running);
    if (x.kind == kWorker) { if (x.has_worker && x.worker != r.thread) pbt::fail("worker thread executor ran tasks on two threads"); x.worker = r.thread; x.has_worker = true; }
    }
    // Some after each other, some in bulk.
    for (size_t i = 0; i < kids.size();) { size_t n = i + 1; while (((size_t(id) + i) & 1) && n < kids.size() && kids[n].first == kids[i].first) ++n; if (n == i + 1) submit_kid(kids[i].first, kids[i].second, id); else submit_kids(kids, i, n, id); i = n; }
    if (sleep_us) std::this_thread::sleep_for(std::chrono::microseconds(sleep_us)); else sched::point();
    bool t; { sched::Quiet q; --w->x[w->r[id].exec].running; w->r[id].finished = true; t = w->r[id].throws; }
    if (t) throw std::logic_error("task " + std::to_string(id));
  }
};
struct BodyVal { Body b; int operator()() { int id = b.id; b.run(); return id * 7 + 1; } };
struct BodyVoid { Body b; void operator()() { b.run(); } };

struct Plan { int exec, id; int how; /* 0 post 1 submit */ std::vector<std::pair<int, int>> kids; int sleep_us = 0; size_t pad = 0; bool farewell = false; };
bool g_farewells = false;
std::map<int, Plan> plans;

void submit_kid_impl(int e, int id, int parent) {
  Rec &r = w->r[id]; r.parent = parent;
  Plan &p = plans[id];
  try { w->x[e].e->post(BodyVoid{Body(id, p.kids, p.sleep_us, p.pad)}); w->r[id].submitted_ok = true; }
  catch (const std::runtime_error &) { w->r[id].rejected = true; }
}
}  // namespace
void submit_kid(int e, int id, int parent) { submit_kid_impl(e, id, parent); }
void submit_kids(const std::vector<std::pair<int, int>> &kids, size_t from, size_t to, int parent) {
  std::vector<BodyVoid> v; for (size_t i = from; i < to; ++i) { int id = kids[i].second; w->r[id].parent = parent; w->r[id].bulk = true; Plan &p = plans[id]; v.push_back(BodyVoid{Body(id, p.kids, p.sleep_us, p.pad)}); }
  try { w->x[kids[from].first].e->bulk_post<BodyVoid>(std::span<BodyVoid>(v)); for (size_t i = from; i < to; ++i) w->r[kids[i].second].submitted_ok = true; }
  catch (const std::runtime_error &) { for (size_t i = from; i < to; ++i) w->r[kids[i].second].rejected = true; }
}

namespace {
void make_exec(pbt::Src &src, Kind k) {
  Exec x; x.kind = k;
  switch (k) {
    case kInline: x.e = std::make_shared<ex::Inline>(); break;
    case kManual: { auto m = std::make_shared<ex::Manual>(); x.manual = m.get(); x.e = m; break; }
    case kWorker: x.e = std::make_shared<ex::WorkerThread>(); break;
    case kThread: x.e = std::make_shared<ex::Thread>(); break;
    case kPool: { x.size = 1 + src.below(4); auto idle = std::chrono::milliseconds(src.of(std::vector<int>{1000, 100, 5, 1, 0})); auto m = std::make_shared<ex::ThreadPool>("pool", x.size, idle); x.pool = m.get(); x.e = m; src.note("pool of %d, idle time %d ms", x.size, int(idle.count())); break; }
  }
  w->x.push_back(x);
}
struct Op { int kind; /* 0 post 1 submit 2 bulk post 3 bulk submit 4 sleep */ std::vector<int> ids; int exec; int sleep_us = 0; };

int new_task(pbt::Src &src, int exec, int producer, int depth) {
  int id = w->r.size(); w->r.emplace_back(); Rec &r = w->r[id]; r.exec = exec; r.producer = producer; r.seq = id; r.throws = src.chance(1, 6);
  Plan p; p.exec = exec; p.id = id; p.sleep_us = src.chance(1, 4) ? int(src.below(4000)) : 0; p.pad = src.chance(1, 3) ? 40 : 0;
  size_t kids = depth < 2 && src.chance(1, 4) ? 1 + src.below(4) : 0;
  for (size_t i = 0; i < kids; ++i) { int e = src.chance(1, 3) ? int(src.below(w->x.size())) : exec; int k = new_task(src, e, 1000 + id, depth + 1); p.kids.push_back({e, k}); }
  p.farewell = g_farewells && src.chance(1, 4); plans[id] = p; return id;
}
struct Prod { std::vector<Op> ops; std::vector<std::pair<int, Result<int>>> res; };

void run_ops(Prod &p) {
  for (auto &op : p.ops) {
    if (op.kind == 4) { std::this_thread::sleep_for(std::chrono::microseconds(op.sleep_us)); continue; }
    Exec &x = w->x[op.exec];
    auto mk = [&](int id) { Plan &q = plans[id]; Body b(id, q.kids, q.sleep_us, q.pad); if (q.farewell) b.farewell = x.e.get(); return b; };
    try {
      if (op.kind == 0) { x.e->post(BodyVoid{mk(op.ids[0])}); for (int id : op.ids) w->r[id].submitted_ok = true; }
      else if (op.kind == 1) { Result<int> r = x.e->submit(BodyVal{mk(op.ids[0])}); p.res.emplace_back(op.ids[0], std::move(r)); w->r[op.ids[0]].submitted_ok = true; }
      else if (op.kind == 2) { std::vector<BodyVoid> v; for (int id : op.ids) v.push_back(BodyVoid{mk(id)}); x.e->bulk_post<BodyVoid>(std::span<BodyVoid>(v)); for (int id : op.ids) w->r[id].submitted_ok = true; }
      else { std::vector<BodyVal> v; for (int id : op.ids) v.push_back(BodyVal{mk(id)}); auto rs = x.e->bulk_submit<BodyVal>(std::span<BodyVal>(v)); for (size_t i = 0; i < rs.size(); ++i) { p.res.emplace_back(op.ids[i], std::move(rs[i])); w->r[op.ids[i]].submitted_ok = true; } }
      bool up = !x.e->shutdown_requested(); for (int id : op.ids) w->r[id].accepted = up;
      if (x.kind == kInline && !x.e->shutdown_requested()) for (int id : op.ids) { if (w->r[id].runs != 1 || w->r[id].thread != sched::self_id()) pbt::fail("inline executor did not run task %d before returning, on the caller's thread", id); }
    } catch (const std::runtime_error &e) { for (int id : op.ids) w->r[id].rejected = true; }
  }
}
void drain_manual(bool until_down) {
  (void)until_down;
  for (auto &x : w->x) if (x.manual) { try { while (x.manual->loop(4)) {} } catch (const std::runtime_error &) {} }
}
std::vector<Prod> gen(pbt::Src &src, size_t nexec, bool same_kind_ok) {
  for (size_t i = 0; i < nexec; ++i) make_exec(src, Kind(std::vector<int>{kInline, kManual, kWorker, kPool, kPool, kThread}[src.below(6)]));
  size_t np = 1 + src.below(3); std::vector<Prod> ps(np);
  for (size_t i = 0; i < np; ++i) {
    size_t n = 1 + src.below(5);
    for (size_t k = 0; k < n; ++k) {
      Op o; o.kind = src.pick({4, 3, 2, 2, 2}); o.exec = src.below(w->x.size());
      if (o.kind == 4) o.sleep_us = src.of(std::vector<int>{100, 1000, 5000, 100000});
      else { size_t m = o.kind >= 2 ? 1 + src.below(6) : 1; for (size_t j = 0; j < m; ++j) { int id = new_task(src, o.exec, i, 0); w->r[id].bulk = o.kind >= 2; o.ids.push_back(id); } }
      static const char *names[] = {"post", "submit", "bulk post", "bulk submit", "sleep"}; std::string ids; for (int id : o.ids) { ids += " " + std::to_string(id) + (w->r[id].throws ? "(throws)" : ""); for (auto &k : plans[id].kids) ids += "+" + std::to_string(k.second) + "@" + std::to_string(k.first); }
      if (src.rec_.size() < 60) src.note("producer %zu: %s to %s:%s", i, names[o.kind], kNames[w->x[o.exec].kind], ids.c_str());
      ps[i].ops.push_back(std::move(o));
    }
  }
  return ps;
}
void check_result(int id, Result<int> &r, bool may_break) {
  Rec &t = w->r[id];
  try { int v = r.get(); if (t.throws) pbt::fail("task %d threw but its result holds a value", id); if (v != id * 7 + 1) pbt::fail("task %d: result %d", id, v); if (t.runs != 1) pbt::fail("task %d has a value but ran %d times", id, t.runs); }
  catch (const std::logic_error &e) { if (!t.throws || std::string(e.what()) != "task " + std::to_string(id)) pbt::fail("task %d: result holds a foreign exception: %s", id, e.what()); }
  catch (const std::runtime_error &e) { if (!may_break || t.runs != 0) pbt::fail("task %d (ran %d times): result is broken: %s", id, t.runs, e.what()); }
}
}  // namespace

#ifdef CHECK_RUN
PROPERTY(every_task_once, pbt::Options{.weight = 5, .batch = 1, .hang_s = 60}) {
  World world; w = &world; world.r.reserve(4096); plans.clear();
  sched::start(src);
  auto ps = gen(src, 1 + src.below(2), true);
  std::vector<std::thread> ts; bool inline_main = ps.size() == 1 && src.flip();
  if (inline_main) run_ops(ps[0]); else for (auto &p : ps) ts.emplace_back([&p] { run_ops(p); });
  // A looper thread for manual executors, or loop from here afterwards.
  for (auto &t : ts) t.join();
  sched::calm();
  size_t total = world.r.size(); std::vector<char> reach;
  for (int i = 0; i < 400; ++i) {
    drain_manual(false); sched::settle(); bool all = true; for (auto &r : world.r) if (r.submitted_ok && !r.finished) all = false; bool man = false; for (auto &x : world.x) if (x.manual && x.manual->size()) man = true; if (all && !man && i > 1) break; sched::sleep_ns(1000000ull * (i < 50 ? 1 : 50));
  }
  for (size_t i = 0; i < total; ++i) { Rec &r = world.r[i]; if (r.rejected) pbt::fail("task %zu was refused although the %s executor is running", i, kNames[world.x[r.exec].kind]); if (r.submitted_ok && r.runs != 1) pbt::fail("task %zu was accepted by the %s executor and never ran", i, kNames[world.x[r.exec].kind]); if (!r.submitted_ok && (r.parent == -1)) { if (r.producer < 1000) pbt::fail("task %zu not submitted", i); } }
  // Order: tasks of one producer on a FIFO executor start in the order given.
  for (size_t e = 0; e < world.x.size(); ++e) {
    Kind k = world.x[e].kind; if (k != kWorker && k != kManual && k != kInline) continue;
    std::map<int, uint64_t> last; 
    for (auto &[parent, plan] : plans) { uint64_t before = 0; for (auto &c : plan.kids) if (c.first == int(e)) { uint64_t o = world.r[c.second].order; if (o < before) pbt::fail("task %d overtook an earlier one of the task %d giving both to the %s executor", c.second, parent, kNames[k]); before = o; } }
    for (auto &p : ps) for (auto &op : p.ops) for (int id : op.ids) { Rec &r = world.r[id]; if (r.exec != int(e)) continue; if (last.count(r.producer) && r.order < last[r.producer]) pbt::fail("task %d overtook an earlier one of the same producer on the %s executor", id, kNames[k]); last[r.producer] = r.order; }
  }
  // Threads: a task runs on the executor it was given to.
  std::map<int, int> owner;
  for (size_t i = 0; i < total; ++i) { Rec &r = world.r[i]; if (!r.runs) continue; Kind k = world.x[r.exec].kind; if (k == kPool || k == kWorker || k == kThread) { auto it = owner.find(r.thread); if (it != owner.end() && it->second != r.exec) pbt::fail("one thread ran tasks of two executors (task %zu)", i); owner[r.thread] = r.exec; } }
  for (size_t i = 0; i < total; ++i) { Rec &r = world.r[i]; if (r.runs && world.x[r.exec].kind == kManual && r.thread != sched::self_id()) pbt::fail("manual executor ran task %zu on a thread that does not drive it", i); }
  for (auto &p : ps) for (auto &pr : p.res) check_result(pr.first, pr.second, false);
  for (auto &p : ps) p.res.clear();
  for (auto &x : world.x) x.e->shutdown();
  for (auto &x : world.x) x.e.reset();
  if (world.alive != 0) pbt::fail("%d callables are still alive after all executors are gone", world.alive);
  if (total >= 3 && sched::stats().switches > 4) src.nontrivial();
  src.steps(sched::stats().points);
  src.note("%zu tasks, %zu producers, first executor %s, %llu thread switches", total, ps.size(), kNames[world.x[0].kind], (unsigned long long)sched::stats().switches);
  src.label(kNames[world.x[0].kind]);
}

// Many tasks, wide pools: counters and sets beyond a byte, a word or 16 bits.
PROPERTY(flood, pbt::Options{.weight = 1, .batch = 1, .hang_s = 150, .max_cases = 40}) {
  Kind k = Kind(std::vector<int>{kPool, kPool, kWorker, kManual, kThread}[src.below(5)]); bool huge = k != kThread && src.chance(1, 8); size_t n = huge ? 65500 + src.below(200) : k == kThread ? 100 + src.below(200) : 200 + src.below(400), np = 1 + src.below(3); int width = int(src.chance(1, 2) ? src.range(1, 8) : src.range(60, 140)); bool bulk = src.flip();
  src.note("%zu tasks from %zu threads%s to the %s executor (%d threads)", n, np, bulk ? ", in bulk" : "", kNames[k], k == kPool ? width : 1);
  auto l = sched::Limits{}; l.max_points = 80000000; sched::start(src, l); if (huge) sched::calm();
  {
    std::shared_ptr<ex::Basic> e; ex::Manual *m = nullptr;
    switch (k) { case kPool: e = std::make_shared<ex::ThreadPool>("pool", width, std::chrono::milliseconds(1 + src.below(50))); break; case kWorker: e = std::make_shared<ex::WorkerThread>(); break; case kManual: { auto p = std::make_shared<ex::Manual>(); m = p.get(); e = p; break; } default: e = std::make_shared<ex::Thread>(); }
    std::vector<uint8_t> ran(n, 0); std::vector<size_t> last(np, 0); size_t done = 0; bool fifo = k == kWorker || k == kManual;
    auto body = [&](size_t i) { return [&, i] { sched::Quiet q; if (ran[i]++) pbt::fail("task %zu of %zu ran twice", i, n); ++done; size_t p = i % np; if (fifo && i < last[p]) pbt::fail("task %zu ran after %zu of the same thread", i, last[p]); last[p] = i; }; };
    std::vector<std::thread> ts;
    for (size_t p = 0; p < np; ++p) ts.emplace_back([&, p] {
      if (!bulk) { for (size_t i = p; i < n; i += np) e->post(body(i)); return; }
      for (size_t i = p; i < n;) { std::vector<std::function<void()>> v; for (size_t c = 1 + (i * 7 + p) % 300; c && i < n; --c, i += np) v.emplace_back(body(i)); e->bulk_post<std::function<void()>>(std::span<std::function<void()>>(v)); }
    });
    for (auto &t : ts) t.join(); sched::calm();
    if (m) { size_t c = 0; CHECK_MSG(m->size() == n, "%zu of %zu tasks wait", size_t(m->size()), n); while (size_t g = m->loop(1 + c % 500)) c += g; CHECK_MSG(c == n, "%zu of %zu tasks were run", c, n); }
    for (int i = 0; i < 4000; ++i) { { sched::Quiet q; if (done == n) break; } sched::sleep_ns(1000000); }
    for (size_t i = 0; i < n; ++i) CHECK_MSG(ran[i] == 1, "task %zu of %zu never ran", i, n);
    if (src.flip()) { for (size_t i = 0; i < 3; ++i) { bool r = false; sched::sleep_ns(200000000); e->post([&r] { sched::Quiet q; r = true; }); if (m) m->loop(5); for (int c = 0; c < 2000 && !r; ++c) sched::sleep_ns(1000000); CHECK_MSG(r, "a task after a rest never ran"); } }
    e->shutdown();
  }
  CHECK(sched::live_threads() == 1); src.nontrivial(); src.steps(sched::stats().points);
}

// Tasks that keep posting themselves do not keep a worker thread from the
// tasks of other threads.
namespace { struct Again { std::shared_ptr<ex::WorkerThread> e; std::atomic<bool> *stop; int *rounds; void operator()() { if (stop->load(std::memory_order_relaxed)) return; { sched::Quiet q; if (++*rounds > 20000) pbt::fail("a task of another thread never ran on a worker thread while its own tasks posted themselves 20000 times"); } e->post(Again{e, stop, rounds}); } }; }
PROPERTY(worker_reposting, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  sched::start(src); size_t selfs = 1 + src.below(3), foreign = 1 + src.below(4); bool bulk = src.flip(); std::atomic<bool> stop{false}; int rounds = 0; std::vector<int> ran(foreign, 0); size_t done = 0;
  src.note("%zu self-posting tasks, %zu tasks of another thread%s", selfs, foreign, bulk ? " in bulk" : "");
  {
    auto e = std::make_shared<ex::WorkerThread>(); for (size_t i = 0; i < selfs; ++i) e->post(Again{e, &stop, &rounds});
    auto body = [&](size_t i) { return [&, i] { sched::Quiet q; if (++ran[i] > 1) pbt::fail("a task ran twice"); if (++done == foreign) stop.store(true, std::memory_order_relaxed); }; };
    std::thread t([&] { if (bulk) { std::vector<std::function<void()>> v; for (size_t i = 0; i < foreign; ++i) v.push_back(body(i)); e->bulk_post<std::function<void()>>(std::span<std::function<void()>>(v)); } else for (size_t i = 0; i < foreign; ++i) e->post(body(i)); });
    t.join(); sched::calm(); for (int i = 0; i < 2000 && done < foreign; ++i) sched::sleep_ns(1000000);
    CHECK_MSG(done == foreign, "%zu of %zu tasks ran", done, foreign); e->shutdown();
  }
  src.nontrivial(); src.steps(sched::stats().points);
}

// The threads of an executor announce their start and their end, and an
// executor at rest takes up a new task at once, whatever its idle time.
PROPERTY(at_rest, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  struct Seen { int starts = 0, ends = 0, ran = 0; std::string name; }; std::map<int, Seen> seen; int open = 0, most = 0;
  Kind k = Kind(std::vector<int>{kPool, kPool, kWorker, kThread}[src.below(4)]); int width = 1 + int(src.below(4)), idle = src.of(std::vector<int>{1, 20, 300, 5000, 100000}); size_t np = 1 + src.below(3); bool quiet_cb = src.chance(1, 5);
  sched::start(src); src.note("%s executor, %d threads, idle time %d ms, %zu producers", kNames[k], k == kPool ? width : 1, idle, np);
  auto on = [&](std::string_view n) { sched::Quiet q; Seen &t = seen[sched::self_id()]; if (++t.starts > 1) pbt::fail("a thread announced its start twice"); t.name = n; if (t.name.empty()) pbt::fail("a thread announced its start without a name"); most = std::max(most, ++open); };
  auto off = [&](std::string_view n) { sched::Quiet q; Seen &t = seen[sched::self_id()]; if (++t.ends > 1 || !t.starts) pbt::fail("a thread announced its end out of turn"); if (t.name != n) pbt::fail("a thread announced its start as %s and its end as %s", t.name.c_str(), std::string(n).c_str()); --open; };
  size_t given = 0, ran = 0;
  {
    std::function<void(std::string_view)> f_on = on, f_off = off; if (quiet_cb) f_on = f_off = {};
    std::shared_ptr<ex::Basic> e; auto id = std::chrono::milliseconds(idle);
    if (k == kPool) e = std::make_shared<ex::ThreadPool>("pool", width, id, f_on, f_off); else if (k == kWorker) e = std::make_shared<ex::WorkerThread>(f_on, f_off); else e = std::make_shared<ex::Thread>(f_on, f_off);
    auto body = [&](int us) { return [&, us] { { sched::Quiet q; ++ran; Seen &t = seen[sched::self_id()]; ++t.ran; if (!quiet_cb && t.starts != 1) pbt::fail("a task runs on a thread that did not announce its start"); if (t.ends) pbt::fail("a task runs on a thread that announced its end"); } if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); }; };
    struct Step { int n, us, gap; bool bulk; }; std::vector<std::vector<Step>> ps(np);
    for (auto &p : ps) for (pbt::Src::Loop l(src, 4); l.more();) { Step s{1 + int(src.below(5)), src.chance(1, 3) ? int(src.below(3000)) : 0, src.of(std::vector<int>{0, 0, 300, 5000, 80000}), src.flip()}; p.push_back(s); given += s.n; }
    auto give = [&](const Step &s) { if (s.bulk) { std::vector<std::function<void()>> v(size_t(s.n), body(s.us)); e->bulk_post<std::function<void()>>(std::span<std::function<void()>>(v)); } else for (int i = 0; i < s.n; ++i) e->post(body(s.us)); };
    std::vector<std::thread> ts; for (auto &p : ps) ts.emplace_back([&] { for (auto &s : p) { if (s.gap) std::this_thread::sleep_for(std::chrono::microseconds(s.gap)); give(s); } });
    for (auto &t : ts) t.join(); sched::calm();
    size_t probes = 1 + src.below(3);
    for (size_t i = 0; i < probes; ++i) {
      int rest = src.of(std::vector<int>{0, 2, 150, 700, 6000}); sched::sleep_ns(uint64_t(rest) * 1000000 + 1); sched::settle();
      Step s{1 + int(src.below(4)), 0, 0, src.flip()}; given += s.n; uint64_t t0 = sched::now_ns(); give(s);
      for (int c = 0; c < 500; ++c) { { sched::Quiet q; if (ran == given) break; } sched::sleep_ns(1000000); }
      if (ran != given) pbt::fail("%zu of %zu tasks have not run %llu ms after the last was given to the %s executor after a rest of %d ms", given - ran, given, (unsigned long long)((sched::now_ns() - t0) / 1000000), kNames[k], rest);
    }
    e->shutdown(); CHECK_MSG(open == 0, "%d threads of the %s executor never announced their end", open, kNames[k]);
  }
  size_t starts = 0, ends = 0; for (auto &t : seen) { starts += t.second.starts; ends += t.second.ends; }
  CHECK_MSG(starts == ends, "%zu threads announced their start, %zu their end", starts, ends); CHECK(sched::live_threads() == 1);
  if (k == kWorker) CHECK_MSG(quiet_cb || starts == 1, "a worker thread executor had %zu threads", starts);
  if (k == kPool) CHECK_MSG(most <= 2 * width, "%d threads at once in a pool of %d", most, width);
  if (given > 2) src.nontrivial(); src.steps(sched::stats().points);
}

// The manual executor's waiting calls against concurrent producers.
PROPERTY(manual_waits, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  World world; w = &world; world.r.reserve(256); plans.clear(); sched::start(src);
  make_exec(src, kManual); ex::Manual *m = world.x[0].manual;
  size_t n = 1 + src.below(6); std::vector<int> gaps; for (size_t i = 0; i < n; ++i) { new_task(src, 0, 0, 9); gaps.push_back(int(src.below(3000))); }
  int op = src.below(8); size_t want = 1 + src.below(n); int ms = int(src.below(6));
  std::thread t([&] { for (size_t i = 0; i < n; ++i) { if (gaps[i] > 1500) std::this_thread::sleep_for(std::chrono::microseconds(gaps[i])); m->post(BodyVoid{Body(int(i), {}, 0, 0)}); } });
  uint64_t t0 = sched::now_ns();
  if (op == 0) { m->wait_for_task(); CHECK(m->size() >= 1); }
  else if (op == 1) { m->wait_for_tasks(want); CHECK(m->size() >= want); }
  else if (op == 2) { size_t k = m->wait_for_tasks_for(want, std::chrono::milliseconds(ms)); if (k < want) CHECK_MSG(sched::now_ns() - t0 >= uint64_t(ms) * 1000000, "gave up waiting after %llu ns of %d ms", (unsigned long long)(sched::now_ns() - t0), ms); }
  else if (op == 3) { size_t k = m->loop_for(want, std::chrono::milliseconds(ms)); size_t ran = 0; for (auto &r : world.r) ran += r.runs; CHECK_MSG(ran == k && k <= want, "loop_for reports %zu, ran %zu, limit %zu", k, ran, want); if (k < want && ms) CHECK(sched::now_ns() - t0 >= uint64_t(ms) * 1000000); }
  else if (op == 4) { size_t k = m->loop(want); size_t ran = 0; for (auto &r : world.r) ran += r.runs; CHECK(ran == k && k <= want); }
  else {  // until a time of some clock, near, past or at its ends, or for times no clock can count
    int call = int(src.below(4)), when = int(src.below(7)); bool endless = when >= 3; auto d = std::chrono::microseconds(src.below(6000)); size_t k = 0, most = call < 2 ? 1 : want; bool waits = call == 0 || call == 2;
    auto until = [&](auto t) { switch (call) { case 0: k = m->wait_for_task_until(t) ? 1 : 0; break; case 1: k = m->loop_once_until(t) ? 1 : 0; break; case 2: k = m->wait_for_tasks_until(want, t); break; default: k = m->loop_until(want, t); } };
    auto length = [&](std::chrono::milliseconds t) { switch (call) { case 0: k = m->wait_for_task_for(t) ? 1 : 0; break; case 1: k = m->loop_once_for(t) ? 1 : 0; break; case 2: k = m->wait_for_tasks_for(want, t); break; default: k = m->loop_for(want, t); } };
    using std::chrono::steady_clock; using std::chrono::system_clock; src.note("call %d, until %d", call, when);
    switch (when) { case 0: until(steady_clock::now() + d); break; case 1: sched::keep_date(); until(system_clock::now() + d); break; case 2: d = d.zero(); if (src.flip()) until(steady_clock::time_point::min()); else { sched::keep_date(); until(system_clock::now() - std::chrono::seconds(1)); } break; case 3: until(steady_clock::time_point::max()); break; case 4: until(system_clock::time_point::max()); break; case 5: length(std::chrono::milliseconds::max()); break; default: length(std::chrono::milliseconds(INT64_MAX / 1000000 + src.below(3) - 1)); }
    size_t ran = 0; for (auto &r : world.r) ran += r.runs; CHECK_MSG(waits ? !ran && (call || m->size() || !k) : ran == k && k <= most, "a call reports %zu tasks, %zu ran", k, ran);
    if (endless) CHECK_MSG(k >= most, "a call without end of time ended with %zu of %zu tasks", k, most); else if (k < most) CHECK_MSG(sched::now_ns() - t0 + 1000000 >= uint64_t(d.count()) * 1000, "gave up %llu ns after a limit of %lld us was set", (unsigned long long)(sched::now_ns() - t0), (long long)d.count());
    if (when == 2) CHECK_MSG(waits || !ran, "%zu tasks ran until a time long past", ran);
  }
  t.join(); size_t left = m->size(), ran0 = 0; for (auto &r : world.r) ran0 += r.runs; CHECK_MSG(left + ran0 == n, "%zu queued + %zu run of %zu", left, ran0, n);
  if (src.flip()) { size_t c = m->clear(); CHECK_MSG(c == left && m->empty(), "clear() removed %zu of %zu", c, left); }
  else { size_t k = m->loop(100); CHECK(k == left); uint64_t last = 0; for (auto &r : world.r) { CHECK(r.runs == 1); CHECK(r.order > last); last = r.order; } }
  CHECK(world.alive == 0); m->shutdown(); if (n > 1) src.nontrivial(); src.steps(sched::stats().points);
}
#endif

// Several threads wait on and drive one manual executor at the same time; a
// shutdown releases those that still wait.
PROPERTY(manual_shared, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  World world; w = &world; world.r.reserve(256); plans.clear(); sched::start(src);
  make_exec(src, kManual); ex::Manual *m = world.x[0].manual;
  struct Step { int op; size_t want; int ms; };
  struct Driver { std::vector<Step> steps; int waiting = 0; bool refused = false; size_t counted = 0; };
  size_t nd = 1 + src.below(3), np = 1 + src.below(2), n = 0;
  std::vector<Driver> ds(nd);
  for (auto &d : ds) for (pbt::Src::Loop l(src, 4); l.more();) d.steps.push_back({int(src.below(8)), 1 + src.below(4), int(src.below(4))});
  struct Post { int first, count, gap; }; std::vector<std::vector<Post>> ps(np);
  for (auto &p : ps) for (pbt::Src::Loop l(src, 4); l.more();) { int c = src.chance(1, 3) ? 2 + int(src.below(2)) : 1; p.push_back({int(n), c, int(src.below(3000))}); for (int k = 0; k < c; ++k) new_task(src, 0, 0, 9); n += c; }
  bool cut = src.chance(1, 3); int cut_us = int(src.below(4000));
  std::vector<std::thread> dt, pt; size_t refused_tasks = 0; bool cutting = false;
  for (auto &d : ds) dt.emplace_back([&d, m, &cutting] {
    try {
      for (auto &s : d.steps) {
        { sched::Quiet q; d.waiting = s.op == 0 ? 1 : s.op == 1 ? int(s.want) : 0; }
        uint64_t t0 = sched::now_ns(); size_t k = 0; bool one;
        auto ms = std::chrono::milliseconds(s.ms);
        switch (s.op) {
          case 0: m->wait_for_task(); break;
          case 1: m->wait_for_tasks(s.want); break;
          case 2: k = m->wait_for_tasks_for(s.want, ms); if (k < s.want && sched::now_ns() - t0 < uint64_t(s.ms) * 1000000) pbt::fail("wait_for_tasks_for gave up early"); k = 0; break;
          case 3: one = m->wait_for_task_for(ms); break;
          case 4: k = m->loop_for(s.want, ms); break;
          case 5: k = m->loop_once() ? 1 : 0; break;
          case 6: k = m->loop_once_for(ms) ? 1 : 0; break;
          default: k = m->loop(s.want); break;
        }
        sched::Quiet q; d.waiting = 0; d.counted += k; if (k > s.want) pbt::fail("a loop call ran %zu tasks, limit %zu", k, s.want);
      }
    } catch (const std::runtime_error &) { sched::Quiet q; d.waiting = 0; d.refused = true; if (!cutting) pbt::fail("a waiting or loop call was refused before the shutdown"); }
  });
  for (auto &p : ps) pt.emplace_back([&p, m, &refused_tasks, &cutting] {
    for (auto &o : p) {
      if (o.gap > 1500) std::this_thread::sleep_for(std::chrono::microseconds(o.gap));
      try {
        if (o.count == 1) m->post(BodyVoid{Body(o.first, {}, 0, 0)});
        else { std::vector<BodyVoid> v; for (int k = 0; k < o.count; ++k) v.push_back(BodyVoid{Body(o.first + k, {}, 0, 0)}); m->template bulk_post<BodyVoid>(std::span<BodyVoid>(v)); }
      } catch (const std::runtime_error &) { sched::Quiet q; refused_tasks += o.count; if (!cutting) pbt::fail("a task was refused before the shutdown"); }
    }
  });
  bool down = false;
  auto shut = [&] { { sched::Quiet q; cutting = true; } m->shutdown(); down = true; };
  if (cut) { if (cut_us > 1000) std::this_thread::sleep_for(std::chrono::microseconds(cut_us)); shut(); }
  for (auto &t : pt) t.join();
  sched::calm(); sched::settle(); sched::sleep_ns(60000000ull); sched::settle();
  if (!down) {
    size_t have = m->size();
    for (auto &d : ds) if (d.waiting && have >= size_t(d.waiting)) pbt::fail("a thread still waits for %d tasks of the manual executor although it holds %zu", d.waiting, have);
    size_t ran = 0, counted = 0; for (auto &r : world.r) ran += r.runs; for (auto &d : ds) counted += d.counted;
    CHECK_MSG(ran == counted && ran + have == n, "%zu tasks given, %zu ran, %zu reported by the loop calls, %zu queued", n, ran, counted, have);
    shut();
  }
  for (auto &t : dt) t.join();
  for (auto &r : world.r) CHECK(r.runs <= 1);
  CHECK(world.alive == 0 && m->size() == 0);
  if (n > 1 && nd > 1) src.nontrivial(); src.steps(sched::stats().points); src.note("%zu drivers, %zu tasks, %s", nd, n, cut ? "shutdown in between" : "shutdown at the end");
}

#ifdef CHECK_SHUTDOWN
// Tasks that keep giving their executor more work do not keep it from ending.
namespace { struct Onward { ex::Basic *e; int how; int *rounds; int most; void operator()() { { sched::Quiet q; if (++*rounds > most) return; } if (how == 0) e->post(Onward(*this)); else if (how == 1) { std::vector<Onward> v(2, *this); v[1].how = 3; e->bulk_post<Onward>(std::span<Onward>(v)); } else if (how == 2) { try { e->post(Onward(*this)); e->post(Onward{e, 3, rounds, most}); } catch (const std::runtime_error &) {} } } }; }
PROPERTY(shutdown_busy, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  Kind k = Kind(std::vector<int>{kPool, kPool, kWorker, kManual, kThread}[src.below(5)]); int width = 1 + int(src.below(3)), idle = src.of(std::vector<int>{1, 50, 100000}); size_t n = 1 + src.below(4); int late = src.of(std::vector<int>{0, 200, 3000}), rounds = 0; bool after = src.flip();
  auto l = sched::Limits{}; l.max_points = 3000000; sched::start(src, l); src.note("%zu self-posting tasks on the %s executor", n, kNames[k]);
  {
    std::shared_ptr<ex::Basic> e; ex::Manual *m = nullptr;
    switch (k) { case kPool: e = std::make_shared<ex::ThreadPool>("pool", width, std::chrono::milliseconds(idle)); break; case kWorker: e = std::make_shared<ex::WorkerThread>(); break; case kManual: { auto p = std::make_shared<ex::Manual>(); m = p.get(); e = p; break; } default: e = std::make_shared<ex::Thread>(); }
    std::thread lt; if (m) lt = std::thread([m] { try { for (;;) { m->wait_for_task(); m->loop(1000); } } catch (const std::runtime_error &) {} });
    for (size_t i = 0; i < n; ++i) e->post(Onward{e.get(), int(src.below(3)), &rounds, k == kThread ? 100 : 100000000});
    if (late) std::this_thread::sleep_for(std::chrono::microseconds(late)); bool timed = src.flip(); if (timed) sched::calm();
    uint64_t t0 = sched::now_ns(); int r0 = rounds; e->shutdown(); uint64_t took = sched::now_ns() - t0; int r1 = rounds;
    if (timed && took > 600000000) pbt::fail("shutdown of the busy %s executor took %llu ms", kNames[k], (unsigned long long)(took / 1000000));
    (void)r0; if (lt.joinable()) lt.join(); else if (rounds != r1) pbt::fail("tasks run after the shutdown of the %s executor", kNames[k]);
    if (after) { bool th = false; try { e->post([] {}); } catch (const std::runtime_error &) { th = true; } CHECK(th); }
    if (m) { int th = 0; auto refuse = [&](auto f) { try { f(); } catch (const std::runtime_error &) { ++th; } }; auto w1 = std::chrono::milliseconds(3);
      refuse([&] { m->loop_once(); }); refuse([&] { m->loop(3); }); refuse([&] { m->loop_for(3, w1); }); refuse([&] { m->loop_once_for(w1); }); refuse([&] { m->wait_for_task(); }); refuse([&] { m->wait_for_tasks(2); }); refuse([&] { m->wait_for_task_for(w1); }); refuse([&] { m->wait_for_tasks_for(2, w1); }); refuse([&] { m->clear(); });
      CHECK_MSG(th == 9, "%d of 9 calls on a manual executor that is shut down were refused", th); CHECK(m->empty() && m->size() == 0); }
  }
  sched::calm(); sched::settle(); CHECK(sched::live_threads() == 1); src.nontrivial(); src.steps(sched::stats().points);
}

PROPERTY(shutdown_cut, pbt::Options{.weight = 5, .batch = 1, .hang_s = 60}) {
  World world; w = &world; world.r.reserve(4096); plans.clear(); sched::start(src);
  g_farewells = src.chance(1, 2); auto ps = gen(src, 1, true); g_farewells = false; Exec &x = world.x[0];
  int looper = x.manual && src.flip(); int early = src.below(4); int again = src.below(3); bool manual_loop_for = src.flip();
  std::vector<std::thread> ts; for (auto &p : ps) ts.emplace_back([&p] { run_ops(p); });
  std::thread lt; if (looper) lt = std::thread([&] { try { for (;;) { if (manual_loop_for) x.manual->loop_for(3, std::chrono::milliseconds(2)); else { x.manual->wait_for_task(); x.manual->loop(3); } } } catch (const std::runtime_error &) {} });
  if (early == 1) std::this_thread::sleep_for(std::chrono::microseconds(500)); if (early == 2) std::this_thread::sleep_for(std::chrono::milliseconds(3)); if (early == 3) for (auto &t : ts) t.join();
  if (x.manual && !looper && src.flip()) { try { x.manual->loop(2); } catch (const std::runtime_error &) {} }
  std::thread second; if (again == 2) second = std::thread([&] { x.e->shutdown(); });
  if (again != 2) {
    bool timed = src.chance(1, 3); if (timed) sched::calm();  // time passes only while nothing can run; a timed semaphore wait sleeps up to 64 ms at a time
    uint64_t t0 = sched::now_ns(), all_us = 0; for (auto &pl : plans) all_us += pl.second.sleep_us;
    x.e->shutdown(); x.down = true;
    uint64_t took = sched::now_ns() - t0; if (timed && took > all_us * 1000 + 450000000) pbt::fail("shutdown of the %s executor took %llu ms although its tasks sleep for %llu us altogether", kNames[x.kind], (unsigned long long)(took / 1000000), (unsigned long long)all_us);
    if (x.kind != kManual && x.kind != kInline && x.running != 0) pbt::fail("%d tasks still run after shutdown of the %s executor returned", x.running, kNames[x.kind]);
    if (!x.e->shutdown_requested()) pbt::fail("shutdown_requested() is false after shutdown");
    int id = world.r.size(); world.r.emplace_back(); world.r[id].exec = 0; bool thrown = false;
    try { x.e->post(BodyVoid{Body(id, {}, 0, 0)}); } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown || world.r[id].runs) pbt::fail("a task posted to the %s executor after shutdown was not refused", kNames[x.kind]);
    if (again == 1) x.e->shutdown();
  } else x.e->shutdown();
  for (auto &t : ts) if (t.joinable()) t.join(); if (lt.joinable()) lt.join(); if (second.joinable()) second.join();
  sched::calm(); sched::settle();
  if (again == 2) { x.down = true; }
  sched::sleep_ns(3000000000ull); sched::settle();
  for (auto &p : ps) for (auto &pr : p.res) check_result(pr.first, pr.second, !(x.kind == kThread && world.r[pr.first].accepted));
  for (size_t i = 0; i < world.r.size(); ++i) { Rec &r = world.r[i]; if (r.rejected && r.runs && !r.bulk) pbt::fail("task %zu was refused but ran", i); if (x.kind == kThread && r.accepted && r.runs != 1) pbt::fail("thread executor accepted task %zu and dropped it", i); }
  for (auto &p : ps) p.res.clear();
  uint64_t live = sched::live_threads(); if (live != 1) pbt::fail("%llu threads are still alive after shutdown of the %s executor", (unsigned long long)(live - 1), kNames[x.kind]);
  x.e.reset(); if (world.alive != 0) pbt::fail("%d callables are still alive after the %s executor is gone", world.alive, kNames[x.kind]);
  size_t dropped = 0; for (auto &r : world.r) if (r.accepted && !r.runs) ++dropped; if (dropped) src.label("tasks dropped"); if (world.r.size() >= 3 && sched::stats().switches > 4) src.nontrivial(); src.steps(sched::stats().points);
  src.note("%s executor, %zu tasks, %zu dropped", kNames[x.kind], world.r.size(), dropped); src.label(kNames[x.kind]);
}
#endif
