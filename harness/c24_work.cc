// Queues of functions with futures: the thread pool, the task queue, looping
// threads and bound calls.
#ifdef CHECK_SCHED
#include "vsched.h"
#else
#include "pbt.h"
#endif
#include <condition_variable>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "plain/basic/bind.h"
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/basic/task_queue.h"
#include "plain/sys/thread.h"

#ifdef CHECK_SCHED
namespace {
struct Job { int producer = 0, seq = 0, kind = 0, sleep_us = 0; bool nested = false; int child = -1; int runs = 0; bool taken = false, refused = false; int thread = -1; };
struct World { std::vector<Job> jobs; std::vector<int> order; bool closing = false; int alive = 0; };
World *w;
struct Boom { int id; };
// Counts its copies, so that a function never released is noticed.
struct Token { Token() { sched::Quiet q; ++w->alive; } Token(const Token &) { sched::Quiet q; ++w->alive; } Token(Token &&) noexcept { sched::Quiet q; ++w->alive; } ~Token() { sched::Quiet q; --w->alive; } };
template <typename Q> struct Fn {
  int id; Q *q; std::map<int, std::future<int>> *kids; Token token;
  int operator()(int plus) const {
    Job &j = w->jobs[id]; { sched::Quiet x; ++j.runs; j.thread = sched::self_id(); w->order.push_back(id); if (j.runs > 1) pbt::fail("a function ran twice"); }
    if (j.sleep_us) std::this_thread::sleep_for(std::chrono::microseconds(j.sleep_us)); else sched::point();
    if (j.child >= 0) {
      Job &c = w->jobs[j.child]; { sched::Quiet x; c.taken = true; }
      try { auto f = q->enqueue(Fn{j.child, q, kids, {}}, 1); sched::Quiet x; kids->emplace(j.child, std::move(f)); } catch (const std::runtime_error &) { sched::Quiet x; c.taken = false; c.refused = true; if (!w->closing) pbt::fail("a function was refused although the queue is open"); }
    }
    if (j.kind == 1) throw Boom{id};
    return id * 10 + plus;
  }
};
void outcome(int id, std::future<int> &f, int plus) {
  Job &j = w->jobs[id];
  try { int v = f.get(); if (j.kind == 1) pbt::fail("the exception of a function was lost"); if (v != id * 10 + plus) pbt::fail("a future gave %d, not %d", v, id * 10 + plus); }
  catch (const Boom &b) { if (j.kind != 1 || b.id != id) pbt::fail("a future gave the exception of another function"); }
  catch (const std::future_error &e) { pbt::fail("the function of a future never ran: %s", e.what()); }
  if (j.runs != 1) pbt::fail("a future was ready after %d runs", j.runs);
}
struct Plan { int producers; std::vector<std::vector<int>> of; };
Plan plan(pbt::Src &src, int most) {
  Plan p; p.producers = 1 + src.below(2); p.of.resize(p.producers); int seq = 0;
  for (int i = 0; i < p.producers; ++i) { pbt::Src::Loop loop(src, most); while (loop.more()) { Job j; j.producer = i; j.seq = seq++; j.kind = src.chance(1, 5); j.sleep_us = src.chance(1, 5) ? 1 + src.below(50) : 0; int id = w->jobs.size(); w->jobs.push_back(j); p.of[i].push_back(id); if (src.chance(1, 5)) { Job c; c.producer = -1; c.kind = src.chance(1, 4); c.nested = true; w->jobs[id].child = w->jobs.size(); w->jobs.push_back(c); } } }
  return p;
}
void all_done(pbt::Src &src, bool fifo) {
  for (size_t i = 0; i < w->jobs.size(); ++i) { Job &j = w->jobs[i]; if (j.runs != (j.taken ? 1 : 0)) pbt::fail("function %zu (%s) ran %d times", i, j.taken ? "taken" : j.refused ? "refused" : "never offered", j.runs); }
  if (fifo) { std::map<int, int> last; for (int id : w->order) { Job &j = w->jobs[id]; if (j.producer < 0) continue; auto it = last.find(j.producer); if (it != last.end() && it->second > j.seq) pbt::fail("functions of one producer ran out of order"); last[j.producer] = j.seq; } }
  if (w->alive) pbt::fail("%d functions were never released", w->alive);
  if (w->jobs.size() >= 3 && sched::stats().switches > 4) src.nontrivial();
}
}  // namespace

PROPERTY(pool, {.weight = 3, .batch = 1, .hang_s = 60}) {
  World world; w = &world; Plan p = plan(src, 12); int n = 1 + src.below(3); bool wait_first = src.flip();
  sched::start(src); std::map<int, std::future<int>> futures; std::set<int> users;
  { using Q = plain::ThreadPool; auto pool = std::make_unique<Q>(n); std::vector<std::thread> ts; users.insert(sched::self_id());
    for (int i = 0; i < p.producers; ++i) ts.emplace_back([&, i] { { sched::Quiet q; users.insert(sched::self_id()); } for (int id : p.of[i]) { auto f = pool->enqueue(Fn<Q>{id, pool.get(), &futures, {}}, 1); sched::Quiet q; w->jobs[id].taken = true; futures.emplace(id, std::move(f)); } });
    for (auto &t : ts) t.join();
    if (wait_first) for (auto &o : p.of) for (int id : o) { std::future<int> f; { sched::Quiet q; f = std::move(futures[id]); futures.erase(id); } outcome(id, f, 1); }
    world.closing = true; pool.reset(); }
  for (auto &[id, f] : futures) outcome(id, f, 1);
  if (sched::live_threads() != 1) pbt::fail("%llu threads are left", (unsigned long long)sched::live_threads());
  for (auto &j : world.jobs) if (j.runs && users.count(j.thread)) pbt::fail("a function ran on a thread of its user");
  std::set<int> used; for (auto &j : world.jobs) if (j.runs) used.insert(j.thread); if ((int)used.size() > n) pbt::fail("functions ran on %zu threads of a pool of %d", used.size(), n);
  all_done(src, n == 1);
}
// A pool runs as many functions at the same time as it has threads.
PROPERTY(pool_width, {.weight = 1, .batch = 1, .hang_s = 60}) {
  World world; w = &world; int n = 1 + src.below(4); sched::start(src); int in = 0; std::mutex m; std::condition_variable cv; src.nontrivial();
  { plain::ThreadPool pool(n); std::vector<std::future<void>> v; for (int i = 0; i < n; ++i) v.push_back(pool.enqueue([&] { std::unique_lock<std::mutex> l(m); ++in; cv.notify_all(); cv.wait(l, [&] { return in == n; }); })); for (auto &f : v) f.get(); }
}
PROPERTY(task_queue, {.weight = 3, .batch = 1, .hang_s = 60}) {
  World world; w = &world; Plan p = plan(src, 12); std::vector<int> steps; { pbt::Src::Loop loop(src, 15); while (loop.more()) steps.push_back(src.below(3)); }
  sched::start(src); std::map<int, std::future<int>> futures; int worker = -1;
  { using Q = plain::TaskQueue; auto q = std::make_unique<Q>(); std::vector<std::thread> ts;
    for (int i = 0; i < p.producers; ++i) ts.emplace_back([&, i] { for (int id : p.of[i]) { auto f = q->enqueue(Fn<Q>{id, q.get(), &futures, {}}, 1); sched::Quiet x; w->jobs[id].taken = true; futures.emplace(id, std::move(f)); } });
    ts.emplace_back([&] { { sched::Quiet x; worker = sched::self_id(); } for (int s : steps) { if (s == 0) q->work_one(); else if (s == 1) q->work_all(); else std::this_thread::yield(); } });
    for (auto &t : ts) t.join();
    if (steps.size() % 2) { size_t before = 0; for (auto &j : world.jobs) before += j.taken && !j.runs; q->work_one(); size_t after = 0; for (auto &j : world.jobs) after += j.taken && !j.runs && !j.nested; (void)before; q->work_all(); for (auto &j : world.jobs) if (j.taken && !j.runs) pbt::fail("work_all left a function behind"); }
    world.closing = true; q.reset(); }
  for (auto &[id, f] : futures) outcome(id, f, 1);
  int me = sched::self_id(); for (auto &j : world.jobs) if (j.runs && j.thread != worker && j.thread != me) pbt::fail("a function of the queue ran on a thread that does not work it");
  all_done(src, true);
}
// A thread calls its function again until it returns false.
PROPERTY(looping, {.weight = 2, .batch = 1, .hang_s = 60}) {
  int n = 1 + src.below(3); std::vector<int> want, kind, runs(n, 0); for (int i = 0; i < n; ++i) { kind.push_back(src.below(3)); want.push_back(kind[i] == 0 ? 1 : 1 + (int)src.below(6)); }
  if (n > 1) src.nontrivial(); sched::start(src); std::vector<std::set<int>> on(n); std::set<std::uintptr_t> ids;
  std::vector<std::string> names; for (int i = 0; i < n; ++i) names.push_back(std::string(1 + (want[i] * 7 + i) % 15, char('a' + i)));
  auto note = [&](int i) { char name[64] = ""; pthread_getname_np(pthread_self(), name, sizeof name); if (names[i] != name) pbt::fail("a thread given the name %s runs as %s", names[i].c_str(), name); auto id = plain::thread::get_current_virtual_id(); sched::Quiet q; ++runs[i]; on[i].insert(sched::self_id()); ids.insert(id); };
  { std::vector<plain::thread_t> ts;
    for (int i = 0; i < n; ++i) {
      auto text = std::make_unique<std::string>(names[i] + (i % 2 ? "" : " and more")); std::string_view name(text->data(), names[i].size());  // the text ends as soon as the thread is made
      if (kind[i] == 0) ts.push_back(plain::thread::create(name, [&, i] { note(i); }));
      else if (kind[i] == 1) ts.push_back(plain::thread::create(name, [&, i] { note(i); return runs[i] < want[i]; }));
      else ts.push_back(plain::thread::create(name, [&](int k) { note(k); std::this_thread::yield(); return runs[k] < want[k]; }, i));
      std::fill(text->begin(), text->end(), '#'); text.reset();
    }
    for (auto &t : ts) t.join(); }
  for (int i = 0; i < n; ++i) { CHECK_MSG(runs[i] == want[i], "a %s function ran %d times, not %d", kind[i] ? "looping" : "single", runs[i], want[i]); CHECK_MSG(on[i].size() == 1, "one function ran on several threads"); }
  CHECK_MSG((int)ids.size() == n, "%d threads have %zu different ids", n, ids.size()); CHECK_MSG(plain::ThreadCollect::count() == 0, "%d threads are counted after all ended", plain::ThreadCollect::count()); CHECK(sched::live_threads() == 1);
}
#else
namespace {
struct Counted { static int alive; int v; std::string s; explicit Counted(int x) : v(x), s(40, 'c') { ++alive; } Counted(const Counted &o) : v(o.v), s(o.s) { ++alive; } Counted(Counted &&o) noexcept : v(o.v), s(std::move(o.s)) { ++alive; o.v = -1; } ~Counted() { --alive; } };
int Counted::alive = 0;
}  // namespace
// A bound call keeps its own copies of the arguments and calls with them.
PROPERTY(bind, {.weight = 1}) {
  int a = src.bits(20), b = src.bits(20), times = 1 + src.below(4); std::string s = src.ascii(src.size(0, 40)); bool boom = src.flip(); src.nontrivial();
  {
    Counted c(a); std::string t = s; auto owned = std::make_unique<int>(b); int calls = 0;
    auto f = plain::bind([&calls](const Counted &x, const std::string &y, int z) { ++calls; return y + ":" + std::to_string(x.v) + ":" + std::to_string(z) + ":" + std::to_string(x.s.size()); }, c, t, b);
    auto g = plain::bind([](std::unique_ptr<int> &p, std::string &y) { y += "x"; return *p + int(y.size()); }, std::move(owned), std::move(t));
    t = "changed"; c.v = -7; std::string want = s + ":" + std::to_string(a) + ":" + std::to_string(b) + ":40";
    for (int i = 0; i < times; ++i) { CHECK_MSG(f() == want, "a bound call returned %s, not %s", f().c_str(), want.c_str()); CHECK(g() == b + int(s.size()) + 1 + i); }
    auto h = std::move(f); CHECK(h() == want); CHECK(calls == times + 1);
    int seen = 0; auto e = plain::bind_with_try_catch([&](int x, const std::string &y) { ++seen; CHECK(x == b && y == s); if (boom) throw std::runtime_error("boom"); }, b, s); for (int i = 0; i < times; ++i) e(); CHECK(seen == times); static_assert(noexcept(e()));
    auto n = plain::bind_with_try_catch([&] { ++seen; if (boom) throw 5; }); n(); CHECK(seen == times + 1);
    auto named = [&] { return ++seen; }; auto &&same = plain::bind(named); CHECK(same() == times + 2);
  }
  CHECK_MSG(Counted::alive == 0, "%d arguments were never released", Counted::alive);
}
#endif
