// Results, promises, shared results, when_all / when_any, lazy results,
// generators and executor switching under a controlled scheduler.
#include "vsched.h"
#include <atomic>
#include <set>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <thread>
#include <vector>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/awaitable.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/generator.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/resume_on.h"
#include "plain/concurrency/result/shared.h"
#include "plain/concurrency/result/when.h"

using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;

namespace {
int g_alive = 0, g_conts = 0;
// A value that knows whether it is alive and where it came from.
struct Val {
  int id; bool live = true; std::string pad;
  explicit Val(int i) : id(i), pad(i % 3 ? 40 : 2, 'v') { sched::Quiet q; ++g_alive; }
  Val(Val &&o) noexcept : id(o.id), pad(std::move(o.pad)) { sched::Quiet q; if (!o.live) pbt::fail("value %d used after its end", o.id); ++g_alive; }
  Val(const Val &) = delete;
  ~Val() { sched::Quiet q; if (!live) pbt::fail("value %d destroyed twice", id); live = false; --g_alive; }
  int get() const { sched::Quiet q; if (!live) pbt::fail("value %d read after its end", id); return id; }
};
struct Err : std::runtime_error { int id; Err(int i) : std::runtime_error("e" + std::to_string(i)), id(i) {} };
const char *kBroken = "associated task was interrupted abnormally";

enum How { kValue, kError, kBreak, kFunc, kFuncThrow };
const char *kHowName[] = {"value", "exception", "abandoned", "function", "throwing function"};
int outcome_of(How h, int id) { return h == kValue || h == kFunc ? id : h == kBreak ? -2 : -1; }
ResultStatus status_of(How h) { return h == kValue || h == kFunc ? ResultStatus::Value : ResultStatus::Exception; }

template <typename T> struct Codec;
template <> struct Codec<Val> { static void set(ResultPromise<Val> &p, int id) { p.set_result(id); } static Val mk(int id) { return Val(id); } static int read(Result<Val> &r) { return r.get().get(); } static int val(Val &v, int) { return v.get(); } };
template <> struct Codec<int> { static void set(ResultPromise<int> &p, int id) { p.set_result(id); } static int mk(int id) { return id; } static int read(Result<int> &r) { return r.get(); } static int val(int &v, int) { return v; } };
template <> struct Codec<std::string> { static void set(ResultPromise<std::string> &p, int id) { p.set_result("s" + std::to_string(id)); } static std::string mk(int id) { return "s" + std::to_string(id); } static int read(Result<std::string> &r) { return std::stoi(r.get().substr(1)); } static int val(std::string &v, int) { return std::stoi(v.substr(1)); } };
template <> struct Codec<void> { static void set(ResultPromise<void> &p, int) { p.set_result(); } static void mk(int) {} };
std::vector<int> g_refs;
template <> struct Codec<int &> { static void set(ResultPromise<int &> &p, int id) { p.set_result(g_refs[id]); } static int &mk(int id) { return g_refs[id]; } static int read(Result<int &> &r) { int &x = r.get(); return int(&x - g_refs.data()); } static int val(int &v, int) { return int(&v - g_refs.data()); } };

template <typename T> void produce(ResultPromise<T> p, How h, int id, int delay_us) {
  if (delay_us) std::this_thread::sleep_for(std::chrono::microseconds(delay_us));
  switch (h) {
    case kValue: Codec<T>::set(p, id); break;
    case kError: p.set_exception(std::make_exception_ptr(Err(id))); break;
    case kFunc: p.set_from_function([id]() -> decltype(auto) { return Codec<T>::mk(id); }); break;
    case kFuncThrow: p.set_from_function([id]() -> decltype(Codec<T>::mk(id)) { throw Err(id); }); break;
    case kBreak: { ResultPromise<T> q(std::move(p)); if (p) pbt::fail("a moved-from promise is not empty"); return; }
  }
  if (p) pbt::fail("the promise is not empty after being set");
  bool thrown = false; try { p.set_exception(std::make_exception_ptr(Err(0))); } catch (const std::runtime_error &) { thrown = true; } if (!thrown) pbt::fail("a promise could be set twice");
}
void expect(int got, How h, int id, const char *what) { if (got != outcome_of(h, id)) pbt::fail("%s: %s producer %d, consumer saw %d", what, kHowName[h], id, got); }

template <typename T, typename F> int guarded(F f, int id) {
  try { return f(); }
  catch (const Err &e) { if (e.id != id) pbt::fail("exception of %d seen by %d", e.id, id); return -1; }
  catch (const std::runtime_error &e) { if (std::string(e.what()) == kBroken) return -2; pbt::fail("unexpected error: %s", e.what()); }
}
template <typename T> int do_get(Result<T> &r, int id) {
  int v = guarded<T>([&] { if constexpr (std::is_void_v<T>) { r.get(); return id; } else return Codec<T>::read(r); }, id);
  if (r) pbt::fail("the result is not empty after get"); return v;
}
void check_status(ResultStatus s, How h, bool must_be_done) {
  if (s == ResultStatus::Idle) { if (must_be_done) pbt::fail("status is idle although the result is ready"); return; }
  if (s != status_of(h)) pbt::fail("status %d for a %s producer", int(s), kHowName[h]);
}
template <typename T> result::null await_into(Result<T> r, int id, int *out) {
  int v = 0;
  try { if constexpr (std::is_void_v<T>) { co_await r; v = id; } else { decltype(auto) x = co_await r; v = Codec<T>::val(x, id); } }
  catch (const Err &e) { v = e.id == id ? -1 : -9; }
  catch (const std::runtime_error &e) { v = std::string(e.what()) == kBroken ? -2 : -8; }
  sched::Quiet q; ++g_conts; *out = v;
}
template <typename T> result::null resolve_into(Result<T> r, How h, int id, int *out) {
  Result<T> done = co_await r.resolve();
  if (r) pbt::fail("resolve left the result behind");
  check_status(done.status(), h, true);
  int v = do_get<T>(done, id); sched::Quiet q; ++g_conts; *out = v;
}
template <typename T> result::null await_shared(result::Shared<T> r, int id, int *out, bool resolve, How h) {
  int v = 0;
  try {
    if (resolve) { auto d = co_await r.resolve(); check_status(d.status(), h, true); if constexpr (std::is_void_v<T>) { d.get(); v = id; } else v = Codec<T>::val(d.get(), id); }
    else if constexpr (std::is_void_v<T>) { co_await r; v = id; } else { auto &x = co_await r; v = Codec<T>::val(x, id); }
  }
  catch (const Err &e) { v = e.id == id ? -1 : -9; }
  catch (const std::runtime_error &e) { v = std::string(e.what()) == kBroken ? -2 : -8; }
  sched::Quiet q; ++g_conts; *out = v;
}
const int kPending = -100;

template <typename T> void one_cell(pbt::Src &src, int id, std::vector<std::thread> &ts, std::vector<std::function<void()>> &after, int &expected_conts) {
  How h = How(src.pick({3, 3, 2, 1, 1})); int pd = src.chance(1, 3) ? int(src.below(6000)) : 0;
  auto prom = std::make_shared<ResultPromise<T>>(); auto res = std::make_shared<Result<T>>(prom->get_result());
  bool thrown = false; try { prom->get_result(); } catch (const std::runtime_error &) { thrown = true; } if (!thrown) pbt::fail("two results of one promise");
  int mode = src.below(9); int wms = int(src.below(5)); bool move_first = src.chance(1, 4); bool prod_first = src.flip();
  static const char *modes[] = {"get", "wait then get", "wait_for loop", "co_await", "resolve", "drop", "shared", "poll", "drop after wait_for"};
  src.note("cell %d: %s, %s after %d us", id, modes[mode], kHowName[h], pd);
  src.label(modes[mode]);
  auto produce_fn = [prom, h, id, pd] { ResultPromise<T> p = std::move(*prom); produce<T>(std::move(p), h, id, pd); };
  auto out = std::make_shared<int>(kPending);
  std::vector<std::function<void()>> cons;
  if (mode == 6) {
    size_t n = 1 + src.below(3); auto shared = std::make_shared<std::optional<result::Shared<T>>>(); bool early = src.flip();
    if (early) shared->emplace(std::move(*res));
    struct C { int op; int wms; int assign; std::shared_ptr<int> out; };
    std::vector<C> cs; for (size_t i = 0; i < n; ++i) cs.push_back({int(src.below(6)), int(src.below(4)), int(src.below(4)), std::make_shared<int>(kPending)});
    if (!early) shared->emplace(std::move(*res));
    for (auto &c : cs) {
      auto copy = std::make_shared<result::Shared<T>>(**shared); if (c.op == 1 || c.op == 2) ++expected_conts;
      cons.push_back([c, copy, id, h] {
        result::Shared<T> s = std::move(*copy); *copy = result::Shared<T>();
        if (*copy) pbt::fail("an empty shared result was assigned and the old state is still there");
        if (c.assign == 1) { result::Shared<T> t; t = s; if (!t || !s) pbt::fail("copy assignment of a shared result lost it"); s = result::Shared<T>(); if (s) pbt::fail("an empty shared result was assigned and the old state is still there"); s = t; if (!s || !t) pbt::fail("copy assignment of a shared result lost it"); }
        if (c.assign == 2) { result::Shared<T> t; t = std::move(s); if (!t || s) pbt::fail("move assignment of a shared result left it behind"); s = std::move(t); if (!s || t) pbt::fail("move assignment of a shared result left it behind"); }
        if (c.assign == 3) { result::Shared<T> &same = s; s = same; s = std::move(same); if (!s) pbt::fail("self assignment of a shared result lost it"); result::Shared<T> t(s); s = t; if (!s || !t) pbt::fail("assignment of an equal shared result lost it"); }
        auto rd = [&] { return guarded<T>([&] { if constexpr (std::is_void_v<T>) { s.get(); return id; } else return Codec<T>::val(s.get(), id); }, id); };
        switch (c.op) {
          case 0: *c.out = rd(); if (rd() != *c.out) pbt::fail("two reads of a shared result differ"); check_status(s.status(), h, true); break;
          case 1: { int *o = c.out.get(); await_shared<T>(s, id, o, false, h); break; }
          case 2: { int *o = c.out.get(); await_shared<T>(s, id, o, true, h); break; }
          case 3: { for (;;) { uint64_t t0 = sched::now_ns(); auto st = s.wait_for(ms(c.wms)); check_status(st, h, false); if (st != ResultStatus::Idle) break; if (sched::now_ns() - t0 < uint64_t(c.wms) * 1000000) pbt::fail("shared wait_for gave up early"); std::this_thread::sleep_for(ms(1)); } *c.out = rd(); break; }
          case 4: s.wait(); check_status(s.status(), h, true); *c.out = rd(); break;
          case 5: *c.out = outcome_of(h, id); break;  // just drop it
        }
      });
      auto o = c.out; after.push_back([o, h, id] { expect(*o, h, id, "shared result"); });
    }
    shared->reset(); if (prod_first) { ts.emplace_back(produce_fn); for (auto &c : cons) ts.emplace_back(c); } else { for (auto &c : cons) ts.emplace_back(c); ts.emplace_back(produce_fn); }
    return;
  }
  if (mode == 3 || mode == 4) ++expected_conts;
  auto consume = [=] {
    Result<T> r = std::move(*res);
    if (move_first) { Result<T> r2; r2 = std::move(r); if (r) pbt::fail("moved-from result is not empty"); r = std::move(r2); }
    switch (mode) {
      case 0: *out = do_get<T>(r, id); break;
      case 1: r.wait(); check_status(r.status(), h, true); r.wait(); *out = do_get<T>(r, id); break;
      case 2: { for (;;) { uint64_t t0 = sched::now_ns(); auto st = r.wait_for(ms(wms)); check_status(st, h, false); if (st != ResultStatus::Idle) break; if (sched::now_ns() - t0 < uint64_t(wms) * 1000000) pbt::fail("wait_for gave up early"); std::this_thread::sleep_for(ms(1)); } check_status(r.status(), h, true); *out = do_get<T>(r, id); break; }
      case 3: await_into<T>(std::move(r), id, out.get()); break;
      case 4: resolve_into<T>(std::move(r), h, id, out.get()); break;
      case 5: *out = outcome_of(h, id); break;
      case 7: { ResultStatus st; while ((st = r.status()) == ResultStatus::Idle) std::this_thread::sleep_for(std::chrono::microseconds(300)); check_status(st, h, true); if (r.status() != st) pbt::fail("status changed after completion"); *out = do_get<T>(r, id); break; }
      case 8: { auto st = r.wait_for(ms(wms)); check_status(st, h, false); *out = outcome_of(h, id); break; }
    }
  };
  if (prod_first) { ts.emplace_back(produce_fn); ts.emplace_back(consume); } else { ts.emplace_back(consume); ts.emplace_back(produce_fn); }
  after.push_back([out, h, id] { expect(*out, h, id, "result"); });
}
}  // namespace

#ifdef CHECK_RESULT
PROPERTY(promise_to_result, pbt::Options{.weight = 5, .batch = 1, .hang_s = 60}) {
  g_refs.assign(32, 0); sched::start(src);
  size_t n = 1 + src.below(3); int conts = 0;
  {
    std::vector<std::thread> ts; std::vector<std::function<void()>> after;
    for (size_t i = 0; i < n; ++i) switch (src.below(5)) {
      case 0: one_cell<int>(src, i + 1, ts, after, conts); break;
      case 1: one_cell<Val>(src, i + 1, ts, after, conts); break;
      case 2: one_cell<std::string>(src, i + 1, ts, after, conts); break;
      case 3: one_cell<void>(src, i + 1, ts, after, conts); break;
      case 4: one_cell<int &>(src, i + 1, ts, after, conts); break;
    }
    for (auto &t : ts) t.join();
    for (auto &f : after) f();
  }
  if (g_conts != conts) pbt::fail("%d continuations ran, %d expected", g_conts, conts);
  if (g_alive) pbt::fail("%d values are still alive", g_alive);
  if (sched::stats().switches > 4) src.nontrivial(); src.steps(sched::stats().points);
}
// Waiting with a limit: over when the outcome is there or the limit is reached,
// not sooner and not much later, whichever way the limit is given.
namespace {
template <typename R> ResultStatus wait_some(R &r, int how, int64_t us) {
  auto d = std::chrono::microseconds(us);
  switch (how) {
    case 0: return r.wait_for(d);
    case 1: return r.wait_until(std::chrono::steady_clock::now() + d);
    case 2: sched::keep_date(); return r.wait_until(std::chrono::system_clock::now() + d);
    case 3: return r.wait_for(std::chrono::duration<double, std::milli>(double(us) / 1000));
    case 4: return r.wait_until(std::chrono::time_point_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() + d + std::chrono::microseconds(999)));
    case 5: return r.wait_for(std::chrono::hours::max());
    case 6: return r.wait_for(ms::max());
    case 7: return r.wait_until(std::chrono::steady_clock::time_point::max());
    case 8: return r.wait_until(std::chrono::system_clock::time_point::max());
    case 9: return r.wait_for(ms(INT64_MAX / 1000000 + us));
    case 10: return r.wait_for(std::chrono::nanoseconds::max());
    case 11: return r.wait_for(std::chrono::hours::min());
    case 12: return r.wait_until(std::chrono::steady_clock::time_point::min());
    default: return r.wait_until(std::chrono::system_clock::time_point::min());
  }
}
template <typename R> void wait_twice(pbt::Src &src, R &r, How h, uint64_t done_ns, bool never) {
  size_t waits = 1 + src.below(3);
  for (size_t i = 0; i < waits; ++i) {
    int how = int(src.below(5)); if (src.chance(1, 3)) how = int(never ? src.range(11, 13) : src.range(5, 13)); bool forever = how >= 5 && how <= 10; int64_t us = src.of(std::vector<int>{0, 1, 999, 1000, 3000, 20000, 500000, -5000}); if (how > 10) us = 0; uint64_t t0 = sched::now_ns(); ResultStatus st = wait_some(r, how, us); uint64_t t1 = sched::now_ns();
    uint64_t limit = forever ? UINT64_MAX / 2 : t0 + uint64_t(std::max<int64_t>(us, 0)) * 1000, end = never ? limit : std::min(limit, std::max(done_ns, t0));
    static const char *hn[] = {"wait_for", "wait_until steady", "wait_until system", "wait_for fractional", "wait_until milliseconds", "wait_for all hours", "wait_for all milliseconds", "wait_until the end of the steady clock", "wait_until the end of the system clock", "wait_for centuries", "wait_for all nanoseconds", "wait_for less than nothing", "wait_until the beginning of the steady clock", "wait_until the beginning of the system clock"}; src.note("%s %lld us: %.3f ms", hn[how], (long long)us, (t1 - t0) / 1e6);
    check_status(st, h, false); if (never && st != ResultStatus::Idle) pbt::fail("%s says an outcome is there and there is none", hn[how]);
    if (st == ResultStatus::Idle && t1 + (how == 3 ? 1000 : 0) < limit) pbt::fail("%s gave up %.3f ms before its limit", hn[how], (limit - t1) / 1e6);
    if (t1 > end + 80000000ull) pbt::fail("%s of %lld us took %.3f ms", hn[how], (long long)us, (t1 - t0) / 1e6);
    if (st == ResultStatus::Idle && !never && t0 > done_ns + 80000000ull) pbt::fail("%s does not see an outcome that is there", hn[how]);
    ResultStatus s2 = r.status(); if (st != ResultStatus::Idle && s2 != st) pbt::fail("status changed after completion");
  }
}
template <typename F> void refused(const char *what, F f) { bool th = false; try { f(); } catch (const std::runtime_error &) { th = true; } if (!th) pbt::fail("%s was accepted", what); }
}  // namespace
PROPERTY(timed_waits, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  sched::start(src); sched::calm(); bool never = src.chance(1, 4), shared = src.flip(), inline_set = src.chance(1, 5); int id = 3; How h = How(src.pick({3, 3, 2, 1, 1})); uint64_t delay_us = src.of(std::vector<int>{0, 700, 2500, 15000, 400000});
  {
    ResultPromise<Val> p; Result<Val> r = p.get_result(); uint64_t t0 = sched::now_ns(); std::thread t; src.note("%s%s", shared ? "shared, " : "", never ? "never" : kHowName[h]);
    if (never) {} else if (inline_set) { delay_us = 0; produce<Val>(std::move(p), h, id, 0); } else t = std::thread([&] { produce<Val>(std::move(p), h, id, int(delay_us)); });
    uint64_t done = t0 + delay_us * 1000;
    if (shared) { result::Shared<Val> s(std::move(r)); refused("wait on a moved-from result", [&] { r.wait(); }); wait_twice(src, s, h, done, never); if (!never) { result::Shared<Val> s2 = s; expect(guarded<Val>([&] { return s2.get().get(); }, id), h, id, "shared result"); } }
    else { wait_twice(src, r, h, done, never); if (!never) expect(do_get<Val>(r, id), h, id, "result"); }
    if (t.joinable()) t.join();
    // Nothing can be asked of what is empty.
    Result<Val> e; result::Shared<Val> es; LazyResult<Val> el; if (src.flip()) { ResultPromise<Val> q; Result<Val> full = q.get_result(); q.set_result(Val(9)); es = result::Shared<Val>(std::move(full)); e = std::move(full); es = result::Shared<Val>(); }
    if (e || es || el) pbt::fail("an empty result is not empty");
    refused("status of an empty result", [&] { e.status(); }); refused("wait on an empty result", [&] { e.wait(); }); refused("wait_for on an empty result", [&] { e.wait_for(ms(1)); }); refused("wait_until on an empty result", [&] { e.wait_until(std::chrono::steady_clock::now() + ms(1)); }); refused("get of an empty result", [&] { e.get(); }); refused("resolve of an empty result", [&] { e.resolve(); }); refused("co_await on an empty result", [&] { e.operator co_await(); });
    refused("status of an empty shared result", [&] { es.status(); }); refused("wait on an empty shared result", [&] { es.wait(); }); refused("wait_for on an empty shared result", [&] { es.wait_for(ms(1)); }); refused("wait_until on an empty shared result", [&] { es.wait_until(std::chrono::steady_clock::now() + ms(1)); }); refused("get of an empty shared result", [&] { es.get(); }); refused("resolve of an empty shared result", [&] { es.resolve(); }); refused("co_await on an empty shared result", [&] { es.operator co_await(); });
    refused("status of an empty lazy result", [&] { el.status(); }); refused("run of an empty lazy result", [&] { el.run(); }); refused("resolve of an empty lazy result", [&] { el.resolve(); }); refused("co_await on an empty lazy result", [&] { el.operator co_await(); });
    { bool no = false; Result<Val> qr = result::make_ready<Val>(1); ResultPromise<Val> np; qr = np.get_result(); try { np.set_exception(std::exception_ptr()); } catch (const std::invalid_argument &) { no = true; } CHECK_MSG(no && np && qr.status() == ResultStatus::Idle, "an empty exception was accepted"); no = false; try { (void)result::make_exceptional<Val>(std::exception_ptr()); } catch (const std::invalid_argument &) { no = true; } CHECK_MSG(no, "an empty exception was accepted"); np.set_result(Val(7)); CHECK(qr.get().get() == 7); }
    ResultPromise<Val> q, q2 = std::move(q); refused("a value for a moved-from promise", [&] { q.set_result(Val(1)); }); refused("a result of a moved-from promise", [&] { q.get_result(); }); refused("a function for a moved-from promise", [&] { q.set_from_function([] { return Val(1); }); }); refused("an exception for a moved-from promise", [&] { q.set_exception(std::make_exception_ptr(Err(1))); });
  }
  if (g_alive) pbt::fail("%d values are still alive", g_alive);
  src.nontrivial(); src.steps(sched::stats().points);
}
// Coroutines and executors as producers.
namespace {
Result<Val> coro_value(executor_tag, std::shared_ptr<ex::ThreadPool>, int id, bool thr) { if (thr) throw Err(id); co_return Val(id); }
Result<Val> coro_chain(Result<Val> in, int id) { Val v = co_await in; co_return Val(v.get() == id ? id : -5); }
Result<Val> coro_now(int id, bool thr) { if (thr) throw Err(id); co_return Val(id); }
}
PROPERTY(coroutine_results, pbt::Options{.weight = 2, .batch = 1, .hang_s = 60}) {
  sched::start(src); { auto pool = std::make_shared<ex::ThreadPool>("p", 1 + src.below(3), ms(src.below(3) ? 100 : 1)); auto worker = std::make_shared<ex::WorkerThread>();
    size_t n = 1 + src.below(4); struct Item { Result<Val> r; int id; bool thr; int drop; }; std::vector<Item> items;
    for (size_t i = 0; i < n; ++i) {
      int id = i + 1; bool thr = src.chance(1, 3); Result<Val> r;
      switch (src.below(5)) { case 0: r = coro_value({}, pool, id, thr); break; case 1: r = coro_now(id, thr); break; case 2: r = worker->submit([id, thr]() -> Val { if (thr) throw Err(id); return Val(id); }); break; case 3: r = thr ? result::make_exceptional<Val>(Err(id)) : result::make_ready<Val>(id); break; default: r = pool->submit([id, thr]() -> Val { if (thr) throw Err(id); return Val(id); }); break; }
      size_t hops = src.below(3); for (size_t k = 0; k < hops; ++k) r = coro_chain(std::move(r), id);
      items.push_back({std::move(r), id, thr, int(src.below(4))});
    }
    for (auto &it : items) { if (it.drop == 1) { it.r = Result<Val>(); continue; } if (it.drop == 2) { it.r.wait(); check_status(it.r.status(), it.thr ? kError : kValue, true); continue; } int v = do_get<Val>(it.r, it.id); if (v != (it.thr ? -1 : it.id)) pbt::fail("coroutine %d gave %d", it.id, v); }
    items.clear();
    sched::calm(); sched::settle(); pool->shutdown(); worker->shutdown(); }
  if (g_alive) pbt::fail("%d values are still alive", g_alive);
  if (sched::stats().switches > 4) src.nontrivial(); src.steps(sched::stats().points);
}
// Promises, results and shared results put over one another in every order,
// against a model of who still belongs to whom.
namespace {
template <typename T> void put_around(pbt::Src &src) {
  struct Cell { How h = kValue; bool open = true; };  // open: the promise is still there, unset
  struct P { std::optional<ResultPromise<T>> p; int id = 0; bool taken = false; }; struct R { Result<T> r; int id = 0; }; struct S { result::Shared<T> s; int id = 0; };
  { std::vector<P> p(1 + src.below(3)); std::vector<R> r(1 + src.below(3)); std::vector<S> s(1 + src.below(3)); std::map<int, Cell> cell; int next = 1; size_t n = src.size(1, 50);
    for (auto &x : p) { x.p.emplace(); x.id = next++; cell[x.id]; }
    auto lost = [&](P &x) { if (x.id) { auto &c = cell[x.id]; if (c.open) { c.open = false; c.h = kBreak; } } };
    auto look = [&](const char *what) {
      for (auto &x : p) if (bool(*x.p) != (x.id && cell[x.id].open)) pbt::fail("after %s, promise %d is %s", what, x.id, *x.p ? "not empty" : "empty");
      auto st = [&](int id, ResultStatus got) { auto &c = cell[id]; auto want = c.open ? ResultStatus::Idle : status_of(c.h); if (got != want) pbt::fail("after %s, result %d has status %d, expected %d", what, id, int(got), int(want)); };
      for (auto &x : r) { if (bool(x.r) != (x.id != 0)) pbt::fail("after %s, result %d is %s", what, x.id, x.r ? "not empty" : "empty"); if (x.id) st(x.id, x.r.status()); }
      for (auto &x : s) { if (bool(x.s) != (x.id != 0)) pbt::fail("after %s, shared result %d is %s", what, x.id, x.s ? "not empty" : "empty"); if (x.id) { st(x.id, x.s.status()); auto &c = cell[x.id]; if (!c.open) { int v = guarded<T>([&] { return Codec<T>::val(x.s.get(), x.id); }, x.id); expect(v, c.h, x.id, "a shared result"); } } }
    };
    for (size_t k = 0; k < n; ++k) {
      P &a = p[src.below(p.size())], &b = p[src.below(p.size())]; R &c = r[src.below(r.size())], &d = r[src.below(r.size())]; S &e = s[src.below(s.size())], &f = s[src.below(s.size())]; const char *what = "";
      switch (src.below(11)) {
        case 0: { lost(a); *a.p = ResultPromise<T>(); a.id = next++; a.taken = false; cell[a.id]; what = "a new promise"; break; }
        case 1: { if (&a != &b) { lost(a); a.id = b.id; a.taken = b.taken; b.id = 0; } auto &from = *b.p; *a.p = std::move(from); what = "a promise assigned"; break; }
        case 2: { ResultPromise<T> t(std::move(*a.p)); if (src.flip()) { lost(a); a.id = 0; what = "a promise given up"; } else { *a.p = std::move(t); what = "a promise moved there and back"; } break; }
        case 3: { bool no = false; try { c.r = a.p->get_result(); } catch (const std::runtime_error &) { no = true; } bool may = a.id && cell[a.id].open && !a.taken; if (no == may) pbt::fail("the result of promise %d was %s", a.id, no ? "refused" : "given again"); if (may) { c.id = a.id; a.taken = true; } what = "a result taken"; break; }
        case 4: { bool no = false; try { Codec<T>::set(*a.p, a.id); } catch (const std::runtime_error &) { no = true; } bool may = a.id && cell[a.id].open; if (no == may) pbt::fail("setting promise %d was %s", a.id, no ? "refused" : "possible"); if (may) { cell[a.id].open = false; cell[a.id].h = kValue; } what = "a value set"; break; }
        case 5: { bool no = false; try { a.p->set_exception(std::make_exception_ptr(Err(a.id))); } catch (const std::runtime_error &) { no = true; } bool may = a.id && cell[a.id].open; if (no == may) pbt::fail("setting promise %d was %s", a.id, no ? "refused" : "possible"); if (may) { cell[a.id].open = false; cell[a.id].h = kError; } what = "an exception set"; break; }
        case 6: { if (&c != &d) { c.id = d.id; d.id = 0; } auto &from = d.r; c.r = std::move(from); what = "a result assigned"; break; }
        case 7: { if (src.flip()) { Result<T> t(std::move(c.r)); if (c.r) pbt::fail("a moved-from result is not empty"); c.r = std::move(t); what = "a result moved there and back"; } else { c.r = Result<T>(); c.id = 0; what = "a result dropped"; } break; }
        case 8: { if (c.id && cell[c.id].open) continue; bool no = false; int v = 0; if (!c.id) { try { c.r.get(); } catch (const std::runtime_error &) { no = true; } if (!no) pbt::fail("an empty result was read"); } else { v = do_get<T>(c.r, c.id); expect(v, cell[c.id].h, c.id, "a result"); c.id = 0; } what = "a result read"; break; }
        case 9: { e.s = result::Shared<T>(std::move(c.r)); e.id = c.id; c.id = 0; what = "a result shared"; break; }
        default: { int how = int(src.below(3)); if (how == 0) { auto &from = f.s; e.s = from; e.id = f.id; what = "a shared result copied"; } else if (how == 1) { bool same = &e == &f || e.id == f.id; auto &from = f.s; e.s = std::move(from); if (!same) { e.id = f.id; f.id = 0; } what = "a shared result moved"; } else { e.s = result::Shared<T>(); e.id = 0; what = "a shared result dropped"; } break; }
      }
      src.note("%s", what); look(what);
    }
    src.steps(n); if (n > 4) src.nontrivial(); }
  if (g_alive) pbt::fail("%d values are still alive", g_alive);
}
}  // namespace
PROPERTY(put_around, pbt::Options{.weight = 1, .batch = 20}) {
  int kind = int(src.below(3)); src.note("results of kind %d", kind); if (kind == 0) put_around<Val>(src); else if (kind == 1) put_around<int>(src); else put_around<std::string>(src);
}
#endif

#ifdef CHECK_WHEN
namespace {
struct Cell { How h; int id; int delay; };
std::shared_ptr<ex::Basic> make_exec(pbt::Src &src, int *kind) {
  *kind = src.below(4);
  switch (*kind) { case 0: return std::make_shared<ex::Inline>(); case 1: return std::make_shared<ex::WorkerThread>(); case 2: return std::make_shared<ex::ThreadPool>("p", 1 + src.below(3), ms(src.below(2) ? 100 : 1)); default: return std::make_shared<ex::Thread>(); }
}
struct Out { bool done = false; int thread = -1; };
std::vector<int> exec_threads(ex::Basic &e, size_t n) { (void)e; (void)n; return {}; }

result::null all_vec(std::shared_ptr<ex::Basic> e, std::vector<Result<Val>> in, std::vector<Cell> cells, Out *o, const char **err) {
  size_t n = in.size();
  try {
    auto lazy = result::when_all(e, in.begin(), in.end());
    std::vector<Result<Val>> out = co_await lazy;
    { sched::Quiet q; o->thread = sched::self_id(); }
    if (out.size() != n) pbt::fail("when_all returned %zu of %zu results", out.size(), n);
    for (size_t i = 0; i < n; ++i) { check_status(out[i].status(), cells[i].h, true); expect(do_get<Val>(out[i], cells[i].id), cells[i].h, cells[i].id, "when_all"); }
  } catch (const std::runtime_error &x) { *err = "broken"; }
  sched::Quiet q; if (o->done) pbt::fail("when_all continued twice"); o->done = true;
}
result::null any_vec(std::shared_ptr<ex::Basic> e, std::vector<Result<Val>> in, std::vector<Cell> cells, Out *o, const char **err, bool all, int *rounds, std::atomic<bool> *go) {
  try {
    while (!in.empty()) {
      size_t n = in.size();
      auto any = co_await result::when_any(e, in.begin(), in.end());
      { sched::Quiet q; o->thread = sched::self_id(); } if (go) *go = true;
      if (any.index >= n || any.results.size() != n) pbt::fail("when_any: index %zu, %zu of %zu results", any.index, any.results.size(), n);
      Result<Val> done = std::move(any.results[any.index]); Cell c = cells[any.index];
      check_status(done.status(), c.h, true); expect(do_get<Val>(done, c.id), c.h, c.id, "when_any");
      { sched::Quiet q; ++*rounds; }
      in = std::move(any.results); in.erase(in.begin() + any.index); cells.erase(cells.begin() + any.index);
      if (!all) break;
    }
    // What was not picked is still usable.
    for (size_t i = 0; i < in.size(); ++i) { Val *v = nullptr; int got = 0; try { Val x = co_await in[i]; got = x.get(); } catch (const Err &q) { got = q.id == cells[i].id ? -1 : -9; } catch (const std::runtime_error &) { got = -2; } expect(got, cells[i].h, cells[i].id, "left over by when_any"); }
  } catch (const std::runtime_error &x) { *err = "broken"; }
  sched::Quiet q; if (o->done) pbt::fail("when_any continued twice"); o->done = true;
}
result::null tuple_ops(std::shared_ptr<ex::Basic> e, Result<Val> a, Result<int> b, std::vector<Cell> c, Out *o, bool any, const char **err) {
  try {
    if (!any) {
      auto t = co_await result::when_all(e, std::move(a), std::move(b)); { sched::Quiet q; o->thread = sched::self_id(); }
      check_status(std::get<0>(t).status(), c[0].h, true); check_status(std::get<1>(t).status(), c[1].h, true);
      expect(do_get<Val>(std::get<0>(t), c[0].id), c[0].h, c[0].id, "when_all tuple"); expect(do_get<int>(std::get<1>(t), c[1].id), c[1].h, c[1].id, "when_all tuple");
    } else {
      auto w = co_await result::when_any(e, std::move(a), std::move(b)); { sched::Quiet q; o->thread = sched::self_id(); }
      if (w.index > 1) pbt::fail("when_any tuple index %zu", w.index);
      if (w.index == 0) check_status(std::get<0>(w.results).status(), c[0].h, true); else check_status(std::get<1>(w.results).status(), c[1].h, true);
      // Blocking reads are fine here: the producers have their own threads.
      expect(do_get<Val>(std::get<0>(w.results), c[0].id), c[0].h, c[0].id, "when_any tuple"); expect(do_get<int>(std::get<1>(w.results), c[1].id), c[1].h, c[1].id, "when_any tuple");
    }
  } catch (const std::runtime_error &x) { *err = "broken"; }
  sched::Quiet q; if (o->done) pbt::fail("continued twice"); o->done = true;
}
}  // namespace
PROPERTY(when_all_any, pbt::Options{.weight = 5, .batch = 1, .hang_s = 60}) {
  sched::start(src); int kind; bool any_mode = src.flip(); int shape = src.pick({3, 1}); Out o; const char *err = nullptr; int rounds = 0; bool drain = src.flip();
  bool held_back = any_mode && shape == 0 && !drain && src.flip(), down = src.chance(1, 6); std::atomic<bool> go{false};
  {
    auto e = make_exec(src, &kind); size_t n = shape == 1 ? 2 : any_mode ? 1 + src.below(4) : src.below(5);
    std::vector<Cell> cells; std::vector<ResultPromise<Val>> ps; std::vector<Result<Val>> rs; ResultPromise<int> ip; Result<int> ir = ip.get_result();
    for (size_t i = 0; i < n; ++i) { cells.push_back({How(src.pick({3, 3, 1, 1, 1})), int(i) + 1, src.chance(1, 3) ? int(src.below(5000)) : 0}); ps.emplace_back(); rs.push_back(ps.back().get_result()); src.note("result %zu: %s after %d us", i, kHowName[cells[i].h], cells[i].delay); }
    // When waiting for any, one ready result is enough: all others may come after it only.
    size_t first = held_back ? src.below(n) : n; if (held_back) src.note("all but result %zu come after the first is told", first);
    src.note("%s, %s, resume executor kind %d%s", any_mode ? "when_any" : "when_all", shape ? "tuple" : "range", kind, down ? ", shut down meanwhile" : "");
    std::set<int> others; others.insert(sched::self_id());
    std::vector<std::thread> ts; size_t start_at = src.below(n + 2);
    auto launch = [&](size_t i) { ts.emplace_back([&, i] { { sched::Quiet q; others.insert(sched::self_id()); } if (held_back && i != first) while (!go) std::this_thread::sleep_for(ms(1)); if (shape == 1 && i == 1) produce<int>(std::move(ip), cells[i].h, cells[i].id, cells[i].delay); else produce<Val>(std::move(ps[i]), cells[i].h, cells[i].id, cells[i].delay); }); };
    auto consume = [&] { { sched::Quiet q; others.insert(sched::self_id()); } if (shape == 1) tuple_ops(e, std::move(rs[0]), std::move(ir), cells, &o, any_mode, &err); else if (any_mode) any_vec(e, std::move(rs), cells, &o, &err, drain, &rounds, held_back ? &go : nullptr); else all_vec(e, std::move(rs), cells, &o, &err); };
    std::thread killer; if (down) { int wait = src.flip() ? 0 : int(src.below(6000)); killer = std::thread([&, wait] { if (wait) std::this_thread::sleep_for(std::chrono::microseconds(wait)); e->shutdown(); }); }
    std::thread ct; for (size_t i = 0; i < n; ++i) { if (i == start_at) ct = std::thread(consume); launch(i); }
    if (!ct.joinable()) { if (src.flip()) ct = std::thread(consume); else consume(); }
    if (held_back) { auto told = [&] { for (int i = 0; i < 60 && !go; ++i) { sched::settle(); sched::sleep_ns(5000000); } return go.load(); }; if (!told() && (sched::calm(), !told()) && !down) pbt::fail("when_any does not continue although result %zu is ready", first); go = true; }
    for (auto &t : ts) t.join(); if (ct.joinable()) ct.join(); if (killer.joinable()) killer.join(); sched::calm();
    for (int i = 0; i < 40 && !o.done; ++i) { sched::settle(); sched::sleep_ns(5000000); }
    if (!o.done) pbt::fail("%s never continued although every result is ready", any_mode ? "when_any" : "when_all");
    if (down) { src.label(err ? "interrupted" : "before the shutdown"); if (!err && kind != 0 && o.thread >= 0 && (any_mode || n > 0) && others.count(o.thread)) pbt::fail("continued on a thread that is not the executor's, without an error"); e->shutdown(); }
    if (!down) {
    if (err) pbt::fail("%s failed although the executor is up: %s", any_mode ? "when_any" : "when_all", err);
    if (any_mode && shape == 0 && rounds != (drain ? int(n) : 1)) pbt::fail("when_any ran %d rounds over %zu results", rounds, n);
    if (kind != 0 && (any_mode || n > 0) && others.count(o.thread)) pbt::fail("continued on the thread of a producer or the consumer instead of the executor");
    if (kind == 0 && !others.count(o.thread)) pbt::fail("continued on a thread of its own instead of inline");
    e->shutdown(); }
  }
  if (g_alive) pbt::fail("%d values are still alive", g_alive);
  if (sched::stats().switches > 4) src.nontrivial(); src.steps(sched::stats().points);
}
PROPERTY(refuse_empty, pbt::Options{.weight = 1, .batch = 50, .max_cases = 3000}) {
  std::shared_ptr<ex::Basic> e = std::make_shared<ex::Inline>(), none; size_t n = 1 + src.below(4); bool any = src.flip(), range = src.flip(), no_exec = src.flip(); if (!range) n = 2;
  size_t gap = no_exec ? n : src.below(n), gap2 = src.below(n); bool nothing = any && range && src.chance(1, 6); if (nothing) n = 0;
  src.note("when_%s of %zu as a %s, %s", any ? "any" : "all", n, range ? "range" : "tuple", nothing ? "empty" : no_exec ? "no executor" : "one is empty");
  std::vector<ResultPromise<Val>> ps(n); std::vector<Result<Val>> rs; for (auto &p : ps) rs.push_back(p.get_result()); if (!no_exec && !nothing) { Result<Val> drop(std::move(rs[gap])); if (src.flip() && n > 2) Result<Val> d2(std::move(rs[gap2])); }
  std::vector<bool> was; for (auto &r : rs) was.push_back(bool(r)); bool threw = false; auto x = no_exec ? none : e;
  try {
    if (any && range) result::when_any(x, rs.begin(), rs.end()); else if (range) result::when_all(x, rs.begin(), rs.end());
    else if (any) result::when_any(x, std::move(rs[0]), std::move(rs[1])); else result::when_all(x, std::move(rs[0]), std::move(rs[1]));
  } catch (const std::runtime_error &) { threw = !no_exec; } catch (const std::invalid_argument &) { threw = no_exec || nothing; }
  CHECK_MSG(threw, "not refused"); for (size_t i = 0; i < n; ++i) CHECK_MSG(bool(rs[i]) == was[i], "result %zu was taken by the refused call", i);
  for (size_t i = 0; i < n; ++i) ps[i].set_result(int(i) + 1); for (size_t i = 0; i < n; ++i) if (rs[i]) CHECK(rs[i].get().get() == int(i) + 1);
  // Nothing to wait for is ready at once.
  if (src.flip()) { auto l = result::when_all(e, rs.begin(), rs.begin()); CHECK(l.run().get().empty()); } else { auto l = result::when_all(e); (void)l.run().get(); threw = false; try { result::when_all(none); } catch (const std::invalid_argument &) { threw = true; } CHECK(threw); }
  ps.clear(); rs.clear(); CHECK(g_alive == 0); src.nontrivial();
}
#endif

#ifdef CHECK_CORO
namespace {
struct Arg { int id; bool live = true; Arg(int i) : id(i) { sched::Quiet q; ++g_alive; } Arg(const Arg &o) : id(o.id) { sched::Quiet q; if (!o.live) pbt::fail("argument copied after its end"); ++g_alive; } Arg(Arg &&o) noexcept : id(o.id) { sched::Quiet q; if (!o.live) pbt::fail("argument moved after its end"); ++g_alive; } ~Arg() { sched::Quiet q; if (!live) pbt::fail("argument destroyed twice"); live = false; --g_alive; } };
std::vector<int> g_started;
LazyResult<Val> leaf(Arg a, bool thr) { { sched::Quiet q; ++g_started[a.id]; } if (thr) throw Err(a.id); co_return Val(a.id); }
LazyResult<Val> hop(std::shared_ptr<ex::Basic> e, Arg a, bool thr, int *tid) { { sched::Quiet q; ++g_started[a.id]; } co_await result::resume_on(e); { sched::Quiet q; *tid = sched::self_id(); } if (thr) throw Err(a.id); co_return Val(a.id); }
LazyResult<Val> wrap(LazyResult<Val> in, Arg a) { { sched::Quiet q; ++g_started[a.id + 100]; } Val v = co_await in; co_return std::move(v); }
LazyResult<Val> wrap_resolve(LazyResult<Val> in, Arg a) { { sched::Quiet q; ++g_started[a.id + 100]; } LazyResult<Val> d = co_await in.resolve(); if (d.status() == ResultStatus::Idle) pbt::fail("resolved lazy result is idle"); Val v = co_await d; co_return std::move(v); }
result::null drive(LazyResult<Val> l, int id, int *out) { int v; try { Val x = co_await l; v = x.get(); } catch (const Err &e) { v = e.id == id ? -1 : -9; } catch (const std::runtime_error &e) { v = -2; } sched::Quiet q; ++g_conts; *out = v; }
result::null hops(std::vector<std::pair<std::shared_ptr<ex::Basic>, int>> es, std::vector<int> *tids, bool *done, bool *interrupted, Arg a) {
  for (auto &e : es) { try { co_await result::resume_on(e.first); { sched::Quiet q; tids->push_back(sched::self_id()); } } catch (const std::runtime_error &) { sched::Quiet q; *interrupted = true; tids->push_back(-1); } }
  sched::Quiet q; *done = true;
}
template <typename T> result::Generator<T> gen_values(std::vector<int> v, int throw_at, Arg a, int *produced) { for (size_t i = 0; i < v.size(); ++i) { if (int(i) == throw_at) throw Err(a.id); ++*produced; co_yield v[i]; } if (throw_at == int(v.size())) throw Err(a.id); }
}  // namespace
PROPERTY(lazy_results, pbt::Options{.weight = 4, .batch = 1, .hang_s = 60}) {
  g_started.assign(300, 0); sched::start(src);
  {
    auto pool = std::make_shared<ex::ThreadPool>("p", 1 + src.below(2), ms(50)); auto worker = std::make_shared<ex::WorkerThread>(); size_t n = 1 + src.below(4); int conts = 0;
    struct Item { int id; bool thr; int wraps; int how; int hopk; int out = kPending; int tid = -1; int tid2 = -1; }; std::vector<std::unique_ptr<Item>> its; std::vector<Result<Val>> rs; 
    int wtid = -1; worker->submit([&] { wtid = sched::self_id(); }).get();
    for (size_t i = 0; i < n; ++i) {
      auto it = std::make_unique<Item>(); it->id = i + 1; it->thr = src.chance(1, 3); it->wraps = src.below(3); it->how = src.below(4); it->hopk = src.below(3);
      LazyResult<Val> l = it->hopk == 0 ? leaf(Arg(it->id), it->thr) : it->hopk == 1 ? hop(pool, Arg(it->id), it->thr, &it->tid) : hop(worker, Arg(it->id), it->thr, &it->tid);
      for (int k = 0; k < it->wraps; ++k) l = src.flip() ? wrap(std::move(l), Arg(it->id)) : wrap_resolve(std::move(l), Arg(it->id));
      if (g_started[it->id] || g_started[it->id + 100]) pbt::fail("a lazy result started before it was awaited");
      if (l.status() != ResultStatus::Idle) pbt::fail("a lazy result that did not run is not idle");
      LazyResult<Val> l2 = std::move(l); if (l) pbt::fail("moved-from lazy result is not empty");
      bool thrown = false; try { l.run(); } catch (const std::runtime_error &) { thrown = true; } if (!thrown) pbt::fail("run() of an empty lazy result was accepted");
      static const char *hn[] = {"run and get", "co_await", "drop", "run and drop"}; src.note("lazy %d: %d wraps, %s, %s", it->id, it->wraps, hn[it->how], it->thr ? "throws" : "value");
      switch (it->how) {
        case 0: { Result<Val> r = l2.run(); it->out = do_get<Val>(r, it->id); break; }
        case 1: drive(std::move(l2), it->id, &it->out); ++conts; break;
        case 2: it->out = it->thr ? -1 : it->id; break;
        case 3: { Result<Val> r = l2.run(); it->out = it->thr ? -1 : it->id; break; }
      }
      its.push_back(std::move(it));
    }
    sched::calm(); for (int i = 0; i < 20; ++i) { sched::settle(); sched::sleep_ns(2000000); }
    for (auto &it : its) {
      if (it->out != (it->thr ? -1 : it->id)) pbt::fail("lazy result %d gave %d", it->id, it->out);
      if (g_started[it->id] != (it->how == 2 ? 0 : 1)) pbt::fail("lazy result %d was started %d times", it->id, g_started[it->id]);
      if (it->how != 2 && it->hopk == 2 && it->tid != wtid) pbt::fail("lazy result %d did not continue on the executor", it->id);
      if (it->how != 2 && it->hopk == 1 && (it->tid == wtid || it->tid == sched::self_id())) pbt::fail("lazy result %d did not continue on the pool", it->id);
    }
    if (g_conts != conts) pbt::fail("%d continuations of %d ran", g_conts, conts);
    pool->shutdown(); worker->shutdown();
  }
  if (g_alive) pbt::fail("%d objects of lazy results are still alive", g_alive);
  src.nontrivial(); src.steps(sched::stats().points);
}
PROPERTY(switch_executor, pbt::Options{.weight = 2, .batch = 1, .hang_s = 60}) {
  sched::start(src); bool done = false, intr = false; std::vector<int> tids;
  {
    std::vector<std::shared_ptr<ex::WorkerThread>> w; std::vector<int> wt; size_t k = 1 + src.below(3);
    for (size_t i = 0; i < k; ++i) { w.push_back(std::make_shared<ex::WorkerThread>()); wt.push_back(w[i]->submit([] { return sched::self_id(); }).get()); }
    std::vector<std::pair<std::shared_ptr<ex::Basic>, int>> es; size_t n = 1 + src.below(5); bool down = src.chance(1, 3); size_t which = src.below(k); if (down) w[which]->shutdown();
    for (size_t i = 0; i < n; ++i) { int q = src.below(k); es.push_back({w[q], q}); }
    bool race = !down && src.chance(1, 3); hops(es, &tids, &done, &intr, Arg(1)); if (race) w[which]->shutdown();
    sched::calm(); for (int i = 0; i < 10; ++i) { sched::settle(); sched::sleep_ns(1000000); }
    if (!done) pbt::fail("a coroutine switching executors never finished");
    if (tids.size() != n) pbt::fail("a coroutine made %zu of %zu switches", tids.size(), n);
    for (size_t i = 0; i < n; ++i) { int q = es[i].second; bool maybe_down = (down || race) && size_t(q) == which; if (tids[i] == -1) { if (!maybe_down) pbt::fail("switch %zu was interrupted although the executor is up", i); } else { if (down && size_t(q) == which) pbt::fail("switched to an executor that is shut down"); if (tids[i] != wt[q]) pbt::fail("switch %zu continued on thread %d, the executor's is %d", i, tids[i], wt[q]); } }
    for (auto &x : w) x->shutdown();
  }
  { bool no = false; std::shared_ptr<ex::Basic> none; try { (void)result::resume_on(none); } catch (const std::invalid_argument &) { no = true; } CHECK_MSG(no, "a switch to no executor was accepted"); }
  if (g_alive) pbt::fail("%d coroutine arguments are still alive", g_alive);
  src.nontrivial(); src.steps(sched::stats().points);
}
PROPERTY(generators, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  sched::start(src); size_t n = src.size(0, 12); std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(int(src.draw(1000)));
  int thr = src.chance(1, 3) ? int(src.below(n + 1)) : -1; size_t stop = src.chance(1, 3) ? src.below(n + 1) : n + 5; int produced = 0; bool move = src.flip();
  {
    auto g = gen_values<int>(v, thr, Arg(4), &produced); if (produced) pbt::fail("a generator ran before it was asked");
    auto g2 = std::move(g); if (g) pbt::fail("moved-from generator is not empty"); bool t = false; try { g.begin(); } catch (const std::runtime_error &) { t = true; } if (!t) pbt::fail("begin of an empty generator was accepted");
    std::vector<int> got; bool caught = false; (void)move;
    try { if (stop > 0) for (auto it = g2.begin(); it != g2.end(); ++it) { got.push_back(*it); if (produced != int(got.size())) pbt::fail("generator ran ahead: %d values made, %zu taken", produced, got.size()); if (got.size() >= stop) break; } } catch (const Err &e) { caught = e.id == 4; }
    size_t lim = thr >= 0 ? size_t(thr) : n; size_t want = std::min(lim, stop); if (got.size() != want) pbt::fail("generator gave %zu values, expected %zu", got.size(), want);
    for (size_t i = 0; i < want; ++i) if (got[i] != v[i]) pbt::fail("value %zu of the generator differs", i);
    bool should = thr >= 0 && stop > size_t(thr); if (caught != should) pbt::fail("generator exception: expected %d, got %d", should, caught);
  }
  if (g_alive) pbt::fail("%d objects of a generator are still alive", g_alive);
  if (n > 1) src.nontrivial();
}
// Lazy results handed around: created, moved, assigned over one another,
// resolved, awaited by awaiters that are then given up, or dropped, against a
// model of which coroutines must still hold what they were given.
namespace {
std::map<int, int> g_tok;  // id -> how many of its tokens are alive
struct Tok { int id; explicit Tok(int i) : id(i) { ++g_tok[id]; } Tok(const Tok &o) : id(o.id) { ++g_tok[id]; } ~Tok() { --g_tok[id]; } };
std::vector<int> g_ran; int g_cell[64];
template <typename T> LazyResult<T> body(Tok a, bool thr) { ++g_ran[a.id]; if (thr) throw Err(a.id); if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return g_cell[a.id]; else if constexpr (std::is_same_v<T, std::string>) co_return "value " + std::to_string(a.id) + std::string(size_t(a.id), '.'); else co_return T(a.id); }
template <typename T> bool right(LazyResult<T> l, int id, bool thr) {
  try {
    if constexpr (std::is_void_v<T>) { Result<T> r = l.run(); r.get(); return !thr; }
    else if constexpr (std::is_reference_v<T>) { Result<T> r = l.run(); auto *q = &r.get(); return !thr && q == &g_cell[id]; }
    else if constexpr (std::is_same_v<T, std::string>) { Result<T> r = l.run(); T v = r.get(); return !thr && v == "value " + std::to_string(id) + std::string(size_t(id), '.'); }
    else { Result<T> r = l.run(); T v = r.get(); if constexpr (std::is_same_v<T, Val>) return !thr && v.get() == id; else return !thr && v == id; }
  } catch (const Err &e) { return thr && e.id == id; }
}
template <typename T> result::null settle_it(LazyResult<T> l, std::optional<LazyResult<T>> *out) { out->emplace(co_await l.resolve()); }
template <typename T> void hand_around(pbt::Src &src) {
  struct Slot { std::optional<LazyResult<T>> l; int id = 0; bool thr = false, done = false; };
  { std::vector<Slot> s(2 + src.below(4)); int next = 1; size_t n = src.size(1, 40); g_ran.assign(64, 0); g_tok.clear();
    auto look = [&](const char *what) {
      for (auto &t : g_tok) { bool here = false; for (auto &x : s) here |= x.id == t.first; if (here ? t.second != 1 : t.second != 0) pbt::fail("after %s, coroutine %d (%s) holds %d of its arguments", what, t.first, here ? "kept" : "gone", t.second); }
      for (auto &x : s) { if (bool(*x.l) != (x.id != 0)) pbt::fail("after %s, a lazy result is %s", what, x.id ? "empty" : "not empty"); if (!x.id) continue; auto st = x.l->status(); if (st != (x.done ? (x.thr ? ResultStatus::Exception : ResultStatus::Value) : ResultStatus::Idle)) pbt::fail("after %s, coroutine %d has status %d", what, x.id, int(st)); if (g_ran[x.id] != x.done) pbt::fail("after %s, coroutine %d was run %d times", what, x.id, g_ran[x.id]); }
    };
    for (auto &x : s) x.l.emplace();
    for (size_t k = 0; k < n && next < 60; ++k) {
      Slot &a = s[src.below(s.size())], &b = s[src.below(s.size())]; const char *what = ""; int op = int(src.below(9)); if (&a == &b && op == 1) op = 3;
      if (op == 0) { bool thr = src.chance(1, 3); *a.l = body<T>(Tok(next), thr); a.id = next++; a.thr = thr; a.done = false; what = "an assignment of a new one"; }
      else if (op == 1) { *a.l = std::move(*b.l); a.id = b.id; a.thr = b.thr; a.done = b.done; b.id = 0; what = "a move assignment"; }
      else if (op == 2) { LazyResult<T> t(std::move(*a.l)); if (src.flip()) { a.id = 0; what = "a move into one that ends"; } else { *a.l = std::move(t); what = "a move there and back"; } }
      else if (op == 3) { auto &self = *a.l; *a.l = std::move(self); what = "a self assignment"; }
      else if (op == 4) { *a.l = LazyResult<T>(); a.id = 0; what = "an assignment of an empty one"; }
      else if (!a.id) continue;
      else if (op == 5) { src.note("run of %d, which %s", a.id, a.thr ? "throws" : "returns"); if (!right(std::move(*a.l), a.id, a.thr)) pbt::fail("coroutine %d of kind %s gave the wrong value or exception", a.id, typeid(T).name()); if (g_ran[a.id] != 1) pbt::fail("coroutine %d ran %d times", a.id, g_ran[a.id]); a.id = 0; what = "a run"; }
      else if (op == 6) { std::optional<LazyResult<T>> out; settle_it<T>(std::move(*a.l), &out); if (!out) pbt::fail("coroutine %d was not resolved", a.id); *a.l = std::move(*out); a.done = true; what = "a resolve"; }
      else if (op == 7) { { auto w = a.l->resolve(); (void)w; } a.id = 0; what = "a resolve given up"; }
      else { { auto w = a.l->operator co_await(); (void)w; } a.id = 0; what = "an await given up"; }
      src.note("%s", what); look(what);
    }
    src.steps(n); if (next > 2) src.nontrivial(); }
  for (auto &t : g_tok) if (t.second) pbt::fail("coroutine %d still holds %d of its arguments", t.first, t.second);
  if (g_alive) pbt::fail("%d values are still alive", g_alive);
}
}  // namespace
PROPERTY(lazy_moves, pbt::Options{.weight = 1, .batch = 20}) {
  int kind = int(src.below(5)); src.note("results of kind %d", kind); switch (kind) { case 0: hand_around<Val>(src); break; case 1: hand_around<int>(src); break; case 2: hand_around<std::string>(src); break; case 3: hand_around<void>(src); break; default: hand_around<int &>(src); }
}
// Several generators taken from in any order, each with elements that can be
// read more than once and by either form of the iterator.
namespace {
result::Generator<std::string> texts(std::vector<std::string> v, int throw_at, Tok a) { for (size_t i = 0; i < v.size(); ++i) { if (int(i) == throw_at) throw Err(a.id); if (i % 2) co_yield v[i]; else co_yield std::string(v[i]); } if (throw_at == int(v.size())) throw Err(a.id); }
}  // namespace
PROPERTY(generators_many, pbt::Options{.weight = 1, .batch = 20}) {
  g_tok.clear();
  { using G = result::Generator<std::string>; struct One { std::optional<G> g; std::optional<G::iterator> it; std::vector<std::string> v; int thr; size_t at = 0; bool over = false; };
    std::vector<One> gs(1 + src.below(4)); size_t total = 0;
    for (size_t i = 0; i < gs.size(); ++i) { auto &x = gs[i]; size_t n = src.size(0, 8); for (size_t k = 0; k < n; ++k) x.v.push_back(std::string(size_t(src.below(50)), char('a' + i)) + std::to_string(k)); x.thr = src.chance(1, 3) ? int(src.below(n + 1)) : -1; x.g.emplace(texts(x.v, x.thr, Tok(int(i)))); total += n; }
    for (size_t k = 0; k < 3 * total + 8; ++k) {
      size_t i = src.below(gs.size()); auto &x = gs[i]; if (!x.g) continue;
      if (src.chance(1, 20)) { x.it.reset(); x.g.reset(); if (g_tok[int(i)]) pbt::fail("generator %zu was given up and still holds its argument", i); src.note("generator %zu given up after %zu", i, x.at); continue; }
      if (x.over) continue;
      if (src.chance(1, 6)) { G moved(std::move(*x.g)); if (*x.g) pbt::fail("moved-from generator is not empty"); x.g.emplace(std::move(moved)); }
      bool threw = false; try { if (!x.it) x.it.emplace(x.g->begin()); else if (src.flip()) ++*x.it; else (*x.it)++; } catch (const Err &e) { if (e.id != int(i)) pbt::fail("the exception of generator %d came from generator %zu", e.id, i); threw = true; }
      size_t lim = x.thr >= 0 ? size_t(x.thr) : x.v.size();
      if (threw) { if (int(x.at) != x.thr) pbt::fail("generator %zu threw after %zu values, expected %d", i, x.at, x.thr); x.over = true; continue; }
      bool end = *x.it == x.g->end(); if (end != !(*x.it != x.g->end()) || end != (G::end() == *x.it)) pbt::fail("the comparisons with the end disagree");
      if (end) { if (x.thr >= 0 || x.at != x.v.size()) pbt::fail("generator %zu ended after %zu values of %zu", i, x.at, lim); x.over = true; continue; }
      if (x.at >= lim) pbt::fail("generator %zu gave more than %zu values", i, lim);
      if (**x.it != x.v[x.at] || (*x.it)->size() != x.v[x.at].size() || **x.it != x.v[x.at]) pbt::fail("value %zu of generator %zu differs", x.at, i); ++x.at;
    }
    src.steps(total); if (total > 2) src.nontrivial(); }
  for (auto &t : g_tok) if (t.second) pbt::fail("generator %d still holds its argument", t.first);
}
// Coroutines that name their executor as shared pointer, pointer or reference.
namespace {
struct Done { bool ran = false, ended = false; int tid = -1; };
#define NAMED(K, EXEC) \
template <typename E> Result<Val> by_##K(executor_tag, EXEC, Arg a, bool thr, Done *d) { { sched::Quiet q; if (d->ran) pbt::fail("a coroutine ran twice"); d->ran = true; d->tid = sched::self_id(); } if (thr) throw Err(a.id); co_return Val(a.id); } \
template <typename E> result::null null_by_##K(executor_tag, EXEC, Arg a, bool thr, Done *d) { { sched::Quiet q; if (d->ran) pbt::fail("a coroutine ran twice"); d->ran = true; d->tid = sched::self_id(); } if (thr) throw Err(a.id); sched::Quiet q; d->ended = true; co_return; }
NAMED(sp, std::shared_ptr<E>) NAMED(p, E *) NAMED(r, E &)
}  // namespace

namespace {
template <typename E> void name_executor(pbt::Src &src, std::shared_ptr<E> e, int kind) {
  ex::Manual *m = nullptr; if constexpr (std::is_same_v<E, ex::Manual>) m = e.get();
  size_t n = 1 + src.below(5); struct Item { int id; bool thr, null, late; Done d; Result<Val> r; }; std::vector<std::unique_ptr<Item>> its; size_t down = src.chance(1, 3) ? src.below(n + 1) : n + 1; bool is_down = false; int self = sched::self_id();
  std::shared_ptr<E> none; E *np = nullptr; Done nd; int refused = 0; Arg keep(0);
  try { (void)by_sp<E>({}, none, keep, false, &nd); } catch (const std::invalid_argument &) { ++refused; } try { (void)by_p<E>({}, np, keep, false, &nd); } catch (const std::invalid_argument &) { ++refused; }
  try { null_by_sp<E>({}, none, keep, false, &nd); } catch (const std::invalid_argument &) { ++refused; } try { null_by_p<E>({}, np, keep, false, &nd); } catch (const std::invalid_argument &) { ++refused; }
  if (refused != 4 || nd.ran) pbt::fail("a coroutine was started without an executor");
  for (size_t i = 0; i < n; ++i) {
    if (i == down) { e->shutdown(); is_down = true; src.note("shutdown"); }
    auto it = std::make_unique<Item>(); it->id = int(i + 1); it->thr = src.chance(1, 3); it->null = src.chance(1, 3); it->late = is_down; int form = int(src.below(3)); src.note("coroutine %d, form %d%s%s", it->id, form, it->thr ? ", throws" : "", it->null ? ", without result" : "");
    if (it->null) { if (form == 0) null_by_sp<E>({}, e, Arg(it->id), it->thr, &it->d); else if (form == 1) null_by_p<E>({}, e.get(), Arg(it->id), it->thr, &it->d); else null_by_r<E>({}, *e, Arg(it->id), it->thr, &it->d); }
    else it->r = form == 0 ? by_sp<E>({}, e, Arg(it->id), it->thr, &it->d) : form == 1 ? by_p<E>({}, e.get(), Arg(it->id), it->thr, &it->d) : by_r<E>({}, *e, Arg(it->id), it->thr, &it->d);
    if (m) { sched::Quiet q; if (it->d.ran) pbt::fail("a coroutine ran before the executor's turn"); }
    its.push_back(std::move(it));
  }
  size_t live = std::min(down, n); if (m && !is_down && src.flip()) { size_t k = m->loop(n + 3); if (k != live) pbt::fail("the executor ran %zu coroutines of %zu", k, live); } else if (m && !is_down) { e->shutdown(); for (auto &it : its) it->late = true; } else if (m) for (auto &it : its) it->late = true;
  for (auto &it : its) if (!it->null && src.chance(2, 3)) { int v = do_get<Val>(it->r, it->id); int want = it->thr ? -1 : it->id; if (it->late ? v != -2 : v != want && !(is_down && v == -2)) pbt::fail("coroutine %d gave %d, expected %d", it->id, v, it->late ? -2 : want); }
  sched::calm(); for (int i = 0; i < 10; ++i) { sched::settle(); sched::sleep_ns(1000000); }
  for (auto &it : its) { sched::Quiet q; if (it->late && it->d.ran) pbt::fail("coroutine %d ran on an executor that is shut down", it->id); if (!it->late && !is_down) { if (!it->d.ran) pbt::fail("coroutine %d never ran", it->id); if (it->null && it->d.ended == it->thr) pbt::fail("coroutine %d did not come to its end", it->id); } if (it->d.ran && (it->d.tid == self) != (kind == 0 || m)) pbt::fail("coroutine %d ran on thread %d", it->id, it->d.tid); }
  e->shutdown();
}
}  // namespace
PROPERTY(named_executor, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  sched::start(src); int kind = int(src.below(5)); static const char *kn[] = {"inline", "manual", "worker thread", "pool", "thread per task"}; src.note("%s executor", kn[kind]);
  switch (kind) { case 0: name_executor(src, std::make_shared<ex::Inline>(), kind); break; case 1: name_executor(src, std::make_shared<ex::Manual>(), kind); break; case 2: name_executor(src, std::make_shared<ex::WorkerThread>(), kind); break; case 3: name_executor(src, std::make_shared<ex::ThreadPool>("p", 1 + src.below(2), ms(50)), kind); break; default: name_executor(src, std::make_shared<ex::Thread>(), kind); }
  if (g_alive) pbt::fail("%d arguments or values are still alive", g_alive);
  src.nontrivial(); src.steps(sched::stats().points);
}
#endif
