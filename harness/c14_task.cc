// Tasks own exactly one callable through every history of construction, move,
// execution and clearing.
#include "pbt.h"
#include <array>
#include <coroutine>
#include <memory>
#include <optional>
#include <vector>
#include "plain/concurrency/task.h"
#include "plain/concurrency/result/basic.h"

using namespace plain::concurrency;
using pbt::Src;
namespace {
struct Rec { int runs = 0; int alive = 0; int copies = 0; bool coro = false; int frames = 0; int last_live_at_run = -1; };
std::vector<Rec> *g;
enum Shape { kTrivialSmall, kTrivialBig, kTrivialEdge, kInline, kInlineFull, kHeapBig, kHeapThrowMove, kCopyOnly, kOverOne, kCoro, kEmptyFn, kShapes };
const char *kName[] = {"trivial", "trivial and large", "trivial of the inline size", "inline", "inline of the exact size", "large", "throwing move", "copy only", "one byte over", "coroutine", "lambda"};
constexpr size_t kBuf = detail::task_constants::buffer_size;

bool g_throw;  // the callable executed now throws at its end
struct Thrown { int id; };
void ran(int id, uint64_t tag) { (*g)[id].runs++; if (tag != uint64_t(id) * 0x9e3779b97f4a7c15ull) pbt::fail("callable %d ran with damaged content", id); if (g_throw) { g_throw = false; throw Thrown{id}; } }
uint64_t tag_of(int id) { return uint64_t(id) * 0x9e3779b97f4a7c15ull; }
// Counted base: knows its own address, so a bitwise move of a non-trivial
// callable is seen.
struct Counted {
  int id; const Counted *self; bool live = true;
  explicit Counted(int i) : id(i), self(this) { (*g)[id].alive++; }
  Counted(const Counted &o) : id(o.id), self(this) { o.ok("copied"); (*g)[id].alive++; (*g)[id].copies++; }
  Counted(Counted &&o) noexcept : id(o.id), self(this) { o.ok("moved"); (*g)[id].alive++; }
  ~Counted() { ok("destroyed"); live = false; (*g)[id].alive--; }
  void ok(const char *what) const { if (!live) pbt::fail("callable %d %s after its end", id, what); if (self != this) pbt::fail("callable %d was relocated without its move constructor (%s)", id, what); }
};
struct TrivialSmall { int id; uint64_t tag; void operator()() { ran(id, tag); } };
long g_big;  // large trivial callables on the heap
struct TrivialBig { static void *operator new(size_t n) { ++g_big; return ::operator new(n); } static void *operator new(size_t, void *p) { return p; } static void operator delete(void *p) { --g_big; ::operator delete(p); } static void operator delete(void *, void *) {} int id; char pad[100]; uint64_t tag; void operator()() { for (char c : pad) if (c != char(id)) pbt::fail("large callable %d damaged", id); ran(id, tag); } };
struct TrivialEdge { int id; char pad[kBuf - 16]; uint64_t tag; void operator()() { for (char c : pad) if (c != char(id)) pbt::fail("callable %d damaged", id); ran(id, tag); } };
static_assert(sizeof(TrivialEdge) <= kBuf);
struct Inline : Counted { uint64_t tag; explicit Inline(int i) : Counted(i), tag(tag_of(i)) {} void operator()() { ok("executed"); ran(id, tag); } };
struct InlineFull : Counted { uint64_t tag; char pad[kBuf - sizeof(Counted) - 8]; explicit InlineFull(int i) : Counted(i), tag(tag_of(i)) { memset(pad, i, sizeof pad); } void operator()() { ok("executed"); for (char c : pad) if (c != char(id)) pbt::fail("callable %d damaged", id); ran(id, tag); } };
static_assert(sizeof(InlineFull) == kBuf);
struct OverOne : Counted { uint64_t tag; char pad[kBuf - sizeof(Counted) - 8 + 1]; explicit OverOne(int i) : Counted(i), tag(tag_of(i)) { memset(pad, i, sizeof pad); } void operator()() { ok("executed"); for (char c : pad) if (c != char(id)) pbt::fail("callable %d damaged", id); ran(id, tag); } };
struct HeapBig : Counted { uint64_t tag; std::array<char, 200> pad; explicit HeapBig(int i) : Counted(i), tag(tag_of(i)) { pad.fill(char(i)); } void operator()() { ok("executed"); for (char c : pad) if (c != char(id)) pbt::fail("large callable %d damaged", id); ran(id, tag); } };
struct ThrowMove : Counted { uint64_t tag; explicit ThrowMove(int i) : Counted(i), tag(tag_of(i)) {} ThrowMove(ThrowMove &&o) noexcept(false) : Counted(std::move(o)), tag(o.tag) {} void operator()() { ok("executed"); ran(id, tag); } };
struct CopyOnly : Counted { uint64_t tag; std::shared_ptr<int> own; explicit CopyOnly(int i) : Counted(i), tag(tag_of(i)), own(std::make_shared<int>(i)) {} CopyOnly(const CopyOnly &) = default; void operator()() { ok("executed"); if (*own != id) pbt::fail("callable %d lost its content", id); ran(id, tag); } };
// A coroutine that is suspended at its start and counts its frame.
struct Co { struct promise_type { Co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; std::coroutine_handle<promise_type> h; };
Co make_coro(Inline c) { c(); co_return; }

Task build(int shape, int id, bool lvalue) {
  switch (shape) {
    case kTrivialSmall: { TrivialSmall c{id, tag_of(id)}; return lvalue ? Task(c) : Task(std::move(c)); }
    case kTrivialBig: { TrivialBig c; c.id = id; memset(c.pad, id, sizeof c.pad); c.tag = tag_of(id); return lvalue ? Task(c) : Task(std::move(c)); }
    case kTrivialEdge: { TrivialEdge c; c.id = id; memset(c.pad, id, sizeof c.pad); c.tag = tag_of(id); return Task(std::move(c)); }
    case kInline: { Inline c(id); return lvalue ? Task(c) : Task(std::move(c)); }
    case kInlineFull: { InlineFull c(id); return lvalue ? Task(c) : Task(std::move(c)); }
    case kHeapBig: { HeapBig c(id); return lvalue ? Task(c) : Task(std::move(c)); }
    case kHeapThrowMove: return Task(ThrowMove(id));
    case kCopyOnly: { CopyOnly c(id); return lvalue ? Task(c) : Task(std::move(c)); }
    case kOverOne: { OverOne c(id); return lvalue ? Task(c) : Task(std::move(c)); }
    case kCoro: return Task(std::coroutine_handle<void>(make_coro(Inline(id)).h));
    default: { auto u = std::make_unique<Inline>(id); return Task([u = std::move(u)] { (*u)(); }); }
  }
}
bool is_shape(const Task &t, int shape) {
  switch (shape) {
    case kTrivialSmall: return t.contains<TrivialSmall>(); case kTrivialBig: return t.contains<TrivialBig>(); case kTrivialEdge: return t.contains<TrivialEdge>();
    case kInline: return t.contains<Inline>(); case kInlineFull: return t.contains<InlineFull>(); case kHeapBig: return t.contains<HeapBig>(); case kHeapThrowMove: return t.contains<ThrowMove>();
    case kCopyOnly: return t.contains<CopyOnly>(); case kOverOne: return t.contains<OverOne>(); case kCoro: return t.contains<std::coroutine_handle<void>>();
  }
  return true;
}
}  // namespace

PROPERTY(task_lifetime, pbt::Options{.weight = 3}) {
  std::vector<Rec> recs; recs.reserve(2000); g = &recs; g_big = 0; std::vector<int> shape;
  {
    constexpr size_t kSlots = 5; std::vector<std::optional<Task>> s(kSlots); std::vector<int> m(kSlots, -1);  // model: which callable each slot owns
    size_t moves = 0, execs = 0;
    for (Src::Loop l(src, 120); l.more();) {
      size_t i = src.below(kSlots), j = src.below(kSlots);
      switch (src.pick({5, 5, 3, 3, 2, 2, 2})) {
        case 0: { int sh = int(src.below(kShapes)); int id = int(recs.size()); recs.emplace_back(); shape.push_back(sh); bool lv = src.flip(); src.note("slot %zu = task of a %s callable %d", i, kName[sh], id); s[i].emplace(build(sh, id, lv)); m[i] = id; break; }
        case 1: if (s[i] && s[j]) { src.note("slot %zu = move of slot %zu", j, i); *s[j] = std::move(*s[i]); if (i != j) { m[j] = m[i]; m[i] = -1; } ++moves; } break;
        case 2: if (s[i] && i != j) { src.note("slot %zu built by moving slot %zu", j, i); s[j].emplace(std::move(*s[i])); m[j] = m[i]; m[i] = -1; ++moves; } break;
        case 3: if (s[i]) { int id = m[i]; bool thr = id >= 0 && shape[id] != kCoro && src.chance(1, 4), got = false; src.note("execute slot %zu%s", i, thr ? ", which throws" : ""); g_throw = thr; try { (*s[i])(); } catch (const Thrown &t) { got = t.id == id; } g_throw = false; CHECK_MSG(got == thr, "the exception of callable %d %s", id, thr ? "was lost" : "came from nowhere"); if (id >= 0) { CHECK_MSG(recs[id].runs == 1, "callable %d (%s) ran %d times", id, kName[shape[id]], recs[id].runs); ++execs; } m[i] = -1; } break;
        case 4: if (s[i]) { src.note("clear slot %zu", i); s[i]->clear(); m[i] = -1; } break;
        case 5: src.note("destroy slot %zu", i); s[i].reset(); m[i] = -1; break;
        case 6: { std::vector<Task> v; for (auto &t : s) if (t) v.push_back(std::move(*t)); /* reallocation moves */ size_t k = 0; for (auto &t : s) if (t) *t = std::move(v[k++]); src.note("all through a vector"); ++moves; break; }
      }
      for (size_t k = 0; k < kSlots; ++k) if (s[k]) {
        CHECK_MSG(bool(*s[k]) == (m[k] >= 0), "slot %zu %s a task, expected %s", k, bool(*s[k]) ? "holds" : "does not hold", m[k] >= 0 ? "one" : "none");
        if (m[k] >= 0) CHECK_MSG(is_shape(*s[k], shape[m[k]]), "slot %zu does not report its %s callable", k, kName[shape[m[k]]]);
        if (m[k] >= 0 && shape[m[k]] != kInlineFull) CHECK(!s[k]->contains<InlineFull>());
      }
      for (size_t id = 0; id < recs.size(); ++id) {
        bool owned = false; for (int x : m) owned |= x == int(id); int sh = shape[id]; bool counted = sh != kTrivialSmall && sh != kTrivialBig && sh != kTrivialEdge;
        if (counted) CHECK_MSG(recs[id].alive == (owned ? 1 : 0), "%d instances of the %s callable %zu are alive, expected %d", recs[id].alive, kName[sh], id, owned ? 1 : 0);
        CHECK(recs[id].runs <= 1); if (owned) CHECK(recs[id].runs == 0);
      }
    }
    if (moves >= 1 && execs >= 1) src.nontrivial();
  }
  CHECK_MSG(g_big <= 0, "%ld large trivial callables were not released", g_big); g_big = 0;
  for (size_t id = 0; id < recs.size(); ++id) CHECK_MSG(recs[id].alive == 0, "%d instances of callable %zu leaked", recs[id].alive, id);
}
