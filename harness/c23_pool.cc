// Memory pools: blocks are apart, aligned and keep their content whatever other
// threads allocate and free; what is freed is used again.
#ifdef CHECK_SCHED
#include "vsched.h"
#else
#include "pbt.h"
#endif
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "plain/sys/memory/pool.h"
#include "plain/sys/memory/stack_allocator.h"
namespace mem = plain::memory;

namespace {
struct Quietly {
#ifdef CHECK_SCHED
  sched::Quiet q;
#endif
};
struct Block { char *p; size_t n; unsigned char seed; };
char pattern(unsigned char seed, size_t i) { return (char)(seed + i * 7); }
struct Live {
  std::map<char *, size_t> at;
  void add(char *p, size_t n) {
    Quietly q;
    if ((uintptr_t)p % alignof(std::max_align_t)) pbt::fail("block of %zu bytes is not aligned: %p", n, p);
    if (!n) n = 1;
    auto it = at.upper_bound(p);
    if (it != at.end() && p + n > it->first) pbt::fail("block of %zu bytes overlaps a block in use behind it", n);
    if (it != at.begin()) { --it; if (it->first + it->second > p) pbt::fail("block of %zu bytes starts in a block in use", n); }
    at[p] = n;
  }
  void drop(char *p) { Quietly q; at.erase(p); }
};
void fill(const Block &b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = pattern(b.seed, i); }
void verify(const Block &b) { Quietly q; for (size_t i = 0; i < b.n; ++i) if (b.p[i] != pattern(b.seed, i)) pbt::fail("byte %zu of a block of %zu bytes changed while in use", i, b.n); }

template <typename P> void *take(P &p, size_t n) { try { return PLAIN_MALLOC(&p, n); } catch (const std::range_error &) { return nullptr; } }
template <typename P> void give(P &p, void *b) { PLAIN_FREE(&p, b); }

template <int kLeaf, int kCount, bool kOS, typename P>
void room_is_back(P &p) {
  // Everything is free: the largest block fits into every leaf.
  if (kOS) return;
  constexpr size_t most = kLeaf / 16 * 16 - 16;
  std::vector<void *> v;
  for (int i = 0; i < kCount; ++i) { void *b = take(p, most); if (!b) pbt::fail("all %d leaves are free, but only %d blocks of %zu bytes can be had", kCount, i, most); v.push_back(b); }
  for (auto b : v) give(p, b);
}

template <int kLeaf, int kCount, bool kOS, bool kThrow>
void history(pbt::Src &src) {
  using P = mem::Pool<kLeaf, kCount, 40, kOS, kThrow>;
  auto pool = std::make_unique<P>(); auto other = std::make_unique<P>();
  Live live; std::vector<Block> v; pbt::Src::Loop loop(src, 200); int given = 0, taken = 0; unsigned char seed = 0;
  while (loop.more()) {
    switch (src.below(8)) {
      case 0: case 1: case 2: {
        size_t n = src.chance(1, 6) ? src.below(kLeaf + 40) : src.below(90);
        auto p = (char *)take(*pool, n); src.note("take %zu%s; ", n, p ? "" : " (refused)");
        if (!p) { CHECK_MSG(!kOS, "an allocation of %zu bytes was refused although the system has memory", n); if (v.empty()) CHECK_MSG(n > kLeaf / 16 * 16 - 16, "an allocation of %zu bytes was refused by an empty pool with leaves of %d", n, kLeaf); break; }
        live.add(p, n); Block b{p, n, ++seed}; fill(b); v.push_back(b); ++taken; break;
      }
      case 3: case 4: {
        if (v.empty()) break; size_t i = src.below(v.size()); Block b = v[i]; verify(b); live.drop(b.p); src.note("free %zu; ", b.n);
        try { give(*pool, b.p); } catch (const std::range_error &e) { pbt::fail("a block of %zu bytes could not be freed: %s", b.n, e.what()); }
        v.erase(v.begin() + i); ++given; break;
      }
      case 5: {
        if (v.empty()) break; Block &b = v[src.below(v.size())]; ptrdiff_t off = src.range(-3, b.n + 3); size_t len = src.below(b.n + 4); if (src.chance(1, 8)) len = src.bits(40);
        if (src.chance(1, 12)) len = -(size_t)src.range(0, b.n + 8);  // past the end of the address space
        bool want = off >= 0 && (size_t)off <= b.n && len <= b.n - (size_t)off, got;
        try { got = PLAIN_CHECK_ACCESS(pool.get(), b.p, b.p + off, len); if (kThrow && !got) pbt::fail("check_access returned false"); } catch (const std::range_error &) { got = false; CHECK(kThrow); }
        CHECK_MSG(got == want, "check_access of %zu bytes at %td of a block of %zu says %d", len, off, b.n, got); break;
      }
      case 6: {
        // Not this pool's: refused, and still usable.
        auto p = (char *)take(*other, 20); if (!p) break; Block b{p, 20, 9}; fill(b); bool in_leaf = false;
#if !_DEBUG
        if (kThrow && !kOS) { bool threw = false; try { pool->free(p); } catch (const std::range_error &) { threw = true; } CHECK_MSG(threw, "a block of another pool was freed here"); src.label("foreign"); }
        if (!kThrow && !kOS) { try { pool->free(p); } catch (const std::range_error &) { pbt::fail("a pool that does not throw threw"); } Quietly q; void *r = other->malloc(20); CHECK_MSG(r != p, "a block of another pool was freed here"); if (r) other->free(r); src.label("foreign ignored"); }
#else
        bool threw = false; try { PLAIN_FREE(pool.get(), p); } catch (const std::range_error &) { threw = true; } CHECK_MSG(threw, "a block of another pool was freed here");
#endif
        verify(b); give(*other, p); (void)in_leaf; if (src.flip()) { give(*pool, nullptr); src.note("free nothing; "); } break;
      }
      case 7: {
        uint64_t n = (1ull << 31) + src.bits(62); src.note("huge; "); void *p = take(*pool, n); CHECK_MSG(!p, "an allocation of %llu bytes was granted", (unsigned long long)n);
#if _DEBUG
        if (v.empty()) break; size_t i = src.below(v.size()); Block b = v[i]; verify(b); live.drop(b.p); give(*pool, b.p); v.erase(v.begin() + i);
        bool threw = false; try { give(*pool, b.p); } catch (const std::range_error &) { threw = true; } CHECK_MSG(threw, "a block was freed twice");
#endif
        break;
      }
    }
  }
  if (taken > 2 && given) src.nontrivial();
  for (auto &b : v) { verify(b); live.drop(b.p); give(*pool, b.p); }
  room_is_back<kLeaf, kCount, kOS>(*pool);
}

template <typename A> void containers(pbt::Src &src, A alloc) {
  using CA = typename std::allocator_traits<A>::template rebind_alloc<char>;
  using Str = std::basic_string<char, std::char_traits<char>, CA>;
  using SA = typename std::allocator_traits<A>::template rebind_alloc<Str>;
  using MA = typename std::allocator_traits<A>::template rebind_alloc<std::pair<const int, Str>>;
  std::vector<Str, SA> v{SA(alloc)}; std::list<Str, SA> l{SA(alloc)}; std::map<int, Str, std::less<int>, MA> m{std::less<int>{}, MA(alloc)};
  std::vector<std::string> mv; std::list<std::string> ml; std::map<int, std::string> mm; pbt::Src::Loop loop(src, 120); int n = 0;
  while (loop.more()) {
    std::string t = src.ascii(src.size(0, 300)); Str s(t.data(), t.size(), CA(alloc)); int k = src.below(9); ++n;
    switch (src.below(8)) {
      case 0: case 1: v.push_back(s); mv.push_back(t); break;
      case 2: if (!mv.empty()) { size_t i = src.below(mv.size()); v.erase(v.begin() + i); mv.erase(mv.begin() + i); } break;
      case 3: l.push_front(s); ml.push_front(t); break;
      case 4: if (!ml.empty()) { l.pop_back(); ml.pop_back(); } break;
      case 5: m.insert_or_assign(k, s); mm[k] = t; break;
      case 6: m.erase(k); mm.erase(k); break;
      case 7: { auto v2 = v; CHECK(v2 == v); std::vector<Str, SA> v3(std::move(v2), SA(alloc)); std::swap(v, v3); v3.clear(); v3.shrink_to_fit(); break; }
    }
  }
  auto same = [](const Str &a, const std::string &b) { return std::string_view(a.data(), a.size()) == b; };
  CHECK(v.size() == mv.size() && l.size() == ml.size() && m.size() == mm.size());
  for (size_t i = 0; i < mv.size(); ++i) CHECK(same(v[i], mv[i]));
  { auto i = l.begin(); for (auto &s : ml) CHECK(same(*i++, s)); }
  { auto i = m.begin(); for (auto &[k, s] : mm) { CHECK(i->first == k && same(i->second, s)); ++i; } }
  if (n > 3) src.nontrivial();
}
}  // namespace

#ifdef CHECK_SCHED
namespace {
template <int kLeaf, int kCount, bool kOS>
void threads(pbt::Src &src) {
  using P = mem::Pool<kLeaf, kCount, 40, kOS, false>;
  struct Op { int what; size_t n; };
  struct Plan { std::vector<Op> ops; };
  int nt = src.range(2, 3); std::vector<Plan> plans(nt); int total = 0;
  for (auto &p : plans) { pbt::Src::Loop loop(src, 25); while (loop.more()) { p.ops.push_back({(int)src.below(5), src.chance(1, 6) ? src.below(kLeaf) : src.below(80)}); ++total; } }
  sched::start(src);
  {
    P pool; Live live; std::vector<Block> shared; int seed = 0;
    auto drop = [&](Block b) { verify(b); live.drop(b.p); pool.free(b.p); };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
      std::vector<Block> mine;
      for (auto &o : plans[t].ops) {
        if (o.what < 2) {
          auto p = (char *)pool.malloc(o.n); if (!p) { if (kOS) pbt::fail("an allocation of %zu bytes was refused although the system has memory", o.n); continue; }
          live.add(p, o.n); Block b; { sched::Quiet q; b = {p, o.n, (unsigned char)++seed}; } fill(b); mine.push_back(b);
        } else if (o.what == 2 && !mine.empty()) { Block b = mine[o.n % mine.size()]; mine.erase(mine.begin() + o.n % mine.size()); drop(b); }
        else if (o.what == 3 && !mine.empty()) { sched::Quiet q; shared.push_back(mine.back()); mine.pop_back(); }
        else if (o.what == 4) { Block b{}; { sched::Quiet q; if (!shared.empty()) { b = shared[o.n % shared.size()]; shared.erase(shared.begin() + o.n % shared.size()); } } if (b.p) drop(b); }
        for (auto &b : mine) verify(b);
      }
      for (auto &b : mine) { sched::point(); drop(b); }
    });
    for (auto &t : ts) t.join();
    sched::calm();
    for (auto &b : shared) drop(b);
    room_is_back<kLeaf, kCount, kOS>(pool);
  }
  if (total >= 3 && sched::stats().switches > 4) src.nontrivial();
}
}  // namespace
PROPERTY(one_leaf, {.weight = 2, .batch = 1, .hang_s = 60}) { threads<256, 1, false>(src); }
PROPERTY(two_leaves, {.weight = 2, .batch = 1, .hang_s = 60}) { threads<250, 2, false>(src); }
PROPERTY(with_system, {.weight = 1, .batch = 1, .hang_s = 60}) { threads<128, 2, true>(src); }
#else
PROPERTY(pool_os, {.weight = 2}) { history<512, 2, true, true>(src); }
PROPERTY(pool_own, {.weight = 2}) { history<777, 3, false, true>(src); }
PROPERTY(pool_quiet, {.weight = 2}) { history<256, 1, false, false>(src); }
PROPERTY(pool_quiet_os, {.weight = 2}) { history<1000, 4, true, false>(src); }
PROPERTY(containers_own, {.weight = 1}) {
  using P = mem::Pool<2048, 3, 100, true, true>; auto p = std::make_unique<P>();
  containers(src, mem::PoolAllocator<int, P>(p.get()));
}
PROPERTY(containers_default, {.weight = 1}) { containers(src, mem::PoolAllocator<int>()); }
PROPERTY(containers_instance, {.weight = 1}) { containers(src, mem::PoolAllocator<int, mem::Pool<4096, 2>>()); }
PROPERTY(stack, {.weight = 1}) {
  mem::StackAllocator<std::string> s; mem::StackAllocator<std::string, mem::PoolAllocator<std::string>> p; std::vector<std::string> m; pbt::Src::Loop loop(src, 100); int n = 0;
  while (loop.more()) {
    CHECK(s.empty() == m.empty() && p.empty() == m.empty()); if (!m.empty()) CHECK(s.top() == m.back() && p.top() == m.back());
    switch (src.below(5)) {
      case 0: case 1: case 2: { auto t = src.ascii(src.size(0, 60)); s.push(t); p.push(t); m.push_back(t); ++n; break; }
      case 3: if (!m.empty()) { CHECK(s.pop() == m.back()); CHECK(p.pop() == m.back()); m.pop_back(); } break;
      case 4: if (src.chance(1, 4)) { s.clear(); p.clear(); m.clear(); } break;
    }
  }
  if (n > 2) src.nontrivial();
}
#endif
