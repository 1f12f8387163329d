// C01: buffers and byte streams are FIFO queues for every history of operations.
#include "pbt.h"
#include <deque>
#include <memory>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
#include "plain/basic/ring.h"
#include "plain/net/stream/basic.h"
#include "plain/net/socket/basic.h"

using pbt::Src;
namespace net = plain::net;
using Bytes = std::deque<unsigned char>;

static unsigned char g_tick;
static std::string payload(Src &src, size_t n) {
  // Position-dependent content: any reordering, loss or duplication shows.
  std::string s(n, 0);
  bool rnd = src.chance(1, 4);
  uint64_t x = rnd ? src.draw(UINT64_MAX) | 1 : 0;
  for (auto &c : s) { if (rnd) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = char(x); } else c = char(++g_tick * 167 + (g_tick >> 3)); }
  return s;
}

// --- dynamic byte stream ---------------------------------------------------
static size_t gen_size(Src &src) {
  switch (src.pick({4, 4, 2, 2, 1})) {
    case 0: return src.range(0, 16);
    case 1: return src.range(17, 140);
    case 2: { int64_t p = int64_t(64) << src.range(0, 6); return p + src.range(0, 4) - 2; }
    case 3: return src.range(0, 1200);
    default: return src.range(0, 9000);
  }
}
static void check_front(const unsigned char *got, size_t n, const Bytes &m, const char *what) {
  for (size_t i = 0; i < n; ++i)
    CHECK_MSG(got[i] == m[i], "%s returned wrong byte at %zu of %zu: got %02x want %02x", what, i, n, got[i], m[i]);
}
static void drop(Bytes &m, size_t n) { m.erase(m.begin(), m.begin() + n); }

PROPERTY(byte_stream, pbt::Options{.weight = 4}) {
  g_tick = 0;
  net::stream::Basic st(nullptr);
  Bytes m;
  bool wrapped_growth = false; size_t removed = 0;
  for (Src::Loop ops(src, 200); ops.more();) {
    switch (src.pick({6, 3, 3, 2, 2, 2, 1, 2, 2})) {
      case 0: {  // write
        auto d = payload(src, gen_size(src));
        size_t r = 0; size_t how = src.below(3);
        if (how == 0) r = st.write(std::string_view(d));
        else if (how == 1) { plain::bytes_t b(reinterpret_cast<const std::byte *>(d.data()), d.size()); r = st.write(b); }
        else r = st.write(plain::const_byte_span_t(reinterpret_cast<const std::byte *>(d.data()), d.size()));
        src.note("write(%zu bytes) -> %zu", d.size(), r);
        CHECK_MSG(r == d.size(), "write of %zu accepted %zu", d.size(), r);
        if (removed && !m.empty() && m.size() + d.size() > 128) wrapped_growth = true;
        m.insert(m.end(), d.begin(), d.end());
        break; }
      case 1: {  // read raw
        size_t n = gen_size(src); std::vector<std::byte> b(n + 8, std::byte{0xEE});
        size_t r = st.read(b.data(), n); size_t want = std::min(n, m.size());
        src.note("read(%zu) -> %zu", n, r);
        CHECK_MSG(r == want, "read(%zu) with %zu buffered returned %zu", n, m.size(), r);
        check_front(reinterpret_cast<unsigned char *>(b.data()), r, m, "read");
        for (size_t i = r; i < b.size(); ++i) CHECK(b[i] == std::byte{0xEE});
        drop(m, r); removed += r;
        break; }
      case 2: {  // peek
        size_t n = gen_size(src); std::vector<std::byte> b(n + 1);
        size_t r = st.peek(b.data(), n); size_t want = std::min(n, m.size());
        src.note("peek(%zu) -> %zu", n, r);
        CHECK_MSG(r == want, "peek(%zu) with %zu buffered returned %zu", n, m.size(), r);
        check_front(reinterpret_cast<unsigned char *>(b.data()), r, m, "peek");
        break; }
      case 3: {  // remove
        size_t n = gen_size(src); size_t r = st.remove(n); size_t want = std::min(n, m.size());
        src.note("remove(%zu) -> %zu", n, r);
        CHECK_MSG(r == want, "remove(%zu) with %zu buffered returned %zu", n, m.size(), r);
        drop(m, r); removed += r;
        break; }
      case 4: {  // read into string / bytes: fills up to its size
        size_t n = gen_size(src); size_t want = std::min(n, m.size()), r;
        if (src.flip()) { std::string s(n, 'x'); r = st.read(s); CHECK(r == want); check_front(reinterpret_cast<unsigned char *>(s.data()), r, m, "read(string)"); }
        else { plain::bytes_t s(n, std::byte{1}); r = st.read(s); CHECK(r == want); check_front(reinterpret_cast<unsigned char *>(s.data()), r, m, "read(bytes)"); }
        src.note("read(container of %zu) -> %zu", n, r);
        drop(m, r); removed += r;
        break; }
      case 5: {  // scalar in network order
        uint64_t v = src.bits(64); int w = src.below(4);
        auto put = [&](auto x) { st << x; for (int i = sizeof(x) - 1; i >= 0; --i) m.push_back((unsigned char)(uint64_t(x) >> (8 * i))); };
        if (w == 0) put(uint8_t(v)); else if (w == 1) put(int16_t(v)); else if (w == 2) put(uint32_t(v)); else put(int64_t(v));
        src.note("<< scalar%d %llx", 8 << w, (unsigned long long)v);
        break; }
      case 6:
        if (src.chance(1, 3)) { st.clear(); m.clear(); src.note("clear"); }
        break;
      case 7: {  // scalar out
        int w = src.below(4);
        auto get = [&](auto x) {
          using T = decltype(x);
          if (m.size() < sizeof(T)) return;  // short reads of a scalar are outside the contract
          uint64_t want = 0; for (size_t i = 0; i < sizeof(T); ++i) want = want << 8 | m[i];
          T got{}; st >> got; src.note(">> scalar%zu", sizeof(T) * 8);
          CHECK_MSG(got == T(want), "scalar read mismatch: got %llx want %llx", (unsigned long long)got, (unsigned long long)want);
          drop(m, sizeof(T)); removed += sizeof(T);
        };
        if (w == 0) get(uint8_t{}); else if (w == 1) get(int16_t{}); else if (w == 2) get(uint32_t{}); else get(int64_t{});
        break; }
      default: {  // large burst then partial drain: forces growth with an offset
        auto d = payload(src, src.range(100, 600));
        CHECK(st.write(std::string_view(d)) == d.size());
        if (removed && !m.empty()) wrapped_growth = true;
        m.insert(m.end(), d.begin(), d.end());
        size_t n = src.range(0, 99); size_t r = st.remove(n); drop(m, r); removed += r;
        src.note("burst write %zu, remove %zu", d.size(), n);
      }
    }
    CHECK_MSG(st.size() == m.size(), "size() is %zu, want %zu", st.size(), m.size());
    CHECK(st.empty() == m.empty());
    src.steps(1);
  }
  std::vector<std::byte> all(m.size() + 3);
  CHECK(st.read(all.data(), all.size()) == m.size());
  check_front(reinterpret_cast<unsigned char *>(all.data()), m.size(), m, "final drain");
  CHECK(st.empty());
  if (removed) src.nontrivial();
  if (wrapped_growth) src.label("grown_while_offset");
}

// --- rings of elements -----------------------------------------------------
template <typename R, typename T>
static void ring_case(Src &src, R &ring, size_t cap /* 0 = grows */) {
  std::deque<T> m; T next = 1; size_t base_cap = ring.size();
  auto full_cap = [&]() { return cap ? cap : size_t(-1); };
  bool removed = false, grown = false;
  if (cap) CHECK(ring.size() == cap);
  for (Src::Loop ops(src, 200); ops.more();) {
    switch (src.pick({5, 4, 3, 3, 2, 2, 1, 2})) {
      case 0: { T v = next; bool r = src.flip() ? ring.insert(v) : ring.insert(&v); bool want = m.size() < full_cap();
        src.note("insert -> %d", r); CHECK_MSG(r == want, "insert with %zu of %zu held returned %d", m.size(), full_cap(), r);
        if (r) { m.push_back(v); ++next; } break; }
      case 1: { T v{}; bool r = src.flip() ? ring.remove(v) : ring.remove(&v); src.note("remove one -> %d", r);
        CHECK(r == !m.empty()); if (r) { CHECK_MSG(v == m.front(), "removed %lld want %lld", (long long)v, (long long)m.front()); m.pop_front(); removed = true; } break; }
      case 2: { size_t n = src.size(0, base_cap * 3); std::vector<T> v(n + 1); for (size_t i = 0; i < n; ++i) v[i] = next++; bool full = src.flip();
        size_t r = ring.write(v.data(), n, full); size_t freeN = cap ? cap - m.size() : n; size_t want = n <= freeN ? n : (full ? 0 : freeN);
        src.note("write(%zu, full=%d) -> %zu", n, full, r);
        CHECK_MSG(r == want, "write(%zu,full=%d) with %zu free returned %zu", n, full, freeN, r);
        m.insert(m.end(), v.begin(), v.begin() + r); break; }
      case 3: { size_t n = src.size(0, base_cap * 3); std::vector<T> v(n + 1); bool ro = src.flip(); size_t r = ring.read(v.data(), n, ro);
        src.note("read(%zu, peek=%d) -> %zu", n, ro, r);
        CHECK(r == std::min(n, m.size())); for (size_t i = 0; i < r; ++i) CHECK_MSG(v[i] == m[i], "read element %zu: got %lld want %lld", i, (long long)v[i], (long long)m[i]);
        if (!ro) { m.erase(m.begin(), m.begin() + r); removed |= r > 0; } break; }
      case 4: { size_t n = src.size(0, base_cap * 2); size_t r = ring.remove(n); src.note("drop(%zu) -> %zu", n, r); CHECK(r == std::min(n, m.size()));
        m.erase(m.begin(), m.begin() + r); removed |= r > 0; break; }
      case 5: { size_t i = src.size(0, base_cap * 2); T *p = ring.at(i); CHECK((p != nullptr) == (i < m.size())); if (p) { CHECK(*p == m[i]); CHECK(ring[i] == m[i]); } break; }
      case 6: { if (!src.chance(1, 3)) break; switch (src.below(3)) { case 0: ring.clear(); break; case 1: ring.consumer_clear(); break; default: ring.producer_clear(); } m.clear(); src.note("clear"); break; }
      default: { size_t n = src.size(0, base_cap * 2); T *p = ring.peek(n); CHECK((p != nullptr) == (n <= m.size())); if (p && !m.empty()) CHECK(*p == m.front()); break; }
    }
    CHECK_MSG(ring.read_avail() == m.size(), "read_avail %zu want %zu", ring.read_avail(), m.size());
    CHECK(ring.empty() == m.empty());
    CHECK(ring.write_avail() == ring.size() - m.size());
    CHECK(ring.full() == (m.size() == ring.size()));
    if (cap) CHECK(ring.size() == cap);
    if (ring.size() > base_cap && removed) grown = true;
    src.steps(1);
  }
  while (!m.empty()) { T v{}; CHECK(ring.remove(v)); CHECK(v == m.front()); m.pop_front(); }
  T v{}; CHECK(!ring.remove(v));
  if (removed) src.nontrivial();
  if (grown) src.label("ring_grown_after_removal");
}
PROPERTY(ring_of_elements, pbt::Options{.weight = 3}) {
  switch (src.below(5)) {
    case 0: { plain::DynamicRing<int, 4> r; ring_case<decltype(r), int>(src, r, 0); break; }
    case 1: { plain::DynamicRing<uint8_t, 16> r; ring_case<decltype(r), uint8_t>(src, r, 0); break; }
    case 2: { plain::FixedRing<int, 8> r; ring_case<decltype(r), int>(src, r, 8); break; }
    case 3: { plain::FixedRing<int64_t, 1> r; ring_case<decltype(r), int64_t>(src, r, 1); break; }
    default: { plain::FixedRing<uint16_t, 64, true> r; ring_case<decltype(r), uint16_t>(src, r, 64); break; }
  }
}

// --- streams across a socket -----------------------------------------------
PROPERTY(stream_over_socket, pbt::Options{.weight = 1, .batch = 100}) {
  g_tick = 0;
  int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) pbt::inconclusive("socketpair");
  bool small = src.flip();
  if (small) for (int f : fd) { int sz = 1; setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); setsockopt(f, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
  for (int f : fd) fcntl(f, F_SETFL, O_NONBLOCK);
  auto a = std::make_shared<net::socket::Basic>(fd[0]), b = std::make_shared<net::socket::Basic>(fd[1]);
  net::stream::Basic out(a), in(b);
  Bytes sent, inside; size_t nops = 0; size_t partial = 0;
  auto do_push = [&]() { size_t before = out.size(); int32_t r = out.push(); src.note("push -> %d", r); CHECK_MSG(r >= 0, "push failed: %d", r);
    CHECK_MSG(out.size() == before - r, "push reported %d but %zu -> %zu buffered", r, before, out.size()); if (r > 0 && out.size()) ++partial; return r; };
  auto do_pull = [&]() { size_t before = in.size(); int32_t r = in.pull(); src.note("pull -> %d", r); CHECK_MSG(r >= 0, "pull failed: %d", r); CHECK(in.size() == before + r); return r; };
  for (Src::Loop ops(src, 60); ops.more(); ++nops) {
    switch (src.pick({3, 3, 3, 2})) {
      case 0: { auto d = payload(src, src.size(0, small ? 9000 : 60000)); CHECK(out.write(std::string_view(d)) == d.size()); sent.insert(sent.end(), d.begin(), d.end()); src.note("write %zu", d.size()); break; }
      case 1: do_push(); break;
      case 2: do_pull(); break;
      default: { std::vector<std::byte> v(src.size(0, 4000) + 1); size_t r = in.read(v.data(), v.size() - 1); CHECK(r <= sent.size()); check_front(reinterpret_cast<unsigned char *>(v.data()), r, sent, "received"); drop(sent, r); }
    }
    src.steps(1);
  }
  for (int k = 0; k < 100000 && (!out.empty() || in.size() < sent.size()); ++k) { do_push(); do_pull(); }
  CHECK_MSG(in.size() == sent.size(), "%zu bytes arrived, %zu outstanding", in.size(), sent.size());
  std::vector<std::byte> v(sent.size() + 1); CHECK(in.read(v.data(), v.size()) == sent.size());
  check_front(reinterpret_cast<unsigned char *>(v.data()), sent.size(), sent, "received");
  CHECK(in.pull() == 0);
  a->close();
  CHECK_MSG(in.pull() < 0, "end of stream was not reported");
  if (nops > 2) src.nontrivial();
  if (partial) src.label("partial_send");
}
