// C05: every value survives packing and unpacking. C06: unpacking arbitrary or
// truncated bytes is safe, bounded and reported.
#include "pbt.h"
#include <array>
#include <chrono>
#include <cmath>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <unordered_map>
#include <bit>
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/rpc/utility.h"
using pbt::Src;
using plain::net::rpc::Packer;
using plain::net::rpc::Unpacker;
using plain::ErrorCode;

struct Inner { int32_t a = 0; std::string b; std::vector<double> c;
  template <class T> void pack(T &p) { p(a, b, c); }
  bool operator==(const Inner &) const = default; };
struct Outer { uint64_t id = 0; Inner in; std::map<std::string, std::vector<int16_t>> m; bool flag = false; std::vector<uint8_t> bin; float f = 0;
  template <class T> void pack(T &p) { p(id, in, m, flag, bin, f); }
  bool operator==(const Outer &o) const { return id == o.id && in == o.in && m == o.m && flag == o.flag && bin == o.bin && (f == o.f || (std::isnan(f) && std::isnan(o.f))); } };
using TimePoint = std::chrono::time_point<std::chrono::system_clock>;

static thread_local int g_budget;
template <typename T> struct Gen;
template <typename T> T gen(Src &s) { return Gen<T>::make(s); }
static size_t csize(Src &s) {  // container length around the encoding's boundaries
  if (g_budget <= 0) return s.draw(2);
  size_t n;
  switch (s.pick({8, 4, 2, 1})) { case 0: n = s.draw(5); break; case 1: n = 13 + s.draw(6); break; case 2: n = 28 + s.draw(8); break; default: n = s.draw(400); }
  g_budget -= int(n) + 1; return n;
}
static size_t ssize(Src &s) {
  switch (s.pick({8, 4, 3, 1})) { case 0: return s.draw(8); case 1: return 28 + s.draw(8); case 2: return 250 + s.draw(10);
    default: { if (g_budget < 0) return 3; g_budget -= 1000; return 65530 + s.draw(12); } }
}
template <typename T> requires std::is_integral_v<T> struct Gen<T> { static T make(Src &s) { if (s.chance(1, 4)) return T(s.draw(40)); return T(s.bits(sizeof(T) * 8)); } };
template <> struct Gen<bool> { static bool make(Src &s) { return s.flip(); } };
template <typename F, typename U> static F gen_float(Src &s, int mant, int ebits) {
  switch (s.pick({3, 3, 2, 2, 2})) {
    case 0: return F(s.range(-1000, 1000)) / F(1 << s.draw(6));
    case 1: return std::bit_cast<F>(U(s.bits(sizeof(F) * 8)));
    case 2: return F(int64_t(s.bits(64)));
    case 3: { U e = s.draw((1u << ebits) - 1); U m = U(s.bits(mant)); return std::bit_cast<F>(U((U(s.draw(1)) << (mant + ebits)) | (e << mant) | m)); }
    default: { F v[] = {F(0), F(-0.0), F(INFINITY), F(-INFINITY), F(NAN), std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), F(0.5), F(-0.25), F(9223372036854775808.0), F(-9223372036854775808.0), F(1e-3), F(18446744073709551616.0)}; return v[s.below(sizeof v / sizeof *v)]; }
  }
}
template <> struct Gen<float> { static float make(Src &s) { return gen_float<float, uint32_t>(s, 23, 8); } };
template <> struct Gen<double> { static double make(Src &s) { return gen_float<double, uint64_t>(s, 52, 11); } };
template <> struct Gen<std::string> { static std::string make(Src &s) { size_t n = ssize(s); return s.bytes(n); } };
template <typename T> struct Gen<std::vector<T>> { static std::vector<T> make(Src &s) { std::vector<T> v; if constexpr (std::is_same_v<T, uint8_t>) { auto b = s.bytes(ssize(s)); v.assign(b.begin(), b.end()); } else { size_t n = csize(s); for (size_t i = 0; i < n; ++i) v.push_back(gen<T>(s)); } return v; } };
template <typename T> struct Gen<std::list<T>> { static std::list<T> make(Src &s) { std::list<T> v; size_t n = csize(s); for (size_t i = 0; i < n; ++i) v.push_back(gen<T>(s)); return v; } };
template <typename T> struct Gen<std::set<T>> { static std::set<T> make(Src &s) { std::set<T> v; size_t n = csize(s); for (size_t i = 0; i < n; ++i) v.insert(gen<T>(s)); return v; } };
template <typename K, typename V> struct Gen<std::map<K, V>> { static std::map<K, V> make(Src &s) { std::map<K, V> v; size_t n = csize(s); for (size_t i = 0; i < n; ++i) { auto k = gen<K>(s); v[k] = gen<V>(s); } return v; } };
template <typename K, typename V> struct Gen<std::unordered_map<K, V>> { static std::unordered_map<K, V> make(Src &s) { std::unordered_map<K, V> v; size_t n = csize(s); for (size_t i = 0; i < n; ++i) { auto k = gen<K>(s); v[k] = gen<V>(s); } return v; } };
template <typename T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make(Src &s) { std::array<T, N> v; for (auto &x : v) x = gen<T>(s); return v; } };
template <typename... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> make(Src &s) { return std::tuple<A...>{gen<A>(s)...}; } };
template <> struct Gen<Inner> { static Inner make(Src &s) { Inner i; i.a = gen<int32_t>(s); i.b = gen<std::string>(s); i.c = gen<std::vector<double>>(s); return i; } };
template <> struct Gen<Outer> { static Outer make(Src &s) { Outer o; o.id = gen<uint64_t>(s); o.in = gen<Inner>(s); o.m = gen<decltype(o.m)>(s); o.flag = s.flip(); o.bin = gen<std::vector<uint8_t>>(s); o.f = gen<float>(s); return o; } };
template <> struct Gen<TimePoint> { static TimePoint make(Src &s) { return TimePoint(TimePoint::duration(int64_t(s.bits(64)))); } };

// Exact equality; floating point by representation except that any NaN equals any NaN.
template <typename T> bool same(const T &a, const T &b) {
  if constexpr (std::is_same_v<T, float>) return (std::isnan(a) && std::isnan(b)) || std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b);
  else if constexpr (std::is_same_v<T, double>) return (std::isnan(a) && std::isnan(b)) || std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b);
  else if constexpr (std::is_same_v<T, Inner>) return a.a == b.a && a.b == b.b && same(a.c, b.c);
  else if constexpr (std::is_same_v<T, Outer>) return a.id == b.id && same(a.in, b.in) && a.m == b.m && a.flag == b.flag && a.bin == b.bin && same(a.f, b.f);
  else if constexpr (requires { typename T::mapped_type; }) { if (a.size() != b.size()) return false; for (auto &[k, v] : a) { auto it = b.find(k); if (it == b.end() || !same(v, it->second)) return false; } return true; }
  else if constexpr (requires { std::tuple_size<T>::value; a.size(); }) { for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
  else if constexpr (requires { std::tuple_size<T>::value; }) return [&]<size_t... I>(std::index_sequence<I...>) { return (same(std::get<I>(a), std::get<I>(b)) && ...); }(std::make_index_sequence<std::tuple_size_v<T>>{});
  else if constexpr (requires { a.begin(); } && !std::is_same_v<T, std::string>) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) { typename T::value_type x = *i, y = *j; if (!same(x, y)) return false; } return true; }
  else return a == b;
}

template <typename F> static void with_type(Src &src, F f) {
  switch (src.below(34)) {
#define TY(n, ...) case n: { using T = __VA_ARGS__; src.note("type %s", #__VA_ARGS__); f.template operator()<T>(); break; }
    TY(0, int8_t) TY(1, int16_t) TY(2, int32_t) TY(3, int64_t) TY(4, uint8_t) TY(5, uint16_t) TY(6, uint32_t) TY(7, uint64_t)
    TY(8, bool) TY(9, float) TY(10, double) TY(11, std::string) TY(12, std::vector<uint8_t>) TY(13, std::vector<int32_t>)
    TY(14, std::vector<std::string>) TY(15, std::list<int64_t>) TY(16, std::set<uint16_t>) TY(17, std::map<std::string, int32_t>)
    TY(18, std::unordered_map<uint32_t, std::string>) TY(19, std::array<int16_t, 4>) TY(20, std::array<uint64_t, 17>)
    TY(21, std::tuple<int32_t, std::string, double>) TY(22, Inner) TY(23, Outer) TY(24, std::vector<std::vector<uint8_t>>)
    TY(25, std::map<int64_t, std::map<std::string, std::vector<uint16_t>>>) TY(26, std::vector<Inner>) TY(27, std::list<std::tuple<uint8_t, bool>>)
    TY(28, TimePoint) TY(29, std::vector<bool>) TY(30, std::vector<float>) TY(31, std::set<std::string>) TY(32, std::vector<uint64_t>) TY(33, std::tuple<uint64_t, uint32_t, uint16_t, uint8_t, int64_t, int32_t, int16_t, int8_t>)
  }
}

#ifdef CHECK_ROUNDTRIP
PROPERTY(sequence_roundtrip, pbt::Options{.weight = 3}) {
  // A sequence of values of random types in one message; each must come back
  // and the decoder must stand exactly at the next value.
  g_budget = 600; Packer p; std::vector<std::function<void(Unpacker &)>> readers; size_t n = 0;
  std::vector<size_t> sizes;
  for (Src::Loop l(src, 20); l.more(); ++n) with_type(src, [&]<typename T>() {
    auto v = std::make_shared<T>(gen<T>(src)); size_t before = p.vector().size();
    p.process(*v);
    src.note("  -> %s", pbt::hex(p.vector().data() + before, p.vector().size() - before, 24).c_str());
    CHECK_MSG(p.vector().size() > before, "value %zu packed to nothing", n);
    bool dirty = src.flip();
    readers.push_back([v, n, dirty, &src](Unpacker &u) {
      T got{};
      // A target that already holds another number must simply be overwritten.
      if constexpr (std::is_arithmetic_v<T>) if (dirty) got = T(0x5a5a5a5a);
      if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) { if (!dirty && (n & 1)) got = u.template as<T>(); else u.process(got); } else u.process(got);
      CHECK_MSG(!u.error_, "value %zu: decoder reports error %d", n, u.error_.code());
      CHECK_MSG(same(got, *v), "value %zu differs after the round trip", n);
    });
    src.steps(1);
  });
  auto wire = p.vector(); std::vector<uint8_t> exact(wire);  // exact-size copy: overruns are visible
  Unpacker u; if (src.flip()) u.set_data(exact.data(), exact.size()); else u = Unpacker(exact.data(), exact.size());
  for (auto &r : readers) r(u);
  CHECK_MSG(!u.error_, "error after all values");
  u.data();  // one past the end must be reported
  CHECK_MSG(u.error_ == ErrorCode::OutOfRange, "the decoder did not consume the whole message");
  p.clear(); CHECK(p.vector().empty());
  if (n >= 1) src.nontrivial();
}
PROPERTY(object_roundtrip, pbt::Options{.weight = 1}) {
  g_budget = 400; Outer o = gen<Outer>(src);
  auto b = plain::net::rpc::pack(o); plain::Error e; auto r = plain::net::rpc::unpack<Outer>(b, e);
  CHECK_MSG(!e, "error %d", e.code()); CHECK_MSG(same(r, o), "object differs after the round trip");
  src.note("object id=%llu map=%zu bin=%zu", (unsigned long long)o.id, o.m.size(), o.bin.size());
  src.nontrivial();
}
PROPERTY(size_boundaries, pbt::Options{.weight = 1, .batch = 20, .max_cases = 3000}) {
  // Lengths around every length-prefix boundary.
  static const size_t edge[] = {0, 15, 16, 31, 32, 254, 255, 256, 65534, 65535, 65536, 70000};
  size_t n = edge[src.below(12)]; if (src.flip() && n) n += src.draw(2) - 1;
  int kind = src.below(5); Packer p; src.note("kind %d length %zu", kind, n);
  auto tail = uint32_t(src.bits(32));
  auto run = [&](auto v) { p.process(v, tail); std::vector<uint8_t> w(p.vector()); Unpacker u(w.data(), w.size()); decltype(v) g{}; uint32_t t = 0; u.process(g, t); CHECK_MSG(!u.error_, "error %d at length %zu", u.error_.code(), n); CHECK_MSG(same(g, v), "length %zu differs (%zu)", n, g.size()); CHECK_MSG(t == tail, "value after length %zu differs", n); };
  switch (kind) {
    case 0: run(src.bytes(n)); break;
    case 1: { auto b = src.bytes(n); run(std::vector<uint8_t>(b.begin(), b.end())); break; }
    case 2: { std::vector<int16_t> v(n); int16_t k = int16_t(src.bits(16)); for (auto &x : v) x = k++; run(v); break; }
    case 3: { std::map<uint32_t, int8_t> v; uint32_t k = uint32_t(src.bits(16)); for (size_t i = 0; i < n; ++i) v[k + i * 7] = int8_t(i); run(v); break; }
    default: { std::list<bool> v(n, src.flip()); run(v); break; }
  }
  src.nontrivial();
}
#endif

#ifdef CHECK_HOSTILE
template <typename T> static size_t weight(const T &v) {  // elements held by a decoded value
  if constexpr (std::is_same_v<T, std::string>) return v.size();
  else if constexpr (std::is_same_v<T, Inner>) return 1 + weight(v.b) + weight(v.c);
  else if constexpr (std::is_same_v<T, Outer>) return 1 + weight(v.in) + weight(v.m) + weight(v.bin);
  else if constexpr (requires { typename T::mapped_type; }) { size_t n = 0; for (auto &[k, x] : v) n += 1 + weight(k) + weight(x); return n; }
  else if constexpr (requires { std::tuple_size<T>::value; }) return 1;
  else if constexpr (requires { v.begin(); }) { size_t n = 0; for (auto it = v.begin(); it != v.end(); ++it) { typename T::value_type x = *it; n += 1 + weight(x); } return n; }
  else return 1;
}
PROPERTY(arbitrary_bytes, pbt::Options{.weight = 3, .hang_s = 10}) {
  // Random bytes biased to type tags and lengths.
  std::vector<uint8_t> b;
  for (Src::Loop l(src, 40); l.more();) switch (src.pick({4, 3, 2, 1})) {
    case 0: b.push_back(src.draw(26)); break;
    case 1: b.push_back(src.draw(255)); break;
    case 2: b.push_back(0x80 | src.draw(0x7f)); break;
    default: { uint8_t t[] = {15, 21, 23, 25, 14, 20, 22, 24}; b.push_back(t[src.below(8)]); uint32_t n = uint32_t(src.bits(32)); for (int i = 3; i >= 0; --i) b.push_back(uint8_t(n >> (8 * i))); }
  }
  src.note("bytes %s", pbt::hex(b.data(), b.size(), 120).c_str());
  std::vector<uint8_t> exact(b); Unpacker u(exact.data(), exact.size()); size_t n = 0;
  for (Src::Loop l(src, 8); l.more(); ++n) with_type(src, [&]<typename T>() {
    bool had = bool(u.error_); T v{}; u.process(v);
    size_t w = weight(v);
    CHECK_MSG(w <= b.size() * 2 + 64, "%zu bytes decoded to a value of %zu elements", b.size(), w);
    if (had) CHECK_MSG(bool(u.error_), "an earlier error was forgotten");
    if (!u.error_) {  // what was accepted is a value like any other
      Packer p; p.process(v); std::vector<uint8_t> w2(p.vector()); Unpacker u2(w2.data(), w2.size()); T v2{}; u2.process(v2);
      CHECK_MSG(!u2.error_ && same(v, v2), "an accepted value does not survive a round trip");
      src.label("accepted");
    } else src.label("rejected");
  });
  if (n && !b.empty()) src.nontrivial();
}
PROPERTY(truncated_message, pbt::Options{.weight = 3, .hang_s = 10}) {
  // Every strict prefix of a valid message is reported as out of range.
  g_budget = 60;
  with_type(src, [&]<typename T>() {
    T v = gen<T>(src); Packer p; p.process(v); size_t n = p.vector().size();
    size_t cut = n <= 1 ? 0 : src.flip() ? src.draw(n - 1) : n - 1 - src.draw(std::min<size_t>(n - 1, 8)); 
    std::vector<uint8_t> part(p.vector().begin(), p.vector().begin() + cut);
    Unpacker u(part.data(), part.size()); T g{}; u.process(g);
    src.note("%zu of %zu bytes", cut, n);
    CHECK_MSG(u.error_ == ErrorCode::OutOfRange, "%zu of %zu bytes were accepted (error %d)", cut, n, u.error_.code());
    if (n > 1) src.nontrivial();
  });
}
PROPERTY(mutated_message, pbt::Options{.weight = 3, .hang_s = 10}) {
  g_budget = 60;
  with_type(src, [&]<typename T>() {
    T v = gen<T>(src); Packer p; p.process(v); std::vector<uint8_t> w(p.vector());
    for (size_t k = 1 + src.draw(3); k && !w.empty(); --k) switch (src.below(3)) {
      case 0: w[src.below(std::min<size_t>(w.size(), 12))] = uint8_t(src.draw(255)); break;
      case 1: w[src.below(w.size())] ^= uint8_t(1 << src.draw(7)); break;
      default: w.erase(w.begin() + src.below(w.size())); }
    std::vector<uint8_t> exact(w); Unpacker u(exact.data(), exact.size()); T g{}; u.process(g); size_t q = weight(g);
    src.note("mutated %s", pbt::hex(w.data(), w.size(), 60).c_str());
    CHECK_MSG(q <= w.size() * 2 + 64, "%zu bytes decoded to a value of %zu elements", w.size(), q);
    src.nontrivial();
  });
}
#endif
