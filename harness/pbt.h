// Small property-based testing engine: choice-sequence generation, forked
// execution, generic shrinking and replay.  See /verif/DESIGN.md.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <sstream>

namespace pbt {

// A source of choices. Every random decision of a case is one draw(); the list
// of draws is the case (it is what gets shrunk and replayed).
class Src {
 public:
  Src(uint64_t seed, bool replay, std::vector<uint64_t> pre)
      : replay_(replay), pre_(std::move(pre)) { s_[0] = seed; mix(); }
  // Uniform in [0, max].
  uint64_t draw(uint64_t max);
  // Uniform in [lo, hi].
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
  }
  size_t below(size_t n) { return n ? static_cast<size_t>(draw(n - 1)) : 0; }
  bool flip() { return draw(1) != 0; }
  // True with probability ~ n/d (shrinks to false).
  bool chance(uint32_t n, uint32_t d) { return draw(d - 1) >= d - n; }
  // Weighted choice; shrinks to index 0.
  size_t pick(std::initializer_list<uint32_t> weights);
  // Size with a heavy small bias, in [lo, hi].
  size_t size(size_t lo, size_t hi);
  // 64-bit integer with boundary bias (random bit width).
  uint64_t bits(uint32_t width);
  std::string bytes(size_t n);            // arbitrary bytes
  std::string ascii(size_t n);            // printable ASCII
  template <typename T> const T &of(const std::vector<T> &v) { return v[below(v.size())]; }

  // Length of a history: call before each operation; shrinks to "stop".
  class Loop {
   public:
    Loop(Src &s, size_t cap) : s_(s), cap_(cap) { static const uint64_t avg[] = {4, 12, 30, 80}; avg_ = avg[s.draw(3)]; }
    bool more() { return i_++ < cap_ && s_.draw(avg_) != 0; }
    size_t count() const { return i_; }
   private:
    Src &s_; size_t cap_, i_ = 0; uint64_t avg_;
  };
  void nontrivial() { nontrivial_ = true; }
  void label(const char *name);           // classification counter
  void steps(uint64_t n) { steps_ += n; }
  // Free-form description of the case (kept for samples and replays only).
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool verbose() const { return verbose_; }

  // Engine side.
  std::vector<uint64_t> rec_;
  bool nontrivial_ = false, verbose_ = false;
  uint64_t steps_ = 0;
  std::string notes_;
 private:
  void mix();
  uint64_t next();
  bool replay_;
  std::vector<uint64_t> pre_;
  size_t pos_ = 0;
  uint64_t s_[4];
};

// Report a violation of the property: records the message and ends the case's
// process at once. Callable from any thread.
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Abandon the case without a verdict (counted; never a violation).
[[noreturn]] void inconclusive(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK_MSG(cond, ...) \
  do { if (!(cond)) { char pbt_b_[1024]; snprintf(pbt_b_, sizeof pbt_b_, __VA_ARGS__); \
    ::pbt::fail("%s [%s] at %s:%d", pbt_b_, #cond, __FILE__, __LINE__); } } while (0)
#define CHECK(cond) \
  do { if (!(cond)) ::pbt::fail("[%s] at %s:%d", #cond, __FILE__, __LINE__); } while (0)

struct Options {
  uint32_t weight = 1;      // share of the cases
  uint32_t batch = 500;     // cases per forked process (1 = fresh process each)
  double hang_s = 20;       // a case running longer than this is a hang
  uint64_t max_cases = 0;   // cap on this sub-property's cases (0 = none)
  bool hang_is_violation = true;
  uint64_t mem_mb = 0;      // reserved
};
struct Registrar {
  Registrar(const char *name, std::function<void(Src &)> fn, Options o = {});
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(name, ...) \
  static void PBT_CAT(prop_, name)(::pbt::Src &); \
  static ::pbt::Registrar PBT_CAT(reg_, name)(#name, PBT_CAT(prop_, name), ##__VA_ARGS__); \
  static void PBT_CAT(prop_, name)(::pbt::Src &src)

std::string hex(const void *p, size_t n, size_t max = 64);
inline std::string hex(const std::string &s, size_t max = 64) { return hex(s.data(), s.size(), max); }
int main(int argc, char **argv);

}  // namespace pbt
#endif
