// Engine of pbt.h. Cases run in forked children; this process only schedules,
// confirms, shrinks and reports.
#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <sys/syscall.h>

namespace pbt {

static double now_s() {  // Raw system call: harnesses may virtualise the clock.
  struct timespec t;
#ifdef SYS_clock_gettime
  long r;
  register long rax asm("rax") = SYS_clock_gettime;
  asm volatile("syscall" : "+r"(rax) : "D"((long)CLOCK_MONOTONIC), "S"(&t) : "rcx", "r11", "memory");
  r = rax; (void)r;
#else
  clock_gettime(CLOCK_MONOTONIC, &t);
#endif
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void raw_sleep_us(long us) { poll(nullptr, 0, us / 1000 > 0 ? us / 1000 : 1); }

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

constexpr size_t kMaxRec = 1 << 18, kMaxHash = 1 << 20, kMaxLabels = 96, kMaxMsg = 4096, kMaxNotes = 1 << 16;

struct Slot {
  std::atomic<uint64_t> case_idx;
  std::atomic<uint64_t> start_us;   // of the current case
  std::atomic<uint64_t> done;       // cases finished by the current process
  std::atomic<uint32_t> failed;     // 0 none, 1 fail, 2 inconclusive
  char msg[kMaxMsg];
  std::atomic<uint64_t> nrec;
  uint64_t rec[kMaxRec];
  char notes[kMaxNotes];
};
struct Shared {
  std::atomic<uint64_t> evaluations, nontrivial, steps, nhash;
  std::atomic<uint32_t> nlabels;
  struct { char name[48]; std::atomic<uint64_t> n; } labels[kMaxLabels];
  struct { uint32_t sub; uint64_t idx; } samples[64];
  std::atomic<uint32_t> nsamples;
  struct { uint64_t h; } hash[kMaxHash];
};
static Shared *g_sh;
static Slot *g_slots;
static Slot *g_cur;          // child side
static Src *g_src;

struct Sub { std::string name; std::function<void(Src &)> fn; Options o; uint64_t next = 0, done = 0; };
static std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
Registrar::Registrar(const char *name, std::function<void(Src &)> fn, Options o) { subs().push_back({name, std::move(fn), o}); }

void Src::mix() { uint64_t x = s_[0]; for (auto &s : s_) s = splitmix(x); }
uint64_t Src::next() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45);
  return r;
}
uint64_t Src::draw(uint64_t max) {
  uint64_t v;
  if (replay_) v = pos_ < pre_.size() ? std::min(pre_[pos_], max) : 0;
  else v = max == UINT64_MAX ? next() : next() % (max + 1);
  ++pos_;
  if (g_cur) {
    uint64_t n = g_cur->nrec.load(std::memory_order_relaxed);
    if (n < kMaxRec) { g_cur->rec[n] = v; g_cur->nrec.store(n + 1, std::memory_order_relaxed); }
  }
  return v;
}
size_t Src::pick(std::initializer_list<uint32_t> w) {
  uint64_t tot = 0; for (auto x : w) tot += x;
  uint64_t v = draw(tot - 1); size_t i = 0;
  for (auto x : w) { if (v < x) return i; v -= x; ++i; }
  return w.size() - 1;
}
size_t Src::size(size_t lo, size_t hi) {
  size_t span = hi - lo;
  switch (draw(5)) {
    case 0: case 1: return lo + draw(std::min<size_t>(span, 4));
    case 2: return lo + draw(std::min<size_t>(span, 24));
    case 3: { int b = 0; while ((span >> b) > 1) ++b; size_t k = draw(b); size_t m = std::min<size_t>(span, (size_t(2) << k) - 1); return lo + draw(m); }
    case 4: return lo + draw(span);
    default: { size_t k = draw(std::min<size_t>(span, 2)); return hi - k; }
  }
}
uint64_t Src::bits(uint32_t width) {
  uint64_t mask = width >= 64 ? ~0ull : (1ull << width) - 1;
  switch (draw(3)) {
    case 0: { uint32_t b = draw(width); return b == 0 ? 0 : (draw(b >= 64 ? ~0ull : (1ull << b) - 1)); }
    case 1: { uint32_t b = draw(width); int64_t d = static_cast<int64_t>(draw(4)) - 2; return ((b >= 64 ? 0 : (1ull << b)) + d) & mask; }
    case 2: { uint32_t b = draw(width); int64_t d = static_cast<int64_t>(draw(4)) - 2; return (0 - (b >= 64 ? 0 : (1ull << b)) + d) & mask; }
    default: return draw(mask);
  }
}
std::string Src::bytes(size_t n) {
  std::string s(n, 0);
  if (n <= 64) { for (auto &c : s) c = static_cast<char>(draw(255)); }
  else { uint64_t x = draw(UINT64_MAX); for (auto &c : s) c = static_cast<char>(splitmix(x)); }
  return s;
}
std::string Src::ascii(size_t n) {
  std::string s(n, 0);
  if (n <= 64) { for (auto &c : s) c = static_cast<char>('a' + draw(25)); if (n && chance(1, 4)) s[below(n)] = static_cast<char>(32 + draw(94)); }
  else { uint64_t x = draw(UINT64_MAX); for (auto &c : s) c = static_cast<char>(33 + splitmix(x) % 94); }
  return s;
}
void Src::label(const char *name) {
  for (uint32_t i = 0; i < kMaxLabels; ++i) {
    if (i == g_sh->nlabels.load()) {
      // Racy creation between workers is resolved by the merge in the report.
      uint32_t k = g_sh->nlabels.fetch_add(1);
      if (k >= kMaxLabels) { g_sh->nlabels.store(kMaxLabels); return; }
      snprintf(g_sh->labels[k].name, sizeof g_sh->labels[k].name, "%s", name);
      g_sh->labels[k].n.fetch_add(1);
      return;
    }
    if (!strncmp(g_sh->labels[i].name, name, sizeof g_sh->labels[i].name - 1)) { g_sh->labels[i].n.fetch_add(1); return; }
  }
}
void Src::note(const char *fmt, ...) {
  if (!verbose_) return;
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  notes_ += b; notes_ += '\n';
  if (g_cur) { size_t n = std::min(notes_.size(), kMaxNotes - 1); memcpy(g_cur->notes, notes_.data(), n); g_cur->notes[n] = 0; }
}

static void end_case(uint32_t code, int ex, const char *fmt, va_list ap) {
  if (g_cur && g_cur->failed.load() == 0) {
    vsnprintf(g_cur->msg, kMaxMsg, fmt, ap);
    g_cur->failed.store(code);
  }
  syscall(SYS_exit_group, ex);
  _exit(ex);
}
void fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); end_case(1, 101, fmt, ap); abort(); }
void inconclusive(const char *fmt, ...) { va_list ap; va_start(ap, fmt); end_case(2, 102, fmt, ap); abort(); }

std::string hex(const void *p, size_t n, size_t max) {
  std::string r; char b[4]; auto d = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, sizeof b, "%02x", d[i]); r += b; }
  if (n > max) r += "..(" + std::to_string(n) + " bytes)";
  return r;
}

static uint64_t g_seed; static double g_deadline; static std::string g_scratch; static bool g_show;

static uint64_t case_seed(size_t sub, uint64_t idx) {
  uint64_t x = g_seed * 0x9e3779b97f4a7c15ull + 12345;
  for (char c : subs()[sub].name) x = (x ^ static_cast<unsigned char>(c)) * 0x100000001b3ull;
  uint64_t y = x + idx * 0xd1342543de82ef95ull; splitmix(y); return splitmix(y);
}

static void run_case(size_t sub, Src &src) {
  g_src = &src;
  try { subs()[sub].fn(src); }
  catch (const std::exception &e) {
    int st; char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    fail("unexpected exception escaped: %s: %s", n ? n : typeid(e).name(), e.what());
  } catch (...) { fail("unexpected non-std exception escaped"); }
}

static void child_common(Slot *s) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_cur = s;
  struct rlimit rl = {0, 0}; prlimit(0, RLIMIT_CORE, &rl, nullptr);
  setpgid(0, 0);
  if (!g_show) { int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); close(fd); }
}
static uint64_t now_us() { return static_cast<uint64_t>(now_s() * 1e6); }
static void reset_slot(Slot *s) {
  s->failed = 0; s->msg[0] = 0; s->nrec = 0; s->notes[0] = 0; s->done = 0; s->start_us = now_us(); s->case_idx = 0;
}

static pid_t spawn_batch(size_t sub, uint64_t first, uint64_t count, Slot *s, bool ignore_deadline) {
  reset_slot(s); s->case_idx = first;
  pid_t p = fork();
  if (p) return p;
  child_common(s);
  for (uint64_t i = first; i < first + count; ++i) {
    if (!ignore_deadline && now_s() > g_deadline) break;
    s->case_idx = i; s->nrec = 0; s->start_us = now_us();
    Src src(case_seed(sub, i), false, {});
    run_case(sub, src);
    g_sh->evaluations.fetch_add(1); g_sh->steps.fetch_add(src.steps_);
    if (src.nontrivial_) {
      uint64_t h = 1469598103934665603ull + sub; uint64_t n = s->nrec;
      for (uint64_t k = 0; k < n; ++k) h = (h ^ s->rec[k]) * 1099511628211ull + (h >> 29);
      g_sh->nontrivial.fetch_add(1);
      uint64_t k = g_sh->nhash.fetch_add(1);
      if (k < kMaxHash) g_sh->hash[k].h = h;
      if (g_sh->nsamples.load() < 64 && (i % 7) == 0) {
        uint32_t q = g_sh->nsamples.fetch_add(1);
        if (q < 64) { g_sh->samples[q].sub = sub; g_sh->samples[q].idx = i; }
      }
    }
    s->done.fetch_add(1);
  }
  syscall(SYS_exit_group, 0); _exit(0);
}
static pid_t spawn_one(size_t sub, bool replay, std::vector<uint64_t> pre, uint64_t idx, Slot *s, bool verbose) {
  reset_slot(s);
  pid_t p = fork();
  if (p) return p;
  child_common(s);
  Src src(case_seed(sub, idx), replay, std::move(pre));
  src.verbose_ = verbose;
  run_case(sub, src);
  syscall(SYS_exit_group, 0); _exit(0);
}

enum Kind { kOk, kFail, kCrash, kHang, kInconclusive };
static const char *kKindName[] = {"ok", "fail", "crash", "hang", "inconclusive"};
struct Outcome { Kind kind = kOk; std::string msg; std::vector<uint64_t> rec; std::string notes; };

static void kill_group(pid_t p) { kill(-p, SIGKILL); kill(p, SIGKILL); }

static std::string asan_report(pid_t p) {
  std::string f = g_scratch + "/asan." + std::to_string(p), out;
  if (FILE *fp = fopen(f.c_str(), "r")) {
    char b[4096]; size_t n = fread(b, 1, sizeof b - 1, fp); b[n] = 0; out = b; fclose(fp); unlink(f.c_str());
  }
  return out;
}
static Outcome classify(pid_t p, int status, Slot *s, bool hung) {
  Outcome o;
  if (s->failed == 1) { o.kind = kFail; o.msg = s->msg; }
  else if (s->failed == 2) { o.kind = kInconclusive; o.msg = s->msg; }
  else if (hung) { o.kind = kHang; o.msg = "the case did not finish (hang)"; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { o.kind = kOk; }
  else {
    o.kind = kCrash; char b[128];
    if (WIFSIGNALED(status)) snprintf(b, sizeof b, "process died on signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    else snprintf(b, sizeof b, "process exited with code %d", WEXITSTATUS(status));
    o.msg = b;
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) o.kind = kInconclusive;  // ended from outside (memory)
  }
  std::string r = asan_report(p);
  if (o.kind != kOk && !r.empty()) { o.msg += "\n" + r; }
  o.rec.assign(s->rec, s->rec + s->nrec.load());
  o.notes = s->notes;
  return o;
}
static Outcome wait_one(pid_t p, Slot *s, double limit) {
  double t0 = now_s(); int st = 0; int spins = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) { kill(-p, SIGKILL); return classify(p, st, s, false); }
    if (now_s() - t0 > limit) { kill_group(p); waitpid(p, &st, 0); return classify(p, st, s, true); }
    if (spins++ < 50) usleep(100); else raw_sleep_us(1000);
  }
}
static Outcome run_once(size_t sub, const std::vector<uint64_t> &pre, Slot *s, double limit, bool verbose = false) {
  pid_t p = spawn_one(sub, true, pre, 0, s, verbose);
  return wait_one(p, s, limit);
}

static bool bad(const Outcome &o, const Options &op) {
  return o.kind == kFail || o.kind == kCrash || (o.kind == kHang && op.hang_is_violation);
}

// Runs several candidates in parallel, returns index of the first (lowest) failing one or -1.
static int try_parallel(size_t sub, const std::vector<std::vector<uint64_t>> &cands, Kind want, double limit, size_t nslots, std::vector<Outcome> &outs) {
  outs.assign(cands.size(), {});
  size_t i = 0;
  while (i < cands.size()) {
    size_t n = std::min(nslots, cands.size() - i); std::vector<pid_t> ps;
    for (size_t k = 0; k < n; ++k) ps.push_back(spawn_one(sub, true, cands[i + k], 0, &g_slots[k], false));
    for (size_t k = 0; k < n; ++k) outs[i + k] = wait_one(ps[k], &g_slots[k], limit);
    for (size_t k = 0; k < n; ++k) if (outs[i + k].kind == want) return static_cast<int>(i + k);
    i += n;
  }
  return -1;
}
static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}
static Outcome shrink(size_t sub, Outcome best, double budget, double limit, size_t nslots, uint64_t &attempts) {
  double end = now_s() + budget; Kind want = best.kind;
  bool progress = true; std::vector<Outcome> outs;
  auto accept = [&](const std::vector<std::vector<uint64_t>> &cs) -> bool {
    if (cs.empty()) return false;
    attempts += cs.size();
    int k = try_parallel(sub, cs, want, limit, nslots, outs);
    if (k < 0) return false;
    Outcome o = outs[k];
    while (!o.rec.empty() && o.rec.back() == 0) o.rec.pop_back();
    if (!simpler(o.rec, best.rec)) return false;
    best = o; return true;
  };
  while (progress && now_s() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(best.rec.size() / 2, 1); len >= 1 && now_s() < end; len /= 2) {
      bool again = true;
      while (again && now_s() < end) {
        again = false;
        std::vector<std::vector<uint64_t>> cs;
        for (size_t st = 0; st < best.rec.size(); st += len) {
          auto c = best.rec; c.erase(c.begin() + st, c.begin() + std::min(c.size(), st + len)); cs.push_back(c);
          if (cs.size() >= nslots * 4) { if (accept(cs)) { again = progress = true; break; } cs.clear(); if (now_s() > end) break; }
        }
        if (!again && !cs.empty() && accept(cs)) again = progress = true;
      }
      if (len == 1) break;
    }
    for (size_t len : {16u, 4u, 1u}) {
      for (size_t st = 0; st < best.rec.size() && now_s() < end; ) {
        std::vector<std::vector<uint64_t>> cs; size_t k = st;
        for (; k < best.rec.size() && cs.size() < nslots; k += len) {
          auto c = best.rec; bool ch = false;
          for (size_t q = k; q < std::min(c.size(), k + len); ++q) if (c[q]) { c[q] = 0; ch = true; }
          if (ch) cs.push_back(c);
        }
        if (accept(cs)) progress = true; else st = k;
        if (cs.empty()) st = k;
      }
    }
    for (size_t i = 0; i < best.rec.size() && now_s() < end; ++i) {
      while (i < best.rec.size() && best.rec[i] > 0 && now_s() < end) {
        uint64_t v = best.rec[i]; std::vector<std::vector<uint64_t>> cs;
        for (uint64_t nv : {v / 16, v / 4, v / 2, v - v / 4, v - 1}) if (nv < v) { auto c = best.rec; c[i] = nv; cs.push_back(c); }
        if (!accept(cs)) break; progress = true;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c;
  }
  return r;
}

static int do_replay(const char *file, Slot *slots) {
  FILE *fp = fopen(file, "r"); if (!fp) { fprintf(stderr, "cannot open %s\n", file); return 2; }
  char line[1 << 16]; std::string sub, mode = "choices"; std::vector<uint64_t> ch; uint64_t first = 0, count = 0;
  while (fgets(line, sizeof line, fp)) {
    if (line[0] == '#') continue;
    if (!strncmp(line, "sub ", 4)) { sub = line + 4; while (!sub.empty() && isspace((unsigned char)sub.back())) sub.pop_back(); }
    else if (!strncmp(line, "batch ", 6)) { mode = "batch"; sscanf(line + 6, "%lu %lu %lu", &g_seed, &first, &count); }
    else if (!strncmp(line, "choices", 7)) {
      std::string all; int c; while ((c = fgetc(fp)) != EOF) all += static_cast<char>(c);
      std::istringstream is(all); uint64_t v; while (is >> v) ch.push_back(v);
    }
  }
  fclose(fp);
  for (size_t i = 0; i < subs().size(); ++i) if (subs()[i].name == sub) {
    Outcome o;
    if (mode == "batch") { pid_t p = spawn_batch(i, first, count, slots, true); o = wait_one(p, slots, 600); }
    else o = run_once(i, ch, slots, subs()[i].o.hang_s * 2, true);
    printf("replay: sub=%s outcome=%s %s\n%s", sub.c_str(), kKindName[o.kind], o.msg.c_str(), o.notes.c_str());
    return bad(o, subs()[i].o) ? 1 : 0;
  }
  fprintf(stderr, "no sub-property %s\n", sub.c_str());
  return 2;
}

int main(int argc, char **argv) {
  uint64_t cases = 1000; double tmax = 20, shrink_s = 20; size_t workers = 8; std::string out, only; const char *replay = nullptr;
  uint64_t want_sub = ~0ull, want_idx = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)"0"; };
    if (a == "--seed") g_seed = strtoull(val(), 0, 0); else if (a == "--cases") cases = strtoull(val(), 0, 0);
    else if (a == "--time") tmax = atof(val()); else if (a == "--shrink") shrink_s = atof(val());
    else if (a == "--workers") workers = atoi(val()); else if (a == "--scratch") g_scratch = val();
    else if (a == "--out") out = val(); else if (a == "--only") only = val();
    else if (a == "--replay") replay = val(); else if (a == "--show") g_show = true;
    else if (a == "--case") { want_idx = strtoull(val(), 0, 0); want_sub = 0; }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  auto map = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  g_sh = static_cast<Shared *>(map(sizeof(Shared)));
  g_slots = static_cast<Slot *>(map(sizeof(Slot) * workers));
  if (g_scratch.empty()) g_scratch = "/tmp";
  g_deadline = now_s() + tmax;
  if (replay) return do_replay(replay, g_slots);
  if (!only.empty()) { std::vector<Sub> k; for (auto &s : subs()) if (s.name == only) k.push_back(s); subs() = k; }
  std::sort(subs().begin(), subs().end(), [](const Sub &a, const Sub &b) { return a.name < b.name; });
  if (subs().empty()) { fprintf(stderr, "no sub-properties\n"); return 2; }
  if (want_sub != ~0ull) {
    g_show = true; pid_t p = spawn_one(0, false, {}, want_idx, g_slots, true);
    Outcome o = wait_one(p, g_slots, subs()[0].o.hang_s);
    printf("case %lu: %s %s\n%s", want_idx, kKindName[o.kind], o.msg.c_str(), o.notes.c_str());
    return 0;
  }
  struct W { pid_t pid = 0; size_t sub = 0; uint64_t first = 0, count = 0; };
  std::vector<W> w(workers);
  uint64_t issued = 0, inconcl = 0, unrepro = 0, attempts = 0; bool stop = false, violated = false;
  std::string inconcl_msg, unrepro_msg, fail_json; double t0 = now_s();
  std::map<std::string, uint64_t> unrepro_by;
  while (true) {
    bool active = false;
    for (size_t k = 0; k < workers && !violated; ++k) {
      W &x = w[k]; Slot *s = &g_slots[k];
      if (x.pid) {
        active = true; int st; pid_t r = waitpid(x.pid, &st, WNOHANG); bool hung = false;
        if (r == 0) {
          double el = static_cast<double>(static_cast<int64_t>(now_us() - s->start_us.load())) * 1e-6;
          if (el < subs()[x.sub].o.hang_s) continue;
          kill_group(x.pid); waitpid(x.pid, &st, 0); hung = true;
        } else kill(-x.pid, SIGKILL);
        Outcome o = classify(x.pid, st, s, hung); uint64_t idx = s->case_idx; pid_t pid = x.pid; x.pid = 0; (void)pid;
        if (o.kind == kOk) continue;
        Sub &sb = subs()[x.sub];
        if (!bad(o, sb.o)) {
          ++inconcl; inconcl_msg = o.msg; g_sh->evaluations.fetch_add(1);
        } else {
          // Stop everything else, confirm in fresh processes.
          for (auto &y : w) if (y.pid) { kill_group(y.pid); waitpid(y.pid, &st, 0); asan_report(y.pid); y.pid = 0; }
          double lim = sb.o.hang_s * 2; int hits = 0, tries = 0; Outcome conf;
          for (; tries < 12 && hits < 3; ++tries) {
            if (o.kind == kHang && tries - hits >= 2) break;
            pid_t p = spawn_one(x.sub, false, {}, idx, s, false);
            Outcome c = wait_one(p, s, lim);
            if (bad(c, sb.o)) { ++hits; if (conf.kind == kOk || (c.kind == o.kind)) conf = c; }
            if (tries >= 5 && hits == 0) break;
          }
          std::string file = g_scratch + "/replay.txt"; std::string body;
          if (hits >= 3) {
            Outcome m = conf;
            // A shrunk hang/crash is only kept if it fails again.
            m = shrink(x.sub, conf, conf.kind == kHang ? std::min(shrink_s, 3 * lim) : shrink_s, conf.kind == kHang ? sb.o.hang_s : lim, workers, attempts);
            Outcome v; int ok = 0;
            for (int q = 0; q < 4 && ok < 3; ++q) { v = run_once(x.sub, m.rec, s, lim, true); if (bad(v, sb.o)) ++ok; else if (q == 0) break; }
            if (ok < 3) { m = conf; for (int q = 0; q < 6; ++q) { v = run_once(x.sub, m.rec, s, lim, true); if (bad(v, sb.o)) break; } }
            if (!bad(v, sb.o)) v = conf;
            body = "sub " + sb.name + "\n# kind " + kKindName[v.kind] + "\n";
            { std::istringstream is(v.msg); std::string l; while (std::getline(is, l)) body += "# " + l + "\n"; }
            { std::istringstream is(v.notes); std::string l; while (std::getline(is, l)) body += "# | " + l + "\n"; }
            body += "choices\n"; for (auto c : m.rec) body += std::to_string(c) + " "; body += "\n";
            fail_json = "{\"sub\":\"" + jesc(sb.name) + "\",\"kind\":\"" + kKindName[v.kind] + "\",\"message\":\"" + jesc(v.msg.substr(0, 1500)) + "\",\"notes\":\"" + jesc(v.notes.substr(0, 4000)) + "\",\"case\":" + std::to_string(idx) + ",\"choices\":" + std::to_string(m.rec.size()) + ",\"shrink_attempts\":" + std::to_string(attempts) + "}";
            violated = true;
          } else {
            // Perhaps it needs the earlier cases of the same process.
            int bh = 0; uint64_t cnt = idx - x.first + 1;
            if (cnt > 1 && o.kind != kHang) for (int q = 0; q < 3; ++q) { pid_t p = spawn_batch(x.sub, x.first, cnt, s, true); Outcome c = wait_one(p, s, 300); if (bad(c, sb.o)) ++bh; else break; }
            if (bh == 3) {
              body = "sub " + sb.name + "\n# kind " + kKindName[o.kind] + "\n# " + o.msg + "\nbatch " + std::to_string(g_seed) + " " + std::to_string(x.first) + " " + std::to_string(cnt) + "\n";
              fail_json = "{\"sub\":\"" + jesc(sb.name) + "\",\"kind\":\"" + kKindName[o.kind] + "\",\"message\":\"" + jesc(o.msg.substr(0, 1500)) + "\",\"case\":" + std::to_string(idx) + ",\"batch\":true}";
              violated = true;
            } else {
              ++unrepro; unrepro_msg = sb.name + ": " + kKindName[o.kind] + " " + o.msg.substr(0, 600);
              if (hits > 0) ++unrepro_by[sb.name];
              fprintf(stderr, "unreproduced (%d/%d): %s\n", hits, tries, unrepro_msg.c_str());
            }
          }
          if (violated) { if (FILE *fp = fopen(file.c_str(), "w")) { fputs(body.c_str(), fp); fclose(fp); } }
        }
        // Continue the interrupted batch after the failing case.
        if (!violated && idx + 1 < x.first + x.count && now_s() < g_deadline) {
          uint64_t last = x.first + x.count; x.first = idx + 1; x.count = last - x.first;
          x.pid = spawn_batch(x.sub, x.first, x.count, s, false);
        }
        continue;
      }
      if (stop || issued >= cases || now_s() > g_deadline || unrepro > 20) { stop = true; continue; }
      size_t best = ~0ull; double bestv = 0;
      for (size_t i = 0; i < subs().size(); ++i) {
        Sub &sb = subs()[i]; if (!sb.o.weight || (sb.o.max_cases && sb.next >= sb.o.max_cases)) continue;
        double v = static_cast<double>(sb.next) / sb.o.weight; if (best == ~0ull || v < bestv) { best = i; bestv = v; }
      }
      if (best == ~0ull) { stop = true; continue; }
      Sub &sb = subs()[best];
      x.sub = best; x.first = sb.next; x.count = std::min<uint64_t>(sb.o.batch, std::max<uint64_t>(1, cases - issued));
      if (sb.o.max_cases) x.count = std::min<uint64_t>(x.count, sb.o.max_cases - sb.next);
      sb.next += x.count; issued += x.count;
      x.pid = spawn_batch(best, x.first, x.count, s, false); active = true;
    }
    if (violated) break;
    if (!active && stop) break;
    usleep(300);
  }
  // Samples.
  std::string samples; uint32_t ns = std::min<uint32_t>(g_sh->nsamples, 64), got = 0; std::map<uint32_t, int> per;
  for (uint32_t i = 0; i < ns && got < 8; ++i) {
    auto &sm = g_sh->samples[i]; if (sm.sub >= subs().size() || per[sm.sub] >= std::max<int>(1, 6 / (int)subs().size())) continue; per[sm.sub]++;
    pid_t p = spawn_one(sm.sub, false, {}, sm.idx, g_slots, true); Outcome o = wait_one(p, g_slots, subs()[sm.sub].o.hang_s);
    samples += std::string(got ? "," : "") + "{\"sub\":\"" + jesc(subs()[sm.sub].name) + "\",\"case\":" + std::to_string(sm.idx) + ",\"outcome\":\"" + kKindName[o.kind] + "\",\"trace\":\"" + jesc(o.notes.substr(0, 1200)) + "\"}"; ++got;
  }
  std::unordered_set<uint64_t> hs; uint64_t nh = std::min<uint64_t>(g_sh->nhash, kMaxHash); for (uint64_t i = 0; i < nh; ++i) hs.insert(g_sh->hash[i].h);
  std::map<std::string, uint64_t> labels; uint32_t nl = std::min<uint32_t>(g_sh->nlabels, kMaxLabels);
  for (uint32_t i = 0; i < nl; ++i) labels[g_sh->labels[i].name] += g_sh->labels[i].n;
  std::string lj; for (auto &l : labels) lj += (lj.empty() ? "" : ",") + std::string("\"") + jesc(l.first) + "\":" + std::to_string(l.second);
  std::string sj; for (auto &s : subs()) sj += (sj.empty() ? "" : ",") + std::string("\"") + jesc(s.name) + "\":" + std::to_string(s.next);
  std::string js = "{\"evaluations\":" + std::to_string(g_sh->evaluations) + ",\"distinct_nontrivial\":" + std::to_string(hs.size()) +
    ",\"nontrivial\":" + std::to_string(g_sh->nontrivial) + ",\"steps\":" + std::to_string(g_sh->steps) + ",\"inconclusive\":" + std::to_string(inconcl) + ",\"inconclusive_last\":\"" + jesc(inconcl_msg) +
    "\",\"unreproduced\":" + std::to_string(unrepro) + ",\"unreproduced_last\":\"" + jesc(unrepro_msg) + "\",\"time_cap_hit\":" + (issued < cases ? "true" : "false") +
    ",\"labels\":{" + lj + "},\"subs\":{" + sj + "},\"samples\":[" + samples + "],\"wall_s\":" + std::to_string(now_s() - t0) + ",\"failure\":" + (fail_json.empty() ? "null" : fail_json) + "}";
  if (!out.empty()) { if (FILE *fp = fopen(out.c_str(), "w")) { fputs(js.c_str(), fp); fclose(fp); } } else printf("%s\n", js.c_str());
  return violated ? 1 : 0;
}
}  // namespace pbt

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"; }
#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::main(argc, argv); }
#endif

// The library asks for unlimited core files; crashes of cases must not leave any.
extern "C" int setrlimit(__rlimit_resource_t what, const struct rlimit *r) noexcept { if (what == RLIMIT_CORE) return 0; return prlimit(0, static_cast<enum __rlimit_resource>(what), r, nullptr); }
