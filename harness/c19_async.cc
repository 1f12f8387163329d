// The asynchronous logger: every entry appended before the stop reaches the
// log files whole, once, in order; files roll by size and day only.
#include "pbt.h"
#include "vsched.h"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "plain/basic/async_logger.h"
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/basic/type/variable.h"

using pbt::Src;
namespace {
struct LogFile { std::string name, body; };
std::vector<LogFile> files(const std::string &dir) {
  std::vector<LogFile> r; DIR *d = opendir(dir.c_str()); if (!d) return r;
  while (auto *e = readdir(d)) if (e->d_name[0] != '.') r.push_back({e->d_name, ""});
  closedir(d);
  std::sort(r.begin(), r.end(), [](auto &a, auto &b) { return a.name < b.name; });
  for (auto &f : r) { std::ifstream in(dir + "/" + f.name, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); f.body = ss.str(); }
  return r;
}
std::string all(const std::string &dir) { std::string r; for (auto &f : files(dir)) r += f.body; return r; }
void wipe(const std::string &dir) { for (auto &f : files(dir)) ::unlink((dir + "/" + f.name).c_str()); ::rmdir(dir.c_str()); }
// "<thread>.<number>:<length>:<that many letters>\n"
std::string entry(int t, int n, size_t len) { std::string r = std::to_string(t) + "." + std::to_string(n) + ":" + std::to_string(len) + ":"; char c = char('a' + (t * 7 + n) % 26); r.append(len, c); return r + "\n"; }
struct Seen { int t, n; };
std::vector<Seen> parse(const std::string &s) {
  std::vector<Seen> r; size_t at = 0;
  while (at < s.size()) {
    int t = -1, n = -1, used = 0; size_t len = 0;
    if (sscanf(s.c_str() + at, "%d.%d:%zu:%n", &t, &n, &len, &used) != 3 || used == 0) pbt::fail("the log holds no entry at byte %zu: %s", at, pbt::hex(s.substr(at, 40)).c_str());
    std::string want = entry(t, n, len);
    if (s.compare(at, want.size(), want)) pbt::fail("entry %d of thread %d is damaged: %s, %zu bytes left", n, t, pbt::hex(s.substr(at, 40)).c_str(), s.size() - at);
    r.push_back({t, n}); at += want.size();
  }
  return r;
}
}  // namespace

PROPERTY(async, {.weight = 10, .batch = 1, .hang_s = 60}) {
  static int counter; std::string dir = "log_" + std::to_string(getpid()) + "_" + std::to_string(++counter);
  int threads = int(src.range(1, 3)); int interval = int(src.range(1, 3));
  bool big = src.chance(1, 40); int large = 0; size_t roll = src.flip() ? 1 << 20 : size_t(src.range(0, 300));
  bool before = src.chance(1, 4), destroy = src.chance(1, 3), late = src.chance(1, 4);
  struct Step { size_t len; int pause; }; std::vector<std::vector<Step>> plan(threads);
  size_t total = 0;
  for (int t = 0; t < threads; ++t) { Src::Loop l(src, big ? 6 : 20); while (l.more()) { Step s{src.size(0, 200), int(src.pick({6, 1, 1, 1}))}; if (big && large < 6 && src.chance(1, 2)) { large++; s.len = size_t(src.range(1 << 20, 3 << 20)); } total++; plan[t].push_back(s); } }
  std::string name = "app" + std::to_string(src.below(100)), backing = name + (src.flip() ? "tail" : "");
  src.note("%d threads, %zu entries%s, flush every %d s, roll at %zu bytes%s%s", threads, total, big ? " (large)" : "", interval, roll, before ? ", entries before the start" : "", destroy ? ", released while running" : "");
  bool made = src.flip(); if (made) ::mkdir(dir.c_str(), 0755);
  GLOBALS["log.directory"] = dir;
  sched::start(src, {.max_points = 100000000, .date_steps = false});
  int appended_late = 0;
  {
    plain::AsyncLogger log(std::string_view(backing.data(), name.size()), roll, interval);
    if (before) for (int i = 0; i < 2; ++i) log.append(entry(9, i, 5));
    log.start();
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t] { int n = 0; for (auto &s : plan[t]) { log.append(entry(t, n++, s.len)); if (s.pause == 1) sched::sleep_ns(1000000); if (s.pause == 2) sched::sleep_ns(700000000); if (s.pause == 3) sched::sleep_ns(uint64_t(interval) * 1000000000ull); } });
    std::atomic<bool> over{false}; std::thread other;
    for (auto &t : th) t.join();
    if (late) other = std::thread([&] { for (int i = 0; i < 3; ++i) { log.append(entry(8, i, 10)); appended_late++; } });  // races with the stop: may be lost, never torn
    if (!destroy) log.stop();
    if (late) other.join();
  }
  sched::calm();
  if (sched::live_threads() > 1) pbt::fail("the thread of the logger is still there");
  auto fs = files(dir);
  std::map<int, int> next; int seen = 0;
  std::string s; for (auto &f : fs) { s += f.body; CHECK_MSG(f.name.compare(0, name.size() + 1, name + ".") == 0, "a log file is called %s, the name given was %s", f.name.c_str(), name.c_str()); }
  for (auto &e : parse(s)) { CHECK_MSG(e.n == next[e.t], "thread %d: entry %d follows entry %d", e.t, e.n, next[e.t] - 1); next[e.t]++; if (e.t < 8) seen++; }
  CHECK_MSG(size_t(seen) == total, "%zu entries appended before the stop, %d in the files", total, seen);
  if (before) CHECK_MSG(next[9] == 2, "entries appended before the start are missing");
  CHECK_MSG(next[8] <= appended_late, "an entry was written that was never appended");
  wipe(dir);
  if (total >= 3 && sched::stats().switches > 4) src.nontrivial();
}

// What was appended is on disk within the flush interval, and files roll only
// when they exceed their size or the day changes.
PROPERTY(timely, {.weight = 3, .batch = 1}) {
  static int counter; std::string dir = "logt_" + std::to_string(getpid()) + "_" + std::to_string(++counter); ::mkdir(dir.c_str(), 0755);
  int interval = int(src.range(1, 3)); size_t roll = src.flip() ? 1 << 20 : size_t(src.range(20, 400));
  Src::Loop l(src, 12); std::vector<std::pair<size_t, int>> steps; while (l.more()) steps.push_back({src.size(0, 120), int(src.range(0, 3))});
  uint64_t idle = src.chance(1, 6) ? uint64_t(src.range(1, 1500)) * interval : 0;
  src.note("flush every %d s, roll at %zu bytes, %zu entries, idle for %lu s", interval, roll, steps.size(), (unsigned long)idle);
  GLOBALS["log.directory"] = dir;
  sched::start(src, {.max_points = 20000000, .allow_time_jumps = false, .allow_spurious = false, .date_steps = false});
  sched::calm();
  {
    plain::AsyncLogger log("t", roll, interval); log.start(); int n = 0; std::string want; std::map<std::string, size_t> done;
    for (auto &[len, wait] : steps) {
      std::string e = entry(0, n++, len); log.append(e); want += e;
      if (wait) { sched::sleep_ns(uint64_t(interval) * 1000000000ull * wait + 500000000ull); std::string got = all(dir); CHECK_MSG(got == want, "%d intervals of %d s after entry %d, the files hold %zu of %zu bytes", wait, interval, n - 1, got.size(), want.size());
        for (auto &f : files(dir)) { auto it = done.find(f.name); if (it != done.end()) CHECK_MSG(f.body.size() == it->second, "a file of %zu bytes, more than %zu, was written on", it->second, roll); if (f.body.size() > roll) done[f.name] = f.body.size(); } }
    }
    size_t files_before = 0;
    if (idle) {
      sched::sleep_ns(uint64_t(interval) * 1000000000ull + 500000000ull); files_before = files(dir).size();
      sched::sleep_ns(idle * 1000000000ull);
      CHECK_MSG(files(dir).size() <= files_before + 1, "with nothing to log, %zu log files became %zu in %lu s", files_before, files(dir).size(), (unsigned long)idle);
    }
    log.stop();
    std::string got = all(dir); CHECK_MSG(got == want, "after the stop the files hold %zu of %zu bytes", got.size(), want.size());
    auto fs = files(dir); size_t full = 0; for (auto &f : fs) if (f.body.size() > roll) full++;
    CHECK_MSG(fs.size() <= full + 1, "%zu log files, only %zu of them over %zu bytes", fs.size(), full, roll);
  }
  wipe(dir);
  if (steps.size() >= 2 || idle) src.nontrivial();
}
