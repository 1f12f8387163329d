// Log statements: one line each, holding exactly what was streamed into it.
#include "pbt.h"
#include <cmath>
#include <ctime>
#include <memory>
#include <iostream>
#include <source_location>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "plain/basic/logger.h"
#include "plain/basic/time.h"
#include "plain/basic/type/variable.h"
#include "plain/basic/global.h"
#include "plain/basic/error.h"
#include "plain/sys/thread.h"

using namespace plain;
using pbt::Src;
namespace {
std::vector<std::string> out;
constexpr size_t kMax = 4096;
const char *kLevels[] = {"TRACE ", "DEBUG ", "INFO  ", "WARN  ", "ERROR ", "FATAL "};
int64_t now_ms() { timeval tv; gettimeofday(&tv, nullptr); return int64_t(tv.tv_sec) * 1000 + tv.tv_usec / 1000; }
// Reads "YYYY-MM-DDTHH:MM:SS.mmm" as milliseconds since the epoch.
int64_t stamp_ms(const std::string &s) {
  tm t{}; int ms = -1, used = 0;
  if (sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d.%3d%n", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &ms, &used) != 7 || used != 23) return -1;
  t.tm_year -= 1900; t.tm_mon -= 1; t.tm_isdst = -1; return int64_t(mktime(&t)) * 1000 + ms;
}
std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.12g", v); return b; }
struct Val { int kind; std::string s; uint64_t u; double d; };
Val gen(Src &s, bool longer) {
  Val v{int(s.below(14)), "", 0, 0}; v.u = s.bits(64);
  switch (s.below(4)) { case 0: v.d = double(int64_t(v.u)) / 7; break; case 1: memcpy(&v.d, &v.u, 8); break; case 2: v.d = double(int(v.u % 1000)) / 8; break; default: v.d = s.flip() ? INFINITY : 0; }
  size_t n = longer ? s.size(0, 6000) : s.size(0, 80);
  v.s = s.ascii(n); return v;
}
// Streams one value and returns how it must look.
std::string put(Logger &l, const Val &v) {
  switch (v.kind) {
    case 0: l << bool(v.u & 1); return v.u & 1 ? "1" : "0";
    case 1: l << int16_t(v.u); return std::to_string(int16_t(v.u));
    case 2: l << uint16_t(v.u); return std::to_string(uint16_t(v.u));
    case 3: l << int32_t(v.u); return std::to_string(int32_t(v.u));
    case 4: l << uint32_t(v.u); return std::to_string(uint32_t(v.u));
    case 5: l << int64_t(v.u); return std::to_string(int64_t(v.u));
    case 6: l << uint64_t(v.u); return std::to_string(uint64_t(v.u));
    case 7: { l << reinterpret_cast<const void *>(v.u); char b[40]; snprintf(b, sizeof b, "0x%lX", (unsigned long)v.u); return b; }
    case 8: l << float(v.d); return num(double(float(v.d)));
    case 9: l << v.d; return num(v.d);
    case 10: { char c = char(' ' + v.u % 95); l << c; return std::string(1, c); }
    case 11: if (v.u % 5 == 0) { l << static_cast<const char *>(nullptr); return "(null)"; } l << v.s.c_str(); return v.s;
    case 12: l << v.s; return v.s;
    default: { std::string_view sv(v.s); l.append(sv); return v.s; }
  }
}
}  // namespace

PROPERTY(statement, {.weight = 6}) {
  bool print = src.chance(1, 3); std::ostringstream shown; std::streambuf *old = std::cout.rdbuf(shown.rdbuf()); struct Back { std::streambuf *b; ~Back() { std::cout.rdbuf(b); } } back{old};
  out.clear(); Logger::set_output([](const std::string_view &s) { out.emplace_back(s); }); GLOBALS["log.print"] = print;
  bool longer = src.chance(1, 4); int level = int(src.below(5)); bool sys = src.chance(1, 5); bool text = !sys && src.chance(1, 6);
  std::vector<Val> vals; Src::Loop l(src, 30); while (l.more()) vals.push_back(gen(src, longer));
  std::string body, traced = src.ascii(src.size(0, 30)), backing = traced + "tail";
  if (sys || text) level = sys ? 4 : 0;
  int err = int(src.range(0, 140)); int64_t t0 = now_ms(); unsigned line = 0; const char *fn = std::source_location::current().function_name();
  {
    errno = err;
    auto run = [&](Logger &lg) { for (auto &v : vals) body += put(lg, v); };
    auto at = std::source_location::current();
    if (sys) { errno = err; Logger lg(false, at); run(lg); }
    else if (text) { Logger lg(std::string_view(backing.data(), traced.size()), at); body = traced; run(lg); }
    else { Logger lg(static_cast<LogLevel>(level), at); run(lg); }
    line = at.line();
  }
  int64_t t1 = now_ms();
  src.note("level %s, %zu values, %zu bytes of text", kLevels[level], vals.size(), body.size());
  CHECK_MSG(out.size() == 1, "one statement was written %zu times", out.size());
  const std::string &o = out[0];
  CHECK_MSG(o.size() <= kMax, "a line of %zu bytes", o.size());
  CHECK_MSG(!o.empty() && o.back() == '\n' && o.find('\n') == o.size() - 1, "the text written is not one line: %zu bytes ending in %s", o.size(), pbt::hex(o.substr(o.size() > 8 ? o.size() - 8 : 0)).c_str());
  std::string stamp = o.substr(0, o.find(' ')); int64_t t = stamp_ms(stamp);
  CHECK_MSG(t >= 0 && stamp.size() == 23, "the line begins with '%s', no time in milliseconds", stamp.c_str());
  CHECK_MSG(t >= t0 && t <= t1, "the line is stamped %s, %ld ms before and %ld ms after it was made", stamp.c_str(), (long)(t - t0), (long)(t - t1));
  std::string head = " " + thread::get_id() + " " + kLevels[level]; if (sys && err) head += " (errno=" + std::to_string(err) + ") "; head += std::string(fn) + " ";
  std::string tail = std::string("-") + __FILE__ + ":" + std::to_string(line) + "\n", full = stamp + head + body + tail;
  if (full.size() + 64 <= kMax) CHECK_MSG(o == full, "the line is\n%s\nand should be\n%s", o.c_str(), full.c_str());
  else CHECK_MSG(o.compare(0, stamp.size() + head.size(), stamp + head) == 0, "the line begins with %s", o.substr(0, 200).c_str());
  if (print && full.size() + 64 <= kMax) CHECK_MSG(shown.str().find(o.substr(0, o.size() - 1)) != std::string::npos, "printed as\n%s", shown.str().c_str());
  if (!print) CHECK_MSG(shown.str().empty(), "printed though it should not be: %s", shown.str().c_str());
  if (vals.size() >= 2) src.nontrivial();
  if (full.size() > kMax) src.label("longer than a line");
}

// Nothing below the level is written or evaluated; at or above it, everything.
PROPERTY(levels, {.weight = 1}) {
  out.clear(); Logger::set_output([](const std::string_view &s) { out.emplace_back(s); }); GLOBALS["log.print"] = false;
  int lev = int(src.below(3)); Logger::set_level(static_cast<LogLevel>(lev)); CHECK(Logger::get_level() == static_cast<LogLevel>(lev));
  int evaluated = 0, want = 0; auto eval = [&] { ++evaluated; return evaluated; };
  Src::Loop l(src, 20);
  while (l.more()) {
    switch (src.below(6)) {
      case 0: if (lev <= 0) want++; LOG_TRACE << eval(); break;
      case 1: if (lev <= 1) want++; LOG_DEBUG << eval(); break;
      case 2: if (lev <= 2) want++; LOG_INFO << eval(); break;
      case 3: want++; LOG_WARN << eval(); break;
      case 4: want++; LOG_ERROR << eval(); break;
      default: want++; LOG_SYSERR << eval();
    }
    CHECK_MSG(int(out.size()) == want && evaluated == want, "at level %d, %d statements were to be written, %zu were, %d were evaluated", lev, want, out.size(), evaluated);
  }
  Logger::set_level(LogLevel::Info); if (want) src.nontrivial();
}

// A fatal statement is written and flushed before the process ends.
PROPERTY(fatal, {.weight = 1, .max_cases = 200}) {
  std::string text = src.ascii(1 + src.size(0, 60)); int fd[2]; CHECK(::pipe(fd) == 0); src.note("%s", text.c_str()); src.nontrivial();
  pid_t p = ::fork();
  if (!p) { ::close(fd[0]); signal(SIGABRT, SIG_DFL); static int w; w = fd[1]; Logger::set_output([](const std::string_view &s) { (void)!::write(w, s.data(), s.size()); }); Logger::set_flush([] { (void)!::write(w, "FLUSHED", 7); }); { LOG_SYSFATAL << text; } ::_exit(0); }
  ::close(fd[1]); std::string got; char b[512]; ssize_t n; while ((n = ::read(fd[0], b, sizeof b)) > 0) got.append(b, size_t(n)); ::close(fd[0]);
  int st = 0; ::waitpid(p, &st, 0);
  CHECK_MSG(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a fatal statement did not end the process (status %d)", st);
  CHECK_MSG(got.find("FATAL ") != std::string::npos && got.find(text) != std::string::npos, "the fatal statement was not written");
  CHECK_MSG(got.size() > 8 && got.compare(got.size() - 8, 8, "\nFLUSHED") == 0, "the fatal statement was not flushed after it");
}

// Formatting a given time, also while other threads format other times.
PROPERTY(times, {.weight = 1, .batch = 50, .max_cases = 3000}) {
  int threads = int(src.range(1, 4)); std::vector<time_t> t; std::vector<std::string> want;
  for (int i = 0; i < threads; ++i) { t.push_back(time_t(src.bits(33))); tm m{}; localtime_r(&t.back(), &m); char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); want.push_back(b); }
  src.note("%d threads formatting times, first %s", threads, want[0].c_str()); if (threads > 1) src.nontrivial();
  std::vector<std::thread> th; for (int i = 0; i < threads; ++i) th.emplace_back([&, i] { for (int k = 0; k < (threads > 1 ? 300 : 1); ++k) { auto g = Time::format(t[i]); if (g != want[i]) pbt::fail("the time %ld was formatted as %s, not %s", (long)t[i], g.c_str(), want[i].c_str()); } });
  for (auto &x : th) x.join();
}
