// Errors, assertions, monitors, coloured output, singletons and clocks: what is reported is what happened.
#include "pbt.h"
#include <atomic>
#include <chrono>
#include <cstring>
#include <ctime>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <variant>
#include <vector>
#include "plain/basic/error.h"
#include "plain/basic/global.h"
#include "plain/basic/io.h"
#include "plain/basic/logger.h"
#include "plain/basic/monitor.h"
#include "plain/basic/singleton.h"
#include "plain/basic/time.h"
#include "plain/basic/utility.h"
#include "plain/basic/visitor.h"
#include "plain/sys/assert.h"
#include "plain/sys/thread.h"

using namespace plain;
using pbt::Src;
namespace {
std::vector<std::string> logged;
// Catches what is logged and what is shown during its life.
struct Watch {
  std::ostringstream shown; std::streambuf *old;
  Watch() : old(std::cout.rdbuf(shown.rdbuf())) { logged.clear(); GLOBALS["log.print"] = false; Logger::set_output([](const std::string_view &s) { logged.emplace_back(s); }); }
  ~Watch() { std::cout.rdbuf(old); }
};
std::string text(Src &s, size_t max) { return s.ascii(s.size(0, max)); }
// Text without braces, so that it means itself in a format.
std::string plain_text(Src &s, size_t max) { auto t = text(s, max); for (auto &c : t) if (c == '{' || c == '}') c = '.'; return t; }
enum class Other : uint8_t { Zero, One, Big = 250 };
}  // namespace

PROPERTY(errors, {.weight = 4}) {
  struct Model { int32_t code; std::string msg; }; std::vector<std::pair<Error, Model>> all; Src::Loop loop(src, 30);
  while (loop.more()) {
    int32_t code = src.chance(1, 3) ? int32_t(src.bits(32)) : int32_t(src.below(8)); std::string a = src.chance(1, 3) ? std::string("same") : plain_text(src, 300), b = plain_text(src, 40); int64_t n = int64_t(src.bits(64)); Model m{code, a};
    switch (src.below(9)) {
      case 0: m = {0, ""}; all.emplace_back(Error{}, m); break;
      case 1: m.msg = ""; all.emplace_back(Error{code}, m); break;
      case 2: { std::string around = a + b; all.emplace_back(Error{code, std::string_view(around).substr(0, a.size())}, m); break; }
      case 3: m.code = int(src.below(7)); all.emplace_back(Error{static_cast<ErrorCode>(m.code), a}, m); break;
      case 4: m.msg = a + std::to_string(n) + "-" + b + "!"; { std::string f = a + "{}-{}!"; all.emplace_back(Error{code, f, n, b}, m); } break;
      case 5: m.code = int(Other::Big); m.msg = b + ":" + a; { std::string f = "{1}:{0}"; all.emplace_back(Error{Other::Big, f, a, b}, m); } break;
      case 6: if (all.empty()) continue; { auto e = src.of(all); all.push_back(e); } break;
      case 7: if (all.empty()) continue; { auto &e = all[src.below(all.size())]; e.first.set_code(code); e.second.code = code; } break;
      case 8: if (all.empty()) continue; { auto &e = all[src.below(all.size())]; e.first.set_message(a); e.second.msg = a; } break;
    }
    for (auto &[e, want] : all) {
      CHECK_MSG(e.code() == want.code, "an error of code %d has the code %d", want.code, e.code()); CHECK_MSG(e.message() == want.msg, "an error with message '%s' has '%s'", want.msg.c_str(), e.message().c_str());
      CHECK_MSG(e.valid() == (want.code != 0) && bool(e) == (want.code != 0), "an error of code %d is %s", want.code, e.valid() ? "valid" : "none"); std::string t = std::to_string(want.code) + ": " + want.msg; CHECK_MSG(e.to_string() == t, "an error is written as '%s', not '%s'", e.to_string().c_str(), t.c_str()); std::ostringstream os; os << e; CHECK(os.str() == t);
      for (int c = 0; c < 7; ++c) CHECK_MSG((e == static_cast<ErrorCode>(c)) == (want.code == c) && e.is_code(static_cast<ErrorCode>(c)) == (want.code == c), "code %d compared with %d", want.code, c); CHECK(e.is_code(Other::Big) == (want.code == 250));
      if (want.code >= 0 && want.code < 7) CHECK(static_cast<ErrorCode>(e) == static_cast<ErrorCode>(want.code));
    }
    for (size_t i = 0; i < all.size(); i += 1 + src.below(3)) { auto &[e, x] = all[i]; auto &[f, y] = all[src.below(all.size())]; bool eq = x.code == y.code && x.msg == y.msg; CHECK_MSG((e == f) == eq && (e != f) == !eq, "errors '%d: %s' and '%d: %s' compare as %s", x.code, x.msg.c_str(), y.code, y.msg.c_str(), e == f ? "equal" : "different"); }
    if (all.size() > 12) all.erase(all.begin());
  }
  if (!all.empty()) {  // carried by value or error, and written to a log
    auto &[e, m] = src.of(all); error_or_t<std::string> good{std::string("ok")}, bad{e}; const auto &cg = good, &cb = bad; CHECK(!get_error(good) && !get_error(cg)); CHECK(get_error(bad) && *get_error(bad) == e && get_error(cb) && *get_error(cb) == e);
    std::string seen = std::visit(overloaded{[](const std::string &s) { return "value " + s; }, [](const Error &x) { return "error " + x.message(); }}, bad); CHECK(seen == "error " + m.msg);
    Watch w; LOG_WARN << e; CHECK_MSG(logged.size() == 1 && logged[0].find(m.msg) != std::string::npos && logged[0].find(std::to_string(m.code)) != std::string::npos, "an error is logged as '%s'", logged.empty() ? "" : logged[0].c_str());
  }
  src.steps(loop.count()); if (all.size() >= 2) src.nontrivial();
}

PROPERTY(assertions, {.weight = 3}) {
  Watch w; size_t want = 0; Src::Loop loop(src, 12); bool longer = src.chance(1, 2); size_t falses = 0;
  while (loop.more()) {
    logged.clear(); w.shown.str(""); int evaluated = 0; std::string full; unsigned line = 0; const char *fn = __PRETTY_FUNCTION__; bool holds = src.flip(); size_t op = src.below(7); std::string msg = text(src, longer ? 3000 : 60); std::string file = text(src, longer ? 2000 : 40), expr = text(src, longer ? 1500 : 40);
    auto at = [&](const char *e, bool sp, const char *m) { full = std::string(sp ? "S[" : "[") + __FILE__ + "][" + std::to_string(line) + "][" + fn + "][" + e + "]\n"; if (m) full += std::string("[") + m + "]\n"; };
    switch (op) {
      case 0: line = __LINE__; Assert((++evaluated, holds)); at("(++evaluated, holds)", false, nullptr); break;
      case 1: line = __LINE__; AssertEx((++evaluated, holds), msg.c_str()); at("(++evaluated, holds)", false, msg.c_str()); break;
      case 2: line = __LINE__; AssertSpecial((++evaluated, holds), msg.c_str()); at("(++evaluated, holds)", true, msg.c_str()); break;
      case 3: { line = __LINE__; size_t got = check_exp((++evaluated, holds), msg.size()); CHECK_MSG(got == msg.size(), "check_exp gives %zu, not %zu", got, msg.size()); at("(++evaluated, holds)", false, nullptr); break; }
      default: { line = unsigned(src.bits(32)); evaluated = 1; holds = false; fn = "fn"; std::string l = std::to_string(int(line));
        if (op == 4) { plain::__assert__(file.c_str(), line, fn, expr.c_str()); full = "[" + file + "][" + l + "][fn][" + expr + "]\n"; }
        else { (op == 5 ? plain::__assertex__ : plain::__assertspecial__)(file.c_str(), line, fn, expr.c_str(), msg.c_str()); full = std::string(op == 5 ? "[" : "S[") + file + "][" + l + "][fn][" + expr + "]\n[" + msg + "]\n"; }
      }
    }
    std::string shown = w.shown.str();
#ifdef NDEBUG
    if (op < 4) { CHECK_MSG(!evaluated && logged.empty() && shown.empty(), "an assertion left out was evaluated or reported"); continue; }
#endif
    CHECK_MSG(evaluated == 1, "the condition was evaluated %d times", evaluated);
    if (holds) { CHECK_MSG(logged.empty() && shown.empty(), "an assertion that holds was reported"); continue; }
    ++falses; std::string cut = full.substr(0, 1023); src.note("%zu bytes to report", full.size());
    CHECK_MSG(shown.find(cut) != std::string::npos && shown.find(cut, shown.find(cut) + 1) == std::string::npos, "a failed assertion was shown as\n%s\nwithout\n%s", shown.c_str(), cut.c_str()); if (full.size() > 1023) CHECK(shown.find(full) == std::string::npos);
    CHECK_MSG(logged.size() == 1 && logged[0].find(cut) != std::string::npos && logged[0].find("WARN ") != std::string::npos, "a failed assertion was logged %zu times, as\n%s", logged.size(), logged.empty() ? "" : logged[0].c_str());
  }
  (void)want; src.steps(loop.count()); if (falses) src.nontrivial();
}

PROPERTY(shown, {.weight = 2}) {
  Watch w; std::string want; Src::Loop loop(src, 12);
  while (loop.more()) {
    std::string a = plain_text(src, 200), b = text(src, 60), format = a + "{}|{:d}|"; int64_t n = int64_t(src.bits(64)); std::string body = a + b + "|" + std::to_string(n) + "|"; static const char *colour[] = {"\x1B[31m", "\x1B[33m", "\x1B[32m"}; size_t k = src.below(3); bool args = src.flip(); std::string around = args ? format : a + format; std::string_view f = std::string_view(around).substr(0, args ? format.size() : a.size());
    if (args) { if (k == 0) io_cerr(f, b, n); else if (k == 1) io_cwarn(f, b, n); else io_cdebug(f, b, n); } else { body = a; if (k == 0) io_cerr(f); else if (k == 1) io_cwarn(f); else io_cdebug(f); }
    want += colour[k] + body + "\x1B[0m\n"; CHECK_MSG(w.shown.str() == want, "shown as\n%s\nnot\n%s", w.shown.str().c_str(), want.c_str());
    { logged.clear(); Logger l(LogLevel::Warn); l << a; if (args) l.appendf(f, b, n); else l.appendf("{}{}", a, b); } std::string in = args ? a + body : a + a + b; CHECK_MSG(logged.size() == 1 && logged[0].find(in) != std::string::npos, "formatted text '%s' is logged as %s", in.c_str(), logged.empty() ? "nothing" : logged[0].c_str());
  }
  src.steps(loop.count()); if (loop.count() > 2) src.nontrivial();
}

// A monitor warns exactly if its limit was exceeded, in processor time.
PROPERTY(monitors, {.weight = 1, .batch = 50, .max_cases = 1500}) {
  Watch w; std::string name = plain_text(src, 100) + "#"; uint32_t limit = src.flip() ? uint32_t(src.below(4)) : src.flip() ? 600000 : 0xffffffffu; uint32_t burn = src.flip() ? 0 : uint32_t(src.range(1, 6)); if (src.chance(1, 150)) { limit = uint32_t(src.below(60)); burn = uint32_t(src.range(250, 320)); } bool sleep = src.chance(1, 4); double lo, hi;
  { std::clock_t a = std::clock(); std::unique_ptr<monitor> m(limit ? new monitor(name, limit) : new monitor(name)); std::clock_t b = std::clock(), e; CHECK_MSG(w.shown.str().find(name) != std::string::npos, "a monitor's start is not shown");
    if (sleep) std::this_thread::sleep_for(std::chrono::milliseconds(8)); do e = std::clock(); while (e - b < std::clock_t(burn) * CLOCKS_PER_SEC / 1000); m.reset(); std::clock_t z = std::clock(); lo = 1000.0 * double(e - b) / CLOCKS_PER_SEC; hi = 1000.0 * double(z - a) / CLOCKS_PER_SEC; }
  src.note("limit %u, between %.2f and %.2f ms", limit, lo, hi); CHECK_MSG(logged.size() <= 1, "a monitor warns %zu times", logged.size());
  if (limit && lo >= double(limit) + 1) CHECK_MSG(logged.size() == 1, "a monitor of %u ms does not warn after %.2f ms", limit, lo); if (!limit || hi < double(limit)) CHECK_MSG(logged.empty(), "a monitor of %u ms warns after %.2f ms", limit, hi);
  if (!logged.empty()) { auto p = logged[0].find(name + " cost "); CHECK_MSG(p != std::string::npos && logged[0].find("WARN ") != std::string::npos, "a monitor warns with '%s'", logged[0].c_str()); double cost = strtod(logged[0].c_str() + p + name.size() + 6, nullptr); CHECK_MSG(cost >= lo - 0.01 && cost <= hi + 0.01, "a cost of %f ms is reported, it was between %f and %f", cost, lo, hi); }
  std::string s = w.shown.str(); auto p = s.find(name); CHECK_MSG(p != std::string::npos && s.find(name, p + 1) != std::string::npos, "a monitor's end is not shown"); if (limit && limit < 600000) src.nontrivial();
}

namespace { std::atomic<int> made{0}, ended{0}; int make_ms = 0; template <int N> struct One { int value = N; std::string big = std::string(100, 'x'); One() { if (make_ms) std::this_thread::sleep_for(std::chrono::milliseconds(make_ms)); ++made; } ~One() { ++ended; big.clear(); } }; }
PROPERTY(singletons, {.weight = 1, .batch = 1, .max_cases = 150}) {
  int n = int(src.range(1, 6)), asks = int(src.range(1, 5)); make_ms = int(src.below(3)); std::vector<std::thread> t; std::atomic<int> ready{0}; std::vector<std::shared_ptr<One<1>>> got(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (ready < n) std::this_thread::yield(); for (int k = 0; k < asks; ++k) { auto p = Singleton<One<1>>::get_instance(); if (!p || p->value != 1 || p->big.size() != 100) pbt::fail("an instance that was not made yet was given"); if (got[size_t(i)] && got[size_t(i)] != p) pbt::fail("another instance was given"); got[size_t(i)] = p; } });
  for (auto &x : t) x.join(); CHECK_MSG(made == 1, "%d instances were made", made.load()); for (auto &p : got) CHECK_MSG(p == got[0], "threads have different instances"); auto o = Singleton<One<2>>::get_instance(); CHECK(made == 2 && o->value == 2); got.clear(); CHECK_MSG(ended == 0, "the instance ended"); CHECK(Singleton<One<1>>::get_instance()->big.size() == 100); if (n > 1) src.nontrivial();
}

PROPERTY(clocks, {.weight = 1, .batch = 100, .max_cases = 4000}) {
  using namespace std::chrono; auto now = [] { return uint64_t(duration_cast<nanoseconds>(steady_clock::now().time_since_epoch()).count()); };
  // Where on earth: with and without summer time, with odd offsets.
  static const char *const kZones[] = {"UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "LINT-14", "AOE12", "CET-1CEST,M3.5.0,M10.5.0/3"}; ::setenv("TZ", kZones[src.below(7)], 1); ::tzset();
  uint64_t a0 = now(); Time t; uint64_t a1 = now(), last = 0, lastn = 0; Src::Loop loop(src, 10);
  while (loop.more()) {
    if (src.chance(1, 3)) std::this_thread::sleep_for(microseconds(src.size(0, 4000))); uint64_t b0 = now(), k = t.tickcount(), n = Time::nanoseconds(), b1 = now(); CHECK_MSG(k >= (b0 - a1) / 1000000 && k <= (b1 - a0) / 1000000, "%llu ms passed, %llu were counted", (unsigned long long)((b1 - a0) / 1000000), (unsigned long long)k); CHECK_MSG(k >= last && n >= lastn, "a clock went back"); CHECK_MSG(n >= b0 && n <= b1, "the nanoseconds are not those of the steady clock"); last = k; lastn = n;
    int e = src.flip() ? int(src.below(140)) : int(src.bits(32)); std::string text = strerror(e); CHECK_MSG(get_error_str(e) == text && text == strerror_pl(e), "error %d is '%s', said to be '%s' and '%s'", e, text.c_str(), get_error_str(e).c_str(), strerror_pl(e));
    time_t s0 = ::time(nullptr), s = Time::timestamp(), s1 = ::time(nullptr); CHECK_MSG(s >= s0 && s <= s1 + 1, "the time is %ld, given as %ld", (long)s0, (long)s);
    time_t f0 = Time::timestamp(); std::string f = src.flip() ? Time::format() : Time::format(src.flip()).substr(0, 19); time_t f1 = Time::timestamp(); bool any = false; for (time_t x = f0; x <= f1; ++x) any |= Time::format(x) == f; CHECK_MSG(any, "the time now is formatted as %s", f.c_str());
    time_t x = src.flip() ? time_t(src.bits(33)) : time_t(src.bits(36)) - (time_t(1) << 35); tm m{}; ::localtime_r(&x, &m); char b[64]; ::strftime(b, sizeof b, "%FT%T", &m); f = Time::format(x); CHECK_MSG(f == b, "time %ld is %s here, formatted as %s", (long)x, b, f.c_str());
    auto ms = [] { return int64_t(duration_cast<milliseconds>(system_clock::now().time_since_epoch()).count()); }; int64_t m0 = ms(); f = Time::format(true); int64_t m1 = ms(); any = false;
    for (int64_t y = m0; y <= m1 && !any; ++y) { time_t sec = time_t(y / 1000); ::localtime_r(&sec, &m); ::strftime(b, sizeof b, "%FT%T", &m); char d[80]; snprintf(d, sizeof d, "%s.%03d", b, int(y % 1000)); any = f == d; } CHECK_MSG(any, "between milliseconds %lld and %lld the time was formatted as %s", (long long)m0, (long long)m1, f.c_str());
  }
  if (loop.count() > 2) src.nontrivial();
}

// The last words of a thread that is collected.
PROPERTY(collected, {.weight = 1, .batch = 20, .max_cases = 400}) {
  Watch w; auto name = plain_text(src, 30); auto old = GLOBALS["app.name"]; GLOBALS["app.name"] = name; GLOBALS["app.debug"] = true; size_t n = src.range(1, 4); std::ostringstream id; std::vector<std::string> want;
  std::thread t([&] { id << std::this_thread::get_id(); std::vector<std::unique_ptr<ThreadCollect>> all; for (size_t i = 0; i < n; ++i) all.push_back(std::make_unique<ThreadCollect>()); while (!all.empty()) { all.pop_back(); want.push_back(std::to_string(all.size())); } }); t.join();
  GLOBALS["app.debug"] = false; GLOBALS["app.name"] = old; std::string all; for (auto &k : want) all += "\x1B[32m[" + name + "] thread(" + id.str() + ") collect wait exit: " + k + "\x1B[0m\n";
  CHECK_MSG(w.shown.str() == all, "shown as\n%s\nnot\n%s", w.shown.str().c_str(), all.c_str()); if (n > 1) src.nontrivial();
}
