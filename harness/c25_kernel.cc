// The engine: its registry of nets, its console, its executors.
#include "net_common.h"
#include <atomic>
#include <condition_variable>
#include <functional>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/result/basic.h"
#include "plain/engine/kernel.h"
#include "plain/engine/timer_queue.h"
#include "plain/engine/timer.h"
#include "plain/net/connection/manager.h"

namespace {
constexpr uint16_t kPort = 25000;
std::string join(const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += "<" + s + ">"; return r; }
// One line of the console, without its end; empty optional when it closed.
struct Client {
  int fd; std::string buf; bool closed = false;
  explicit Client(uint16_t port = kPort) : fd(dial(port)) { if (fd < 0) pbt::fail("the console cannot be reached"); }
  ~Client() { ::close(fd); }
  bool line(std::string *out) {
    for (;;) {
      size_t e = buf.find('\n'); if (e != buf.npos) { *out = buf.substr(0, e); buf.erase(0, e + 1); return true; }
      char b[512]; ssize_t k = ::recv(fd, b, sizeof b, 0); if (k < 0 && (errno == EAGAIN || errno == EINTR)) { sched::point(); continue; } if (k <= 0) { closed = true; return false; } buf.append(b, size_t(k));
    }
  }
  // The answer to a command; several lines are separated by CR LF, the last ends with CR CR? see below.
  std::string answer() { std::string l; if (!line(&l)) pbt::fail("the console closed the connection instead of answering"); if (l.empty() || l.back() != '\r') pbt::fail("an answer of the console does not end with a carriage return: %s", pbt::hex(l).c_str()); l.pop_back(); return l; }
};
}  // namespace

// Commands: each line is answered by its handler, in order, from one or more
// clients, while handlers are added and replaced.
PROPERTY(commands, {.weight = 3, .batch = 1, .hang_s = 60}) {
  struct Cmd { std::string text; std::string want; };
  static const char *names[] = {"echo", "ec", "count", "quiet"};
  int clients = 1 + src.below(2); bool churn = src.flip(); std::vector<std::vector<Cmd>> plan(clients); std::vector<std::string> wire(clients); std::vector<size_t> step(clients); int total = 0; std::vector<bool> ends(clients);
  for (int c = 0; c < clients; ++c) {
    pbt::Src::Loop loop(src, 15);
    while (loop.more()) {
      std::string text = src.chance(1, 6) ? std::string(1 + src.below(3), ' ') : ""; int n = src.below(4); std::vector<std::string> args; int which = src.below(4); bool blank = src.chance(1, 8);
      if (!blank) text += names[which];
      for (int i = 0; i < n && !blank; ++i) { std::string a; size_t len = 1 + src.size(0, 30); for (size_t k = 0; k < len; ++k) a += char("abcxyz-_/=09"[src.below(12)]); args.push_back(a); text += std::string(1 + (src.chance(1, 5) ? src.below(3) : 0), ' ') + a; }
      if (src.chance(1, 8)) text += " ";
      std::string want = blank || which == 3 ? "" : std::string(which == 0 ? "echo" : which == 1 ? "ec" : "n") + (which == 2 ? std::to_string(args.size()) : join(args));
      plan[c].push_back({text, want}); wire[c] += text + (src.flip() ? "\r\n" : "\n"); ++total;
    }
    ends[c] = src.chance(1, 3); step[c] = 1 + src.size(0, 60); src.note("client %d: %zu commands%s; ", c, plan[c].size(), ends[c] ? " and an unknown one" : "");
  }
  quiet_log(); sched::start(src, limits());
  auto engine = ENGINE; std::string keep = "echo and more";
  auto echo = [](const char *p) { return [p](const std::vector<std::string> &a) { return p + join(a); }; };
  engine->register_console_handler("ec", echo("wrong"), "first"); engine->register_console_handler(std::string_view(keep).substr(0, 4), echo("echo"), "Echo"); engine->register_console_handler(std::string_view(keep).substr(0, 2), echo("ec"), std::string_view("Short form").substr(0, 5));
  engine->register_console_handler("count", [](const std::vector<std::string> &a) { return "n" + std::to_string(a.size()); }); engine->register_console_handler("quiet", [](const std::vector<std::string> &) { return std::string(); });
  if (!engine->enable_console("127.0.0.1:25000")) pbt::fail("the console could not be enabled"); if (engine->enable_console("127.0.0.1:25001")) pbt::fail("the console was enabled twice");
  { std::vector<std::thread> ts;
    for (int c = 0; c < clients; ++c) ts.emplace_back([&, c] {
      Client k; std::thread sender([&] { send_all(k.fd, wire[c], step[c]); });
      for (auto &p : plan[c]) { if (p.want.empty()) continue; std::string got = k.answer(); if (got != p.want) pbt::fail("the console answered '%s' to '%s', not '%s'", got.c_str(), p.text.c_str(), p.want.c_str()); }
      sender.join();
      if (ends[c]) { send_all(k.fd, "nosuch thing\n", 100); std::string l; if (k.line(&l)) pbt::fail("an unknown command was answered: %s", l.c_str()); }
    });
    if (churn) ts.emplace_back([&] { for (int i = 0; i < 5; ++i) { std::string n = "x" + std::to_string(i); engine->register_console_handler(n, echo("x"), n); std::this_thread::yield(); } });
    for (auto &t : ts) t.join(); }
  Client k; send_all(k.fd, "help ec echo nope\n", 100); std::string a = k.answer(), b = k.answer(); if (a != "ec\tShort" || b != "echo\tEcho") pbt::fail("help says '%s' and '%s'", a.c_str(), b.c_str());
  send_all(k.fd, "help\n", 100); std::set<std::string> all; size_t lines = 6 + (churn ? 5 : 0); for (size_t i = 0; i < lines; ++i) { std::string l = k.answer(); all.insert(l.substr(0, l.find('\t'))); } for (auto n : {"ec", "echo", "help", "kill", "killall", "list"}) if (!all.count(n)) pbt::fail("help leaves out %s", n);
  if (total >= 3 && sched::stats().switches > 8) src.nontrivial();
}

// The registry: one running net per name, listed, killed by name.
PROPERTY(registry, {.weight = 3, .batch = 1, .hang_s = 60}) {
  struct Slot { std::string name; std::unique_ptr<net::Listener> l; bool up = false; };
  int n = 1 + src.below(4); std::vector<Slot> s(n); for (auto &x : s) { static const char *nm[] = {"a", "ab", "unknown1", "", "console2", "unknown2"}; x.name = nm[src.below(6)]; }
  struct Op { int what, which; }; std::vector<Op> ops; { pbt::Src::Loop loop(src, 20); while (loop.more()) ops.push_back({(int)src.below(5), (int)src.below(n)}); }
  net::Mode mode = gen_mode(src); quiet_log(); sched::start(src, limits()); auto engine = ENGINE; if (!engine->enable_console("127.0.0.1:25000")) pbt::fail("the console could not be enabled");
  auto k = std::make_unique<Client>(); int unnamed = 0, kills = 0; (void)unnamed;
  auto listed = [&] { send_all(k->fd, "list\n", 100); std::string l = k->answer(); size_t total = size_t(atoi(l.c_str() + 7)); if (l.rfind("Total: ", 0) != 0) pbt::fail("list answers %s", l.c_str()); std::set<std::string> r; for (size_t i = 0; i < total; ++i) { std::string x = k->answer(); if (x[0] != '\t') pbt::fail("list line %s", x.c_str()); std::string nm = x.substr(1, x.find(" count: ") - 1); if (!r.insert(nm).second) pbt::fail("%s is listed twice", nm.c_str()); } return r; };
  auto verify = [&] {
    auto r = listed(); size_t up = 0; for (auto &x : s) { if (x.up != (x.l && x.l->running())) pbt::fail("the net '%s' is%s running", x.name.c_str(), x.up ? " not" : ""); if (x.up) { ++up; if (!x.name.empty() && !r.count(x.name)) pbt::fail("the net '%s' runs but is not listed", x.name.c_str()); } }
    if (!r.count("console")) pbt::fail("the console is not listed"); if (r.size() != up + 1) pbt::fail("%zu nets are listed, but %zu run besides the console", r.size(), up);
  };
  for (auto &o : ops) {
    Slot &x = s[o.which];
    switch (o.what) {
      case 0: case 1: {
        if (x.up) break; x.l = std::make_unique<net::Listener>(setting(x.name.c_str(), mode, 4, 1)); bool taken = false; if (!x.name.empty()) for (auto &y : s) if (y.up && y.name == x.name) taken = true;
        bool threw = false, ok = false; try { ok = x.l->start(); } catch (const std::runtime_error &) { threw = true; }
        if (x.name.empty() ? threw || !ok : false) pbt::fail("a net without a name could not be started");
        // A generated name may have taken this one.
        if (taken && !threw) pbt::fail("two nets called '%s' were started", x.name.c_str()); if (!taken && threw && x.name.rfind("unknown", 0) != 0) pbt::fail("the name '%s' is free but was refused", x.name.c_str());
        x.up = ok; if (threw) x.l.reset(); break;
      }
      case 2: if (x.up) { x.l->stop(); x.up = false; if (o.which & 1) x.l.reset(); } break;
      case 3: {
        if (x.name.empty()) break; bool any = false; for (auto &y : s) if (y.up && y.name == x.name) any = true; bool maybe = x.name.rfind("unknown", 0) == 0;
        send_all(k->fd, "kill " + x.name + " nope console\n", 100); std::string l = k->answer(); ++kills;
        if (any ? l != "nope console fails" : l != x.name + " nope console fails" && !maybe) pbt::fail("kill of '%s', which is %s, answers '%s'", x.name.c_str(), any ? "running" : "not running", l.c_str());
        if (any) for (auto &y : s) if (y.up && y.name == x.name) { if (!eventually([&] { return !y.l->running(); })) pbt::fail("the net '%s' was killed but runs", y.name.c_str()); y.up = false; }
        if (!any && maybe) for (auto &y : s) if (y.up && y.name.empty() && !y.l->running()) y.up = false;
        break;
      }
      case 4: { if (kills > 2) break; ++kills; send_all(k->fd, (o.which & 1) ? "killall\n" : "kill\n", 100); std::string l = k->answer(); if (l != "ok") pbt::fail("killall answers '%s'", l.c_str()); for (auto &y : s) if (y.up) { if (y.l->running()) pbt::fail("killall left the net '%s' running", y.name.c_str()); y.up = false; } break; }
    }
    verify();
  }
  sched::calm(); for (auto &x : s) if (x.up) { x.l->stop(); x.up = false; } verify();
  if (ops.size() >= 3) src.nontrivial();
}
// Nets started and stopped by several threads at once.
PROPERTY(registry_threads, {.weight = 1, .batch = 1, .hang_s = 60}) {
  int n = 2 + src.below(2); std::vector<std::string> names; std::vector<int> rounds; for (int i = 0; i < n; ++i) { static const char *nm[] = {"a", "", "b"}; names.push_back(nm[src.below(3)]); rounds.push_back(1 + src.below(3)); }
  quiet_log(); sched::start(src, limits()); auto engine = ENGINE; std::map<std::string, int> holders; std::vector<std::thread> ts; src.nontrivial();
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
    for (int r = 0; r < rounds[i]; ++r) {
      net::Listener l(setting(names[i].c_str(), net::Mode::Epoll, 2, 1)); bool ok = false, alone; { sched::Quiet q; alone = !holders[names[i]]; }
      try { ok = l.start(); } catch (const std::runtime_error &) { if (names[i].empty()) pbt::fail("a net without a name was refused"); }
      if (ok && !names[i].empty()) { sched::Quiet q; if (holders[names[i]]++) pbt::fail("two nets called '%s' run", names[i].c_str()); } (void)alone;
      std::this_thread::yield(); if (ok && !names[i].empty()) { sched::Quiet q; --holders[names[i]]; } if (ok) l.stop();
    }
  });
  for (auto &t : ts) t.join(); sched::calm();
  for (auto nm : {"a", "b"}) { net::Listener l(setting(nm, net::Mode::Epoll, 2, 1)); bool ok = false; try { ok = l.start(); } catch (const std::runtime_error &) {} if (!ok) pbt::fail("the name '%s' is free but was refused", nm); l.stop(); }
}
// What is removed is the net named, nothing else.
PROPERTY(remove_by_name, {.weight = 1, .batch = 1, .hang_s = 60}) {
  bool first = src.flip(); quiet_log(); sched::start(src, limits()); auto engine = ENGINE; net::Listener a(setting("net", net::Mode::Epoll, 2, 1)), b(setting("network", net::Mode::Epoll, 2, 1)); CHECK(a.start() && b.start()); std::string text = "network"; src.nontrivial();
  engine->remove_net(std::string_view(text).substr(0, first ? 3 : 7));
  for (auto nm : {"net", "network"}) { net::Listener l(setting(nm, net::Mode::Epoll, 2, 1)); bool ok = false; try { ok = l.start(); } catch (const std::runtime_error &) {} bool gone = (std::string(nm) == "net") == first; if (ok != gone) pbt::fail("'%s' was %s", nm, gone ? "not removed" : "removed with another one"); if (ok) l.stop(); }
  sched::calm(); a.stop(); b.stop();
}
// A console that cannot listen is refused, and can be enabled elsewhere.
PROPERTY(console_address, {.weight = 1, .batch = 1, .hang_s = 60}) {
  bool name = src.flip(); quiet_log(); sched::start(src, limits()); auto engine = ENGINE; src.nontrivial(); net::setting_t st = setting(name ? "console" : "other", net::Mode::Epoll, 2, 1); st.address = "127.0.0.1:25000"; net::Listener l(st); CHECK(l.start());
  if (src.flip() && engine->enable_console("no address")) pbt::fail("a console was enabled on no address");
  if (engine->enable_console(name ? "127.0.0.1:25001" : "127.0.0.1:25000")) pbt::fail("a console was enabled although its %s is taken", name ? "name" : "address");
  if (!name) { if (!engine->enable_console("127.0.0.1:25002")) pbt::fail("after a failure the console cannot be enabled at all"); Client k(25002); send_all(k.fd, "help list\n", 50); std::string a = k.answer(); CHECK_MSG(a == "list\tShow net list", "help says %s", a.c_str()); }
}
// Executors and timers of an engine of one's own.
PROPERTY(executors, {.weight = 1, .batch = 1, .hang_s = 60}) {
  using namespace plain::concurrency; plain::engine_option o; o.max_cpu_threads = 1 + src.below(3); o.max_background_threads = 1 + src.below(4); src.nontrivial(); int n = src.below(6); bool work = src.flip();
  src.note("%zu and %zu threads, %d tasks", o.max_cpu_threads, o.max_background_threads, n);
  quiet_log(); sched::start(src, limits()); int started = 0, ended = 0; o.thread_started_callback = [&](std::string_view) { sched::Quiet q; ++started; }; o.thread_terminated_callback = [&](std::string_view) { sched::Quiet q; ++ended; };
  int ran = 0, posted = 0, released = 0; auto counted = std::shared_ptr<int>(new int(0), [&](int *p) { sched::Quiet q; ++released; delete p; }); std::shared_ptr<executor::ThreadPool> cpu, back;
  { plain::Kernel k(o); cpu = k.thread_pool_executor(); back = k.background_executor();
    if (cpu->max_concurrency_level() != int(o.max_cpu_threads) || back->max_concurrency_level() != int(o.max_background_threads)) pbt::fail("asked for %zu and %zu threads, the executors have %d and %d", o.max_cpu_threads, o.max_background_threads, cpu->max_concurrency_level(), back->max_concurrency_level());
    auto worker = k.make_worker_thread_executor(); auto manual = k.make_manual_executor(); std::vector<decltype(cpu->submit(std::function<int()>{}))> v;
    for (int i = 0; i < n; ++i) { auto f = [&, i, counted] { sched::Quiet q; ++ran; return i; }; ++posted; switch (i % 4) { case 0: v.push_back(cpu->submit(f)); break; case 1: v.push_back(back->submit(f)); break; case 2: v.push_back(worker->submit(f)); break; default: v.push_back(k.thread_executor()->submit(f)); } }
    for (int i = 0; i < n && work; ++i) if (v[i].get() != i) pbt::fail("a task returned something else");
    if (work && ran != posted) pbt::fail("%d of %d tasks ran", ran, posted);
    if (src.verbose()) {} manual->post([counted] {}); }
  counted.reset(); if (!released) pbt::fail("an engine that ended kept a task"); if (!cpu->shutdown_requested() || !back->shutdown_requested()) pbt::fail("an engine ended without its executors");
  cpu.reset(); back.reset(); if (sched::live_threads() != 1) pbt::fail("%llu threads are left of an engine", (unsigned long long)sched::live_threads()); if (started != ended) pbt::fail("%d threads started and %d ended", started, ended);
}
