// Waiting for the process of a pid file, with recorded signals under a virtual clock; and turning into a daemon.
#include "vsched.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "plain/sys/process.h"
using namespace plain;
namespace {
// What stands in for the processes of the system: one pid that ends some time after it was told to.
struct System { bool on = false; int pid = 0; int needs = 1, got = 0; uint64_t delay = 0, ends = ~0ull; bool denied = false; int strangers = 0, other_signals = 0; } sys;
}
extern "C" int kill(pid_t p, int sig) noexcept {
  if (!sys.on) return int(syscall(SYS_kill, p, sig));
  if (p != sys.pid) { ++sys.strangers; errno = ESRCH; return -1; }
  if (sched::now_ns() >= sys.ends) { errno = ESRCH; return -1; }
  if (sig == SIGUSR1) { if (++sys.got == sys.needs) sys.ends = sched::now_ns() + sys.delay; } else if (sig != 0) ++sys.other_signals;
  return 0;
}
PROPERTY(waiting, {.weight = 1, .batch = 1, .hang_s = 60}) {
  std::string name = "wait" + std::to_string(getpid()) + "x"; ::unlink(name.c_str()); int kind = int(src.below(8)); bool valid = true;
  sys = {}; sys.pid = 1 + int(src.below(99999)); sys.needs = int(src.below(3)); sys.delay = src.flip() ? src.below(900) * 1000000ull : src.below(9000) * 1000000ull; std::string text = std::to_string(sys.pid);
  if (kind == 0) { valid = false; static const char *bad[] = {"", "x", "-1", "0", "-12345", "\n \n"}; text = bad[src.below(6)]; } else if (kind == 1) text += "\n"; else if (kind == 2) text = " " + text + " 17";
  bool there = !src.chance(1, 8); if (there) std::ofstream(name) << text; else valid = false; if (sys.needs == 0) sys.ends = src.flip() ? 0 : sys.delay; src.note("pid file '%s', %s, ends %llu ms after signal %d", text.c_str(), there ? "there" : "absent", (unsigned long long)(sys.delay / 1000000), sys.needs);
  sched::start(src); sched::calm(); uint64_t t0 = sched::now_ns(); if (sys.needs == 0 && sys.ends) sys.ends += t0; sys.on = true; bool r = process::waitexit(src.chance(1, 20) && !valid ? nullptr : name.c_str()); sys.on = false; uint64_t t1 = sched::now_ns(); ::unlink(name.c_str());
  CHECK_MSG(sys.strangers == 0 && sys.other_signals == 0, "%d signals went to processes that are not named and %d were of another kind", sys.strangers, sys.other_signals);
  CHECK_MSG(r == valid, "waiting for the process of a pid file '%s' gives %d", there ? text.c_str() : "(absent)", r); if (!valid) { CHECK_MSG(t1 - t0 < 1000000000ull, "nobody was waited for"); return; }
  src.nontrivial(); CHECK_MSG(t1 >= sys.ends, "the process had not ended yet"); uint64_t from = std::max(sys.ends, t0); CHECK_MSG(t1 - from <= 4500000000ull, "the process ended, and that was noticed %llu ms later", (unsigned long long)((t1 - from) / 1000000)); if (sys.needs && sys.ends > t0) CHECK_MSG(sys.got >= sys.needs, "the process was told %d times", sys.got);
}
PROPERTY(daemon, {.weight = 1, .batch = 1, .max_cases = 60}) {
  int p[2]; CHECK(::pipe(p) == 0); int exit_with = int(src.below(3)); mode_t mask = mode_t(src.below(64)); if (exit_with) src.nontrivial();
  pid_t child = ::fork(); CHECK(child >= 0);
  if (child == 0) {
    ::close(p[0]); ::umask(mask); pid_t me = ::getpid(); bool r = process::daemon(); struct { int r, sid, pgid, pid, hup, fds, mask, was; } out{}; out.r = r; out.sid = ::getsid(0); out.pgid = ::getpgrp(); out.pid = ::getpid(); struct sigaction a{}; ::sigaction(SIGHUP, nullptr, &a); out.hup = a.sa_handler == SIG_IGN; for (int i = 0; i < 3; ++i) out.fds += ::fcntl(i, F_GETFD) != -1; out.mask = int(::umask(0)); out.was = me; (void)!::write(p[1], &out, sizeof out); ::_exit(0);
  }
  ::close(p[1]); int st = 0; ::waitpid(child, &st, 0); CHECK_MSG(WIFEXITED(st) && WEXITSTATUS(st) == 0, "who starts a daemon ends with status %d", st);
  struct { int r, sid, pgid, pid, hup, fds, mask, was; } in{}; ssize_t n = 0; while (n < ssize_t(sizeof in)) { ssize_t k = ::read(p[0], reinterpret_cast<char *>(&in) + n, sizeof in - size_t(n)); if (k <= 0) break; n += k; } CHECK_MSG(n == ssize_t(sizeof in), "the daemon does not go on"); char c; CHECK_MSG(::read(p[0], &c, 1) == 0, "more than one daemon goes on"); ::close(p[0]);
  CHECK_MSG(in.r == 1 && in.pid != in.was, "starting a daemon gives %d", in.r); CHECK_MSG(in.sid == in.pgid && in.sid != ::getsid(0) && in.sid != in.pid, "the daemon is in session %d as %d", in.sid, in.pid); CHECK_MSG(in.hup, "the daemon ends when its terminal does"); CHECK_MSG(in.fds == 0, "the daemon keeps %d standard descriptors", in.fds); CHECK_MSG(in.mask == 0, "the daemon has the mask %o", in.mask);
}
