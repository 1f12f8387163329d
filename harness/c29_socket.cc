// Sockets and listeners, step by step against what the system says and a model.
#include "pbt.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <chrono>
#include <deque>
#include <fcntl.h>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/resource.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <vector>
#include "plain/basic/logger.h"
#include "plain/net/socket/api.h"
#include "plain/net/socket/basic.h"
#include "plain/net/socket/listener.h"

using pbt::Src;
namespace net = plain::net; namespace sk = plain::net::socket;
using Sock = sk::Basic; using SockP = std::shared_ptr<Sock>; using ms = std::chrono::milliseconds;
namespace {
void hush() { static bool once = false; if (once) return; once = true; plain::Logger::set_output([](const std::string_view &) {}); plain::Logger::set_flush([] {}); plain::Logger::set_level(plain::LogLevel::Fatal); if (!sk::initialize()) { /* no core limit to be had; SIGPIPE is what matters */ } ::signal(SIGPIPE, SIG_IGN); }
plain::bytes_t B(const std::string &s) { return plain::bytes_t(reinterpret_cast<const std::byte *>(s.data()), s.size()); }
bool open_fd(int fd) { return fd >= 0 && ::fcntl(fd, F_GETFD) != -1; }
bool raw_nb(int fd) { return ::fcntl(fd, F_GETFL) & O_NONBLOCK; }
bool have6() { static int k = -1; if (k < 0) { int fd = ::socket(AF_INET6, SOCK_STREAM, 0); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; k = fd >= 0 && ::bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0; if (fd >= 0) ::close(fd); } return k; }
bool readable(int fd, int wait) { pollfd p{fd, POLLIN, 0}; return ::poll(&p, 1, wait) > 0; }
std::string unix_name(int n) { return "sk" + std::to_string(getpid()) + "." + std::to_string(n); }
net::Address unix_addr(const std::string &path) { sockaddr_un u{}; u.sun_family = AF_UNIX; memcpy(u.sun_path, path.data(), path.size()); return net::Address{plain::bytes_t(reinterpret_cast<const std::byte *>(&u), offsetof(sockaddr_un, sun_path) + path.size() + 1)}; }
// What getsockname or getpeername themselves say.
std::string raw_name(int fd, bool peer) { sockaddr_storage s{}; socklen_t l = sizeof s; int e = peer ? ::getpeername(fd, reinterpret_cast<sockaddr *>(&s), &l) : ::getsockname(fd, reinterpret_cast<sockaddr *>(&s), &l); return e ? "" : std::string(reinterpret_cast<char *>(&s), l); }
std::string data_of(const net::Address &a) { auto d = a.data(); return std::string(reinterpret_cast<const char *>(d.data()), d.size()); }
const char *name_of(int e) { switch (e) { case ECONNRESET: return "ECONNRESET"; case ECONNABORTED: return "ECONNABORTED"; case EPROTO: return "EPROTO"; case EINTR: return "EINTR"; case EBADF: return "EBADF"; case ENOTSOCK: return "ENOTSOCK"; case EOPNOTSUPP: return "EOPNOTSUPP"; case EFAULT: return "EFAULT"; case ETIMEDOUT: return "ETIMEDOUT"; case EWOULDBLOCK: return "EWOULDBLOCK"; } return nullptr; }
// The last error is the one of this failure, under its own name or none known.
void failed_with(int e, const char *what) {
  auto err = sk::get_last_error(); int code = e == EWOULDBLOCK ? sk::kErrorWouldBlock : e; CHECK_MSG(int(err.code()) == code, "%s failed with %d, the error kept is %d", what, code, int(err.code()));
  for (int k : {ECONNRESET, ECONNABORTED, EPROTO, EINTR, EBADF, ENOTSOCK, EOPNOTSUPP, EFAULT, ETIMEDOUT, EWOULDBLOCK}) if (k != e) CHECK_MSG(err.message() != name_of(k), "%s failed with %d, the error kept is called %s", what, e, err.message().c_str());
  if (name_of(e)) CHECK_MSG(err.message() == name_of(e), "%s failed with %s, the error kept is called %s", what, name_of(e), err.message().c_str());
}
struct Fill { std::vector<int> fd; void to(int n) { int z = ::open("/dev/null", O_RDONLY); if (z < 0) pbt::inconclusive("no descriptors"); fd.push_back(z); while (fd.back() < n) { int k = ::dup(z); if (k < 0) pbt::inconclusive("no descriptors"); fd.push_back(k); } } ~Fill() { for (int f : fd) ::close(f); } };
bool room() { struct rlimit rl; if (getrlimit(RLIMIT_NOFILE, &rl) != 0) return false; if (rl.rlim_cur >= 1400) return true; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < 1400) return false; rl.rlim_cur = 1400; return setrlimit(RLIMIT_NOFILE, &rl) == 0; }

// One direction of a conversation: what is under way, and whether it ended.
struct Way { std::string q; bool shut = false; /* the writer is done */ };
enum Kind { kTcp4, kTcp6, kUnix };
}  // namespace

// Two ends and their clones, driven at random; what is sent is what is received.
PROPERTY(conversation, pbt::Options{.weight = 4, .batch = 50, .hang_s = 60}) {
  hush(); Kind kind = Kind(src.pick({3, 1, 2})); if (kind == kTcp6 && !have6()) kind = kTcp4; Fill fill; if (src.chance(1, 30) && room()) { fill.to(int(1018 + src.below(12))); src.label("high numbers"); }
  std::string path = unix_name(0); ::unlink(path.c_str()); sk::Listener l; net::Address at = kind == kUnix ? unix_addr(path) : net::Address(kind == kTcp4 ? std::string_view("127.0.0.1:0") : std::string_view("[::1]:0"), true); src.note("a conversation over %s", kind == kUnix ? "a Unix socket" : kind == kTcp4 ? "IPv4" : "IPv6");
  CHECK_MSG(l.init(at), "a listener cannot be made"); CHECK(l.is_nonblocking() && raw_nb(l.id())); CHECK(data_of(l.address()) == raw_name(l.id(), false)); auto spare = std::make_shared<Sock>(); CHECK_MSG(!l.accept(spare) && !spare->valid(), "a listener nobody called accepts"); failed_with(EWOULDBLOCK, "accepting nothing");
  // Connecting leaves the blocking mode as it was.
  SockP a = std::make_shared<Sock>(), b = std::make_shared<Sock>(); bool nb = false; if (kind == kUnix || src.flip()) { CHECK(a->create(kind == kUnix ? AF_UNIX : kind == kTcp6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0)); nb = src.flip(); CHECK(a->set_nonblocking(nb)); } uint16_t port = kind == kUnix ? 0 : l.address().port();
  bool ok; if (kind == kUnix) { auto d = l.address().data(); ok = sk::connect(a->id(), reinterpret_cast<const sockaddr *>(d.data()), uint32_t(d.size()), ms(5000)); } else if (src.flip()) ok = a->connect(kind == kTcp4 ? "127.0.0.1" : "::1", port, ms(src.flip() ? 5000 : 0)); else ok = a->connect((kind == kTcp4 ? "127.0.0.1:" : "[::1]:") + std::to_string(port), ms(src.flip() ? 5000 : 0));
  CHECK_MSG(ok && a->valid() && !a->error() && bool(*a), "cannot connect to a listener"); CHECK_MSG(raw_nb(a->id()) == nb && a->is_nonblocking() == nb, "connecting made a %sblocking socket %sblocking", nb ? "non" : "", nb ? "" : "non"); CHECK(a->type() == sk::Type::Tcp);
  CHECK(readable(l.id(), 20000)); if (src.flip()) CHECK_MSG(l.accept(b) && b->valid(), "a caller is not accepted"); else { Sock lis{::dup(l.id())}; net::Address who; int fd; if (src.flip()) { fd = lis.accept(who); CHECK_MSG(fd >= 0, "a caller is not accepted"); CHECK_MSG(data_of(who) == raw_name(fd, true), "accept tells another address than that of the peer (%s)", who.text().c_str()); } else fd = lis.accept(); CHECK_MSG(fd >= 0, "a caller is not accepted"); CHECK(b->set_id(fd)); }
  for (auto &s : {a, b}) { CHECK_MSG(data_of(s->address()) == raw_name(s->id(), false) && data_of(s->peer_address()) == raw_name(s->id(), true), "a socket says another address than it has"); } if (kind != kUnix) { CHECK(a->address().text() == b->peer_address().text() && b->address().text() == a->peer_address().text() && b->address().port() == port && b->address().host() == (kind == kTcp4 ? "127.0.0.1" : "::1")); int one = 1; for (auto &s : {a, b}) sk::setsockopt(s->id(), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
  for (auto &s : {a, b}) CHECK(s->set_nonblocking(true)); std::vector<SockP> end[2] = {{a}, {b}}; Way way[2]; size_t sent = 0, got = 0; a.reset(); b.reset();
  pbt::Src::Loop loop(src, 80);
  while (loop.more()) {
    int me = int(src.below(2)); auto &mine = end[me]; if (mine.empty()) continue; SockP s = mine[src.below(mine.size())]; Way &out = way[me], &in = way[1 - me];
    switch (src.pick({6, 6, 3, 2, 2, 1, 1, 2, 1})) {
      case 0: { if (out.shut) break; std::string d = src.flip() ? src.bytes(src.size(1, 60)) : src.bytes(4) + std::string(src.size(0, 30000), char('a' + src.below(26))); if (out.q.size() + d.size() > 60000) break; int n = s->send(B(d), MSG_NOSIGNAL); src.note("%d: send %zu -> %d", me, d.size(), n); if (n == sk::kErrorWouldBlock) { failed_with(EWOULDBLOCK, "a send that would block"); CHECK_MSG(!out.q.empty(), "an empty socket does not take %zu bytes", d.size()); break; } CHECK_MSG(n > 0 && size_t(n) <= d.size(), "sending %zu bytes gives %d", d.size(), n); if (out.q.empty() && d.size() < 4000) CHECK_MSG(size_t(n) == d.size(), "an empty socket takes %d of %zu bytes", n, d.size()); out.q += d.substr(0, size_t(n)); sent += size_t(n); break; }
      case 1: { plain::bytes_t b; size_t want = src.flip() ? src.size(1, 100) : src.size(1, 40000); b.reserve(want); size_t cap = b.capacity(); if (!in.q.empty() && !readable(s->id(), 20000)) pbt::fail("%zu bytes sent cannot be received", in.q.size()); if (in.q.empty() && in.shut && !readable(s->id(), 20000)) pbt::fail("the end of a conversation cannot be seen"); int n = s->recv(b); src.note("%d: recv %zu -> %d", me, cap, n);
        if (in.q.empty() && in.shut) { CHECK_MSG(n == 0, "at the end of a conversation receiving gives %d", n); break; } if (in.q.empty()) { CHECK_MSG(n == sk::kErrorWouldBlock, "receiving nothing gives %d", n); failed_with(EWOULDBLOCK, "receiving nothing"); break; } CHECK_MSG(n > 0 && size_t(n) <= std::min(cap, in.q.size()) && memcmp(b.data(), in.q.data(), size_t(n)) == 0, "%d bytes received with room for %zu are not the first of the %zu sent", n, cap, in.q.size()); in.q.erase(0, size_t(n)); got += size_t(n); break; }
      case 2: { int raw = 0; size_t n = s->avail(); CHECK(::ioctl(s->id(), FIONREAD, &raw) == 0); CHECK_MSG(n <= in.q.size() && size_t(raw) >= n, "%zu bytes are said to be available, %d are, %zu were sent", n, raw, in.q.size()); if (kind == kUnix) CHECK_MSG(n == in.q.size(), "%zu bytes are said to be available, %zu are", n, in.q.size()); break; }
      case 3: { if (mine.size() > 3) break; Sock c = s->clone(); CHECK_MSG(c.valid() && c.id() != s->id() && raw_name(c.id(), true) == raw_name(s->id(), true), "a clone is not the same socket"); mine.push_back(std::make_shared<Sock>(std::move(c))); src.note("%d: clone", me); break; }
      case 4: { int fd = s->release(); CHECK_MSG(open_fd(fd), "releasing a socket closed it"); CHECK(!s->valid() && s->id() == sk::kInvalidId && s->error() && s->send(B("x")) <= 0); auto n = std::make_shared<Sock>(); CHECK(n->set_id(fd) && n->id() == fd && n->valid()); *std::find(mine.begin(), mine.end(), s) = n; src.note("%d: release", me); break; }
      case 5: { auto n = std::make_shared<Sock>(std::move(*s)); CHECK(n->valid()); *std::find(mine.begin(), mine.end(), s) = n; s.reset(); CHECK_MSG(open_fd(n->id()), "a moved socket was closed"); break; }
      case 6: { if (out.shut) break; CHECK(s->shutdown(SHUT_WR)); out.shut = true; src.note("%d: shutdown", me); break; }
      case 7: { if (mine.size() < 2) break; int fd = s->id(); mine.erase(std::find(mine.begin(), mine.end(), s)); if (src.flip()) { CHECK(s->close()); CHECK(!s->valid() && s->id() == sk::kInvalidId); CHECK(s->close()); } s.reset(); CHECK_MSG(!open_fd(fd), "a socket ended but descriptor %d is open", fd); src.note("%d: close a clone", me); break; }
      case 8: { bool on = src.flip(); CHECK(s->set_nonblocking(on)); for (auto &o : mine) CHECK_MSG(raw_nb(o->id()) == on && o->is_nonblocking() == on, "a socket is said to be %sblocking", on ? "" : "non"); CHECK(s->set_nonblocking(true)); break; }
    }
    for (auto &m : end) for (auto &o : m) CHECK_MSG(o->valid() && !o->error() && open_fd(o->id()), "a socket in use became invalid");
  }
  // The rest arrives, then the end.
  for (int me = 0; me < 2; ++me) { Way &out = way[me]; if (!out.shut) CHECK(end[me][0]->shutdown(SHUT_WR)); SockP r = end[1 - me][0]; for (;;) { if (!readable(r->id(), 20000)) pbt::fail("%zu bytes sent cannot be received in the end", out.q.size()); plain::bytes_t b; b.reserve(30000); int n = r->recv(b); if (n == 0) { CHECK_MSG(out.q.empty(), "the conversation ends with %zu bytes missing", out.q.size()); break; } CHECK_MSG(n > 0 && size_t(n) <= out.q.size() && memcmp(b.data(), out.q.data(), size_t(n)) == 0, "what was sent last is not what is received (%d of %zu bytes)", n, out.q.size()); out.q.erase(0, size_t(n)); got += size_t(n); } }
  CHECK(got == sent); std::vector<int> fds; for (auto &m : end) for (auto &o : m) fds.push_back(o->id()); int lf = l.id(); for (auto &m : end) m.clear(); l.close(); fds.push_back(lf); for (int fd : fds) CHECK_MSG(!open_fd(fd), "descriptor %d is open after the end", fd); ::unlink(path.c_str()); src.steps(loop.count()); if (sent && loop.count() >= 3) src.nontrivial();
}

// Calls that fail say so, and why; the socket stays as it was.
PROPERTY(failures, pbt::Options{.weight = 2, .batch = 50, .hang_s = 60}) {
  hush(); size_t n = 2 + src.below(8);
  for (size_t i = 0; i < n; ++i) switch (src.below(10)) {
    case 0: { int fd = ::open("/dev/null", O_RDONLY); char b[4]; int want = src.flip() ? ENOTSOCK : EBADF; if (want == EBADF) ::close(fd); const char *what; bool bad; switch (src.below(6)) { case 0: what = "send"; bad = sk::send(fd, "x", 1, 0) == sk::kSocketError; break; case 1: what = "recv"; bad = sk::recv(fd, b, 4, 0) == sk::kSocketError; break; case 2: what = "listen"; bad = !sk::listen(fd, 3); break; case 3: what = "shutdown"; bad = !sk::shutdown(fd, 2); break; case 4: { what = "accept"; bad = sk::accept(fd, nullptr, nullptr) == sk::kSocketError; break; } default: { int v = 1; what = "setsockopt"; bad = !sk::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &v, sizeof v); break; } } CHECK_MSG(bad, "%s on what is no socket succeeds", what); failed_with(want, what); if (want == EBADF) { CHECK(!sk::close(fd)); failed_with(EBADF, "close"); CHECK(!sk::get_nonblocking(fd)); CHECK(!sk::set_nonblocking(fd, true)); } else ::close(fd); src.note("%s with %s", what, name_of(want)); break; }
    case 1: { // a port nobody listens on
      int t = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); CHECK(::bind(t, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0); std::string me = raw_name(t, false); uint16_t port = net::Address{B(me)}.port(); Sock s; bool made = src.flip(), nb = src.flip(); if (made) { CHECK(s.create()); CHECK(s.set_nonblocking(nb)); } Fill fill; src.note("connect to a dead port"); bool ok = src.flip() ? s.connect("127.0.0.1", port, ms(3000)) : s.connect("127.0.0.1:" + std::to_string(port), ms(src.flip() ? 3000 : 0)); CHECK_MSG(!ok, "a connection to nobody is reported"); failed_with(ECONNREFUSED, "connecting to nobody"); CHECK_MSG(raw_nb(s.id()) == (made && nb), "a connect that failed changed the blocking mode"); ::close(t); break; }
    case 2: { // nobody takes the call
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int t = ::socket(AF_INET, SOCK_STREAM, 0); CHECK(::bind(t, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0 && ::listen(t, 0) == 0); std::string me = raw_name(t, false); memcpy(&a, me.data(), sizeof a); int c[3]; for (int &f : c) { f = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)!::connect(f, reinterpret_cast<sockaddr *>(&a), sizeof a); } 
      Sock s; bool nb = src.flip(); CHECK(s.create()); CHECK(s.set_nonblocking(nb)); Fill fill; int wait = int(20 + src.below(30)); auto t0 = std::chrono::steady_clock::now(); bool ok = s.connect("127.0.0.1", ntohs(a.sin_port), ms(wait)); auto took = std::chrono::duration_cast<ms>(std::chrono::steady_clock::now() - t0).count(); src.note("connect to a busy port, %d ms -> %d after %lld", wait, ok, (long long)took); src.label(ok ? "busy port taken" : "timed out"); if (!ok) { failed_with(ETIMEDOUT, "connecting to a busy port"); CHECK_MSG(took >= wait - 1, "connecting gave up after %lld of %d ms", (long long)took, wait); CHECK_MSG(took < wait + 15000, "connecting took %lld ms instead of %d", (long long)took, wait); } CHECK_MSG(raw_nb(s.id()) == nb, "a connect that timed out changed the blocking mode"); for (int f : c) ::close(f); ::close(t); break; }
    case 3: { Sock s; const char *bad = src.of(std::vector<const char *>{"300.1.2.3:1", "127.0.0.1:99999", "nowhere:5", "[::1:5"}); bool ok = s.connect(bad); CHECK_MSG(!ok, "connected to %s", bad); break; }
    case 4: { // taken addresses
      Sock s, t; CHECK(s.create() && t.create()); CHECK(s.bind(net::Address{"127.0.0.1:0"})); CHECK(s.listen(3)); CHECK_MSG(!t.bind(s.address()), "an address was given twice"); failed_with(EADDRINUSE, "binding a taken address"); net::Address free = t.address(); CHECK(free.port() == 0); CHECK(t.bind()); CHECK_MSG(t.address().port() != 0 && t.address().port() != s.address().port(), "no port was found"); sk::Listener l; CHECK_MSG(!l.init(s.address()), "two listeners have one address"); CHECK(l.init(net::Address{"127.0.0.1:0"})); CHECK(l.address().port() != 0); break; }
    case 5: { Sock none; plain::bytes_t b; b.reserve(4); CHECK(!none.valid() && none.error() && !bool(none) && none.id() == sk::kInvalidId && none.close() && !none.clone().valid() && none.avail() == 0 && none.send(B("x")) == 0 && none.recv(b) == 0 && !none.listen(1) && none.accept() == sk::kInvalidId && !none.bind() && !none.set_nonblocking() && !none.is_nonblocking() && none.release() == sk::kInvalidId && none.shutdown()); net::Address w; CHECK(none.accept(w) == sk::kInvalidId); sk::Listener l; CHECK(!l.accept(std::make_shared<Sock>()) && !l.accept(nullptr) && l.id() == sk::kInvalidId); break; }
    case 6: { // the peer is gone
      int p[2]; CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0); Sock s{p[0]}; CHECK(s.set_nonblocking()); ::close(p[1]); plain::bytes_t b; b.reserve(10); CHECK_MSG(s.recv(b) == 0, "the end is not seen"); int k = s.send(B("x"), MSG_NOSIGNAL); CHECK_MSG(k == sk::kSocketError, "sending to nobody gives %d", k); failed_with(EPIPE, "sending to nobody"); k = s.send(B("x")); CHECK_MSG(k == sk::kSocketError, "sending to nobody gives %d", k); break; }
    case 7: { Sock s; CHECK(!s.create(12345, SOCK_STREAM, 0) && !s.valid()); failed_with(EAFNOSUPPORT, "making a socket of no family"); CHECK(s.create(AF_UNIX, SOCK_STREAM)); int fd = s.id(); CHECK(s.create()); CHECK_MSG(s.valid(), "a socket cannot be made again"); int dom = 0; CHECK(s.get_option(SOL_SOCKET, SO_DOMAIN, &dom) && dom == AF_INET); (void)fd; int ty = 0; CHECK(s.create(AF_INET, SOCK_DGRAM) && s.get_option(SOL_SOCKET, SO_TYPE, &ty) && ty == SOCK_DGRAM); CHECK(!s.listen(3)); failed_with(EOPNOTSUPP, "listening for datagrams"); break; }
    case 9: { // connects that fail at once
      Sock s; bool nb = src.flip(), un = src.flip(); CHECK(s.create(un ? AF_UNIX : AF_INET, SOCK_STREAM)); CHECK(s.set_nonblocking(nb)); bool ok; int want; if (un) { auto d = unix_addr(unix_name(7777)).data(); ::unlink(unix_name(7777).c_str()); want = ENOENT; ok = sk::connect(s.id(), reinterpret_cast<const sockaddr *>(d.data()), uint32_t(d.size()), ms(src.flip() ? 3000 : 0)); } else { sockaddr_in6 six{}; six.sin6_family = AF_INET6; six.sin6_port = htons(9); six.sin6_addr = in6addr_loopback; want = EAFNOSUPPORT; ok = sk::connect(s.id(), reinterpret_cast<const sockaddr *>(&six), sizeof six, ms(src.flip() ? 3000 : 0)); } src.note("connect to no %s", un ? "path" : "family"); CHECK_MSG(!ok, "a connection to nobody is reported"); failed_with(want, "connecting to nobody"); CHECK_MSG(raw_nb(s.id()) == nb, "a connect that failed at once changed the blocking mode"); break; }
    case 8: { // the error of this thread only
      (void)sk::close(-1); failed_with(EBADF, "close"); break; }
  }
  src.steps(n); src.nontrivial();
}

// Settings are kept as given, told as they are.
PROPERTY(settings, pbt::Options{.weight = 2, .batch = 50}) {
  hush(); Sock s; CHECK(s.create(src.flip() ? AF_INET : AF_UNIX, SOCK_STREAM)); Sock t; CHECK(t.create()); sk::Listener l; CHECK(l.init(net::Address{"127.0.0.1:0"}, sk::Type::Tcp, uint32_t(1 + src.below(9)))); size_t n = 1 + src.below(12);
  auto raw = [](int fd, int name) { int v = -1; socklen_t k = sizeof v; CHECK(::getsockopt(fd, SOL_SOCKET, name, &v, &k) == 0); return v; };
  auto lin = [](int fd) { struct linger v{-1, -1}; socklen_t k = sizeof v; CHECK(::getsockopt(fd, SOL_SOCKET, SO_LINGER, &v, &k) == 0); return v; };
  for (size_t i = 0; i < n; ++i) { int other_r = raw(t.id(), SO_RCVBUF), other_s = raw(t.id(), SO_SNDBUF); switch (src.below(7)) {
    case 0: { uint32_t v = uint32_t(src.range(4096, 100000)); CHECK(s.set_recv_size(v)); int r = raw(s.id(), SO_RCVBUF); CHECK_MSG(uint32_t(r) >= v && s.get_recv_size() == uint32_t(r), "the room to receive is set to %u, is %d, said to be %u", v, r, s.get_recv_size()); src.note("recv size %u", v); break; }
    case 1: { uint32_t v = uint32_t(src.range(4096, 100000)); CHECK(s.set_send_size(v)); int r = raw(s.id(), SO_SNDBUF); CHECK_MSG(uint32_t(r) >= v && s.get_send_size() == uint32_t(r), "the room to send is set to %u, is %d, said to be %u", v, r, s.get_send_size()); src.note("send size %u", v); break; }
    case 2: { uint32_t v = uint32_t(src.flip() ? src.below(3) : src.below(30000)); CHECK(s.set_linger(v)); auto r = lin(s.id()); CHECK_MSG(bool(r.l_onoff) == (v > 0) && (v == 0 || uint32_t(r.l_linger) == v) && s.get_linger() == uint32_t(r.l_linger), "the time to linger is set to %u, is %d for %d, said to be %u", v, r.l_onoff, r.l_linger, s.get_linger()); src.note("linger %u", v); break; }
    case 3: { bool on = src.flip(); CHECK(s.set_reuse_addr(on)); CHECK_MSG(bool(raw(s.id(), SO_REUSEADDR)) == on, "reuse set to %d is not", on); break; }
    case 4: { bool on = src.flip(); CHECK(s.set_nonblocking(on)); CHECK(raw_nb(s.id()) == on && s.is_nonblocking() == on); CHECK(l.set_nonblocking(on)); CHECK(raw_nb(l.id()) == on && l.is_nonblocking() == on); break; }
    case 5: { uint32_t v = uint32_t(src.range(4096, 100000)), u = uint32_t(src.range(4096, 100000)), z = uint32_t(src.below(1000)); l.set_recv_size(v); l.set_send_size(u); CHECK(l.set_linger(z)); int r = raw(l.id(), SO_RCVBUF), q = raw(l.id(), SO_SNDBUF); CHECK_MSG(uint32_t(r) >= v && l.get_recv_size() == uint32_t(r) && uint32_t(q) >= u && l.get_send_size() == uint32_t(q), "the rooms of a listener are set to %u and %u, are %d and %d", v, u, r, q); auto g = lin(l.id()); CHECK(bool(g.l_onoff) == (z > 0) && l.get_linger() == uint32_t(g.l_linger)); break; }
    case 6: { int v = 0; CHECK(s.get_option(SOL_SOCKET, SO_TYPE, &v) && v == SOCK_STREAM); uint32_t k = sizeof v; CHECK(s.get_option(SOL_SOCKET, SO_ACCEPTCONN, &v, &k) && v == 0); CHECK(sk::getsockoptu(s.id(), SOL_SOCKET, SO_TYPE, &v, &k) == 0 && v == SOCK_STREAM); int fd = ::open("/dev/null", O_RDONLY); CHECK(sk::getsockoptu(fd, SOL_SOCKET, SO_TYPE, &v, &k) == 2); ::close(fd); CHECK(sk::getsockoptu(fd, SOL_SOCKET, SO_TYPE, &v, &k) == 1); CHECK(sk::getsockoptu(s.id(), SOL_SOCKET, 9999, &v, &k) == 3); break; } }
    CHECK_MSG(raw(t.id(), SO_RCVBUF) == other_r && raw(t.id(), SO_SNDBUF) == other_s, "the settings of another socket changed"); }
  CHECK(raw(l.id(), SO_ACCEPTCONN) == 1 && raw(l.id(), SO_REUSEADDR) == 1); src.steps(n); if (n >= 2) src.nontrivial();
}

// Datagrams: each whole or not at all, from whom it says.
PROPERTY(datagrams, pbt::Options{.weight = 1, .batch = 50, .hang_s = 60}) {
  hush(); bool pair = src.flip(); size_t n = 1 + src.below(20), moved = 0;
  if (pair) { sk::id_t p[2]; CHECK(sk::make_pair(p)); Sock a{p[0]}, b{p[1]}; CHECK(b.set_nonblocking()); std::deque<std::string> q; for (size_t i = 0; i < n; ++i) { if (src.flip()) { std::string d = src.bytes(src.size(1, 200)); if (q.size() > 20) continue; CHECK(a.send(B(d)) == int(d.size())); q.push_back(d); } else { plain::bytes_t b1; b1.reserve(300); int k = b.recv(b1); if (q.empty()) { CHECK_MSG(k == sk::kErrorWouldBlock, "receiving nothing gives %d", k); continue; } CHECK_MSG(k == int(q.front().size()) && memcmp(b1.data(), q.front().data(), size_t(k)) == 0, "a message of %zu bytes arrives with %d", q.front().size(), k); q.pop_front(); ++moved; } } }
  else {
    Sock a, b, c; for (auto s : {&a, &b, &c}) { CHECK(s->create(AF_INET, SOCK_DGRAM)); CHECK(s->bind(net::Address{"127.0.0.1:0", false})); CHECK(s->set_nonblocking()); } auto to = b.address().data(); std::deque<std::pair<std::string, std::string>> q;
    bool nb = src.flip(); Sock d; CHECK(d.create(AF_INET, SOCK_DGRAM)); CHECK(d.set_nonblocking(nb)); CHECK_MSG(d.connect("127.0.0.1", b.address().port(), ms(1000), sk::Type::Udp) && d.type() == sk::Type::Udp, "cannot connect for datagrams"); CHECK_MSG(raw_nb(d.id()) == nb, "connecting for datagrams made a %sblocking socket %sblocking", nb ? "non" : "", nb ? "" : "non");
    for (size_t i = 0; i < n; ++i) { int how = int(src.below(4)); if (how < 3) { if (q.size() > 20) continue; Sock &s = how == 0 ? a : how == 1 ? c : d; std::string m = src.bytes(src.size(1, 1000)); int k = how == 2 ? s.send(B(m)) : sk::sendto(s.id(), m.data(), int32_t(m.size()), 0, reinterpret_cast<const sockaddr *>(to.data()), int32_t(to.size())); CHECK_MSG(k == int(m.size()), "sending %zu bytes gives %d", m.size(), k); q.emplace_back(m, raw_name(s.id(), false)); }
      else { char buf[1500]; sockaddr_storage from{}; uint32_t fl = sizeof from; if (!q.empty()) readable(b.id(), 20000); int k = sk::recvfrom(b.id(), buf, sizeof buf, 0, reinterpret_cast<sockaddr *>(&from), &fl); if (q.empty()) { CHECK_MSG(k == sk::kErrorWouldBlock, "receiving nothing gives %d", k); continue; } CHECK_MSG(k == int(q.front().first.size()) && memcmp(buf, q.front().first.data(), size_t(k)) == 0, "a message of %zu bytes arrives with %d", q.front().first.size(), k); CHECK_MSG(net::Address{B(std::string(reinterpret_cast<char *>(&from), fl))}.text() == net::Address{B(q.front().second)}.text(), "a message from %s comes from %s", net::Address{B(q.front().second)}.text().c_str(), net::Address{B(std::string(reinterpret_cast<char *>(&from), fl))}.text().c_str()); q.pop_front(); ++moved; } }
  }
  src.steps(n); if (moved) src.nontrivial();
}
