#pragma once
// Helpers of the network harnesses.
#include "vsched.h"
#include <algorithm>
#include <cerrno>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <thread>
#include <vector>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include "plain/basic/logger.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/net/socket/basic.h"
#include "plain/net/stream/basic.h"
#include "plain/net/stream/codec.h"

using pbt::Src;
namespace net = plain::net;
using Packet = net::packet::Basic;
using Conn = net::connection::Basic;
using ms = std::chrono::milliseconds;

namespace {
sched::Limits limits() { sched::Limits l; l.max_points = 1500000; l.allow_time_jumps = false; l.io_faults = true; l.coarse = true; return l; }
void quiet_log() { plain::Logger::set_output([](const std::string_view &) {}); plain::Logger::set_flush([] {}); plain::Logger::set_level(plain::LogLevel::Fatal); }
uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
std::string content(Packet &p) { auto d = p.data(); return std::string(reinterpret_cast<const char *>(d.data()), d.size()); }
std::shared_ptr<Packet> make(uint16_t id, const std::string &s) { auto p = std::make_shared<Packet>(); p->set_id(id); p->set_writeable(true); p->write(reinterpret_cast<const std::byte *>(s.data()), s.size()); p->set_writeable(false); return p; }
std::string wire_of(uint16_t id, const std::string &s) { std::string w; w += char(id >> 8); w += char(id); for (int i = 3; i >= 0; --i) w += char(s.size() >> (8 * i)); return w + s; }
net::Mode gen_mode(Src &src) { return src.pick({3, 1}) == 0 ? net::Mode::Epoll : net::Mode::Select; }
const char *mode_name(net::Mode m) { return m == net::Mode::Epoll ? "epoll" : "select"; }
net::setting_t setting(const char *name, net::Mode m, uint32_t max, uint32_t def) { net::setting_t s; s.name = name; s.mode = m; s.max_count = max; s.default_count = def; s.address = "127.0.0.1:0"; return s; }
uint16_t port_of(net::Listener &l) { return l.address().port(); }
int dial(uint16_t port) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::connect(fd, reinterpret_cast<struct sockaddr *>(&a), sizeof a) != 0) { ::close(fd); return -1; } return fd;
}
// Waits until cond() holds; false if it does not within a long (virtual) time.
template <typename F> bool eventually(F cond) {
  for (uint64_t ns = 100000, total = 0;; ns *= 2) { { sched::Quiet q; if (cond()) return true; } if (total > 20ull * 1000000000) return false; sched::sleep_ns(ns); total += ns; }
}
bool send_all(int fd, const std::string &s, size_t step) {
  for (size_t o = 0; o < s.size();) { size_t n = std::min(step, s.size() - o); ssize_t k = ::send(fd, s.data() + o, n, MSG_NOSIGNAL); if (k < 0) { if (errno == EAGAIN || errno == EINTR) { sched::point(); continue; } return false; } o += size_t(k); }
  return true;
}
}  // namespace

