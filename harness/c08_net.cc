// Listener and Connector under a controlled scheduler: packets between plain
// and raw peers.
#include "net_common.h"

// --- every packet, once, in order, intact ------------------------------------
namespace {
struct Stream { // one sender of one direction of one link
  uint64_t salt = 0; std::vector<uint32_t> len; std::vector<uint8_t> ask; size_t sent = 0, got = 0; uint64_t bytes = 0;
  uint16_t id(size_t i) const { return uint16_t(1 + mix(salt * 31 + i) % 200); }
  std::string data(int link, int source, size_t i) const {
    std::string s; s += char(link); s += char(source); for (int k = 3; k >= 0; --k) s += char(i >> (8 * k)); s += char(i < ask.size() ? ask[i] : 0);
    uint64_t h = mix(salt ^ (i * 7919)); for (uint32_t k = 0; k < len[i]; ++k) { if (k % 8 == 0) h = mix(h); s += char(h >> (8 * (k % 8))); } return s;
  }
};
struct Link {
  bool raw = true; int fd = -1; std::shared_ptr<Conn> cc; Stream up[2], down[2]; int server_id = 0; bool connected = false, gone = false; int connects = 0, disconnects = 0; bool client_gone = false;
  std::string in; bool closes = false; bool partial = false; int step = 0; int lag_us = 0; bool lag = false, stall = false; int stalled_fd = -1;
};
struct DW { std::vector<Link> l; std::map<int, int> by_id; net::Listener *listener = nullptr; bool open = true; };
DW *dw;
void receive(Link &l, int link, Stream *s, uint16_t id, const std::string &d, const char *who) {
  if (d.size() < 7) pbt::fail("%s of link %d: packet of %zu bytes that nobody sent", who, link, d.size());
  if (d[0] != char(link)) pbt::fail("%s of link %d received a packet of link %d", who, link, int(d[0]));
  int source = d[1]; if (source < 0 || source > 1) pbt::fail("%s of link %d: content was altered", who, link);
  uint32_t seq = 0; for (int k = 0; k < 4; ++k) seq = seq << 8 | uint8_t(d[2 + k]); Stream &x = s[source];
  if (seq != x.got) pbt::fail("%s of link %d: sender %d: received packet %u, expected %zu (of %zu)", who, link, source, seq, x.got, x.len.size());
  if (x.got >= x.len.size()) pbt::fail("%s of link %d: more packets than were sent", who, link);
  if (id != x.id(seq)) pbt::fail("%s of link %d: packet %u has id %u, sent as %u", who, link, seq, id, x.id(seq));
  if (d != x.data(link, source, seq)) pbt::fail("%s of link %d: content of packet %u was altered (%zu bytes)", who, link, seq, d.size());
  ++x.got; (void)l;
}
// Feeds received bytes of a raw client to a reference parser.
void client_bytes(int link, const char *b, size_t n) {
  Link &l = dw->l[link]; l.in.append(b, n);
  while (l.in.size() >= 6) { uint16_t id = uint16_t(uint8_t(l.in[0]) << 8 | uint8_t(l.in[1])); uint32_t len = 0; for (int k = 2; k < 6; ++k) len = len << 8 | uint8_t(l.in[k]); if (len > 1000000) pbt::fail("client of link %d: received a header announcing %u bytes", link, len); if (l.in.size() < 6 + size_t(len)) break; std::string d = l.in.substr(6, len); l.in.erase(0, 6 + size_t(len)); receive(l, link, l.down, id, d, "client"); }
}
void send_down(Conn *conn, int link, int source, size_t i) {
  Link &l = dw->l[link]; std::shared_ptr<Packet> p; size_t bytes; { sched::Quiet q; auto d = l.down[source].data(link, source, i); bytes = d.size() + 6; p = make(l.down[source].id(i), d); l.down[source].sent = i + 1; l.down[source].bytes += bytes; }
  if (!conn->send(p)) pbt::fail("send on an open connection refused a packet");
}
}  // namespace

PROPERTY(net_delivery, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  quiet_log(); sched::Stats st0;
  dw = new DW; int n = int(src.pick({3, 3, 2, 1})) + 1; auto smode = gen_mode(src), cmode = gen_mode(src); dw->l.resize(n); bool any_conn = false;
  src.note("listener %s, %d link%s", mode_name(smode), n, n > 1 ? "s" : "");
  for (int i = 0; i < n; ++i) {
    Link &l = dw->l[i]; l.raw = src.pick({3, 2}) == 0; any_conn |= !l.raw; l.closes = l.raw && src.chance(1, 3); l.partial = l.closes && src.chance(1, 3); bool big = src.chance(1, 10);
    static const int steps[] = {1 << 20, 4096, 100, 7, 1}; l.step = steps[src.draw(4)]; if (big && l.step < 100) l.step = 100; l.lag = !l.closes && src.chance(1, 4); l.lag_us = int(src.draw(50));
    size_t replies = 0;
    for (int s = 0; s < (l.raw ? 1 : 2); ++s) { Stream &x = l.up[s]; x.salt = src.draw(1u << 30); for (Src::Loop lp(src, big ? 6 : 25); lp.more();) { x.len.push_back(uint32_t(big && src.chance(1, 3) ? src.size(0, 30000) : src.size(0, 40))); uint8_t a = l.closes ? 0 : uint8_t(src.pick({4, 3, 1})); x.ask.push_back(a); replies += a; } }
    if (l.up[0].len.empty()) { l.up[0].len.push_back(0); l.up[0].ask.push_back(0); }
    l.down[0].salt = src.draw(1u << 30); for (size_t k = 0; k < replies; ++k) l.down[0].len.push_back(uint32_t(mix(l.down[0].salt + k) % (big ? 3000 : 40)));
    if (!l.closes && src.chance(1, 3)) { l.down[1].salt = src.draw(1u << 30); for (Src::Loop lp(src, big ? 6 : 20); lp.more();) l.down[1].len.push_back(uint32_t(src.size(0, big ? 3000 : 40))); }
    src.note("link %d: %s%s%s, fragments of %d, %zu+%zu up, %zu+%zu down%s%s", i, l.raw ? "raw client" : "connector", l.closes ? ", closes after its last packet" : "", l.partial ? " and half a packet" : "", l.step, l.up[0].len.size(), l.up[1].len.size(), l.down[0].len.size(), l.down[1].len.size(), big ? ", large" : "", l.lag ? ", slow reader" : "");
  }
  bool stall = n >= 3 && src.flip(); if (stall) { for (int i = 0; i < 2; ++i) dw->l[i].stall = !dw->l[i].closes && !dw->l[i].down[0].len.empty(); src.note("links 0 and 1 do not take any data until the others are done"); }
  uint32_t def = uint32_t(src.draw(4)); bool own_codec = any_conn && src.chance(1, 4);
  sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 16, def)); dw->listener = &listener;
    std::unique_ptr<net::Connector> connector;
    listener.set_dispatcher([](Conn *conn, std::shared_ptr<Packet> p) {
      int link; uint8_t ask; size_t first;
      { sched::Quiet q; std::string d = content(*p); auto it = dw->by_id.find(conn->id()); if (it == dw->by_id.end()) pbt::fail("a packet was dispatched on connection %d, which is not connected", conn->id());
        if (it->second < 0) { if (d.size() < 7 || d[0] < 0 || d[0] >= int(dw->l.size())) pbt::fail("the first packet of connection %d was altered", conn->id()); it->second = d[0]; dw->l[d[0]].server_id = conn->id(); if (dw->l[d[0]].stall) { dw->l[d[0]].stalled_fd = conn->socket()->id(); sched::choke(conn->socket()->id(), true); } }
        link = it->second; Link &l = dw->l[link]; receive(l, link, l.up, p->id(), d, "listener"); ask = uint8_t(d[6]); first = l.down[0].sent; }
      for (uint8_t k = 0; k < ask; ++k) send_down(conn, link, 0, first + k);
      return true;
    });
    listener.set_connect_callback([](Conn *conn) { sched::Quiet q; if (dw->by_id.count(conn->id())) pbt::fail("connection %d was connected twice", conn->id()); dw->by_id[conn->id()] = -1; });
    listener.set_disconnect_callback([](Conn *conn) { sched::Quiet q; auto it = dw->by_id.find(conn->id()); if (it == dw->by_id.end()) pbt::fail("connection %d was disconnected twice, or never connected", conn->id()); if (it->second >= 0) { Link &l = dw->l[it->second]; if (!l.closes && dw->open) pbt::fail("the connection of link %d was dropped", it->second); ++l.disconnects; } else if (dw->open) pbt::fail("connection %d was dropped before its first packet", conn->id()); dw->by_id.erase(it); });
    CHECK(listener.start()); uint16_t port = port_of(listener);
    if (any_conn) {
      connector = std::make_unique<net::Connector>(setting("cli", cmode, 16, 1));
      auto on_packet = [](Conn *conn, std::shared_ptr<Packet> p) { sched::Quiet q; std::string d = content(*p); int link = d.empty() ? -1 : d[0]; if (link < 0 || link >= int(dw->l.size())) pbt::fail("a connector received an altered packet"); Link &l = dw->l[link]; if (l.cc && l.cc.get() != conn) pbt::fail("link %d: packet arrived on another connection", link); receive(l, link, l.down, p->id(), d, "connector"); return true; };
      connector->set_dispatcher(on_packet);
      connector->set_disconnect_callback([](Conn *) { sched::Quiet q; if (dw->open) pbt::fail("a connection of the connector was dropped"); });
      CHECK(connector->start());
    }
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
      if (dw->l[i].raw) {
        th.emplace_back([i, port] {
          Link &l = dw->l[i]; int fd = dial(port); if (fd < 0) pbt::fail("link %d cannot connect", i); { sched::Quiet q; l.fd = fd; }
          std::thread reader; bool closes = l.closes;
          if (!closes) reader = std::thread([i, fd] { char b[4096]; for (;;) { ssize_t k = ::recv(fd, b, sizeof b, 0); if (k < 0 && (errno == EINTR || errno == EAGAIN)) continue; if (k <= 0) break; Link &l = dw->l[i]; { sched::Quiet q; client_bytes(i, b, size_t(k)); } if (l.lag) sched::sleep_ns(uint64_t(l.lag_us) * 1000); } { sched::Quiet q; if (dw->open) pbt::fail("the connection of link %d was closed by the listener", i); } });
          for (size_t k = 0; k < l.up[0].len.size(); ++k) { std::string w; { sched::Quiet q; auto d = l.up[0].data(i, 0, k); w = wire_of(l.up[0].id(k), d); l.up[0].bytes += w.size(); l.up[0].sent = k + 1; } if (!send_all(fd, w, size_t(l.step))) { if (true) pbt::fail("link %d: the listener closed the connection while packets were being sent", i); } }
          if (closes) { if (l.partial) { std::string w = wire_of(5, std::string(40, 'x')).substr(0, 1 + mix(l.up[0].salt) % 40); send_all(fd, w, size_t(l.step)); { sched::Quiet q; l.up[0].bytes += w.size(); } } ::close(fd); { sched::Quiet q; l.fd = -1; l.client_gone = true; } }
          else reader.join();
        });
      } else {
        th.emplace_back([i, port, &connector, own_codec] {
          Link &l = dw->l[i]; auto conn = connector->connect("127.0.0.1:" + std::to_string(port), [own_codec](Conn *c) { if (own_codec) { net::stream::codec_t k; k.encode = net::stream::encode; k.decode = net::stream::decode; c->set_codec(k); } return true; });
          if (!conn) pbt::fail("link %d: connect failed", i); { sched::Quiet q; l.cc = conn; }
          auto sender = [i, conn](int s) { Link &l = dw->l[i]; for (size_t k = 0; k < l.up[s].len.size(); ++k) { std::shared_ptr<Packet> p; { sched::Quiet q; auto d = l.up[s].data(i, s, k); p = make(l.up[s].id(k), d); l.up[s].bytes += d.size() + 6; l.up[s].sent = k + 1; } if (!conn->send(p)) pbt::fail("send on an open connection refused a packet"); } };
          if (l.up[1].len.empty()) sender(0); else { std::thread t([&] { sender(1); }); sender(0); t.join(); }
        });
      }
      if (!dw->l[i].down[1].len.empty()) th.emplace_back([i, &listener] {
        Link &l = dw->l[i]; int id = 0; if (!eventually([&] { id = l.server_id; return id != 0; })) pbt::fail("link %d: the listener never received its first packet", i);
        auto conn = listener.get_conn(id); if (!conn) pbt::fail("link %d: connection %d cannot be found", i, id);
        for (size_t k = 0; k < l.down[1].len.size(); ++k) send_down(conn.get(), i, 1, k);
      });
    }
    auto done = [&] { for (auto &l : dw->l) { for (int s = 0; s < 2; ++s) if (l.up[s].got != l.up[s].len.size() || l.down[s].got != l.down[s].len.size()) return false; if (l.closes && l.disconnects != 1) return false; } return true; };
    auto quiet_done = [&] { for (auto &l : dw->l) { for (int s = 0; s < 2; ++s) if (l.up[s].sent != l.up[s].len.size()) return false; } return true; };
    auto others = [&] { for (auto &l : dw->l) { if (l.stall) continue; for (int s = 0; s < 2; ++s) if (l.up[s].got != l.up[s].len.size() || l.down[s].got != l.down[s].len.size()) return false; if (l.closes && l.disconnects != 1) return false; } return true; };
    if (stall) {
      if (!eventually([&] { return others(); })) pbt::fail("two connections that take no data keep the others from being served"); for (auto &l : dw->l) if (l.stall) { sched::Quiet q; l.stall = false; if (l.stalled_fd >= 0) sched::choke(l.stalled_fd, false); } }
    // Scripts first run under the adversarial schedule, then everything must get through.
    eventually([&] { return quiet_done(); });
    if (src.flip()) eventually(done); else sched::calm();
    sched::calm();
    if (!eventually(done)) {
      std::string s; for (int i = 0; i < n; ++i) { Link &l = dw->l[i]; char b[200]; for (int k = 0; k < 2; ++k) if (l.up[k].got != l.up[k].len.size() || l.down[k].got != l.down[k].len.size()) { snprintf(b, sizeof b, " link %d sender %d: %zu of %zu packets up, %zu of %zu down;", i, k, l.up[k].got, l.up[k].len.size(), l.down[k].got, l.down[k].len.size()); s += b; } if (l.closes && l.disconnects != 1) { snprintf(b, sizeof b, " link %d: peer closed, but its disconnect callback ran %d times;", i, l.disconnects); s += b; } }
      pbt::fail("not delivered although nothing stands in the way:%s", s.c_str());
    }
    uint64_t up = 0, down = 0, cup = 0, cdown = 0, pk = 0; { sched::Quiet q; for (auto &l : dw->l) for (int s = 0; s < 2; ++s) { up += l.up[s].bytes; down += l.down[s].bytes; pk += l.up[s].len.size() + l.down[s].len.size(); if (!l.raw) { cup += l.up[s].bytes; cdown += l.down[s].bytes; } } }
    sched::settle();
    CHECK_MSG(listener.recv_size() == up, "the listener counts %llu bytes received, %llu were sent", (unsigned long long)listener.recv_size(), (unsigned long long)up);
    CHECK_MSG(listener.send_size() == down, "the listener counts %llu bytes sent, %llu were received", (unsigned long long)listener.send_size(), (unsigned long long)down);
    if (connector) { CHECK_MSG(connector->recv_size() == cdown, "the connector counts %llu bytes received, %llu were sent", (unsigned long long)connector->recv_size(), (unsigned long long)cdown); CHECK_MSG(connector->send_size() == cup, "the connector counts %llu bytes sent, %llu were received", (unsigned long long)connector->send_size(), (unsigned long long)cup); }
    src.steps(pk); st0 = sched::stats(); if (pk >= 4 && st0.switches > 8) src.nontrivial();
    { sched::Quiet q; dw->open = false; }
    if (connector) { for (auto &l : dw->l) l.cc.reset(); connector->stop(); }
    for (auto &l : dw->l) if (l.fd >= 0) ::shutdown(l.fd, SHUT_RDWR);
    listener.stop();
    for (auto &t : th) t.join();
    for (auto &l : dw->l) if (l.fd >= 0) ::close(l.fd);
  }
  CHECK_MSG(sched::live_threads() == 1, "%llu threads outlive the stopped listener and connector", (unsigned long long)sched::live_threads() - 1);
}

// Headers that arrive in pieces, for as long as the connection lives.
PROPERTY(net_trickle, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  quiet_log(); auto mode = gen_mode(src); size_t n = src.range(1, 140); bool second = src.flip(); std::vector<std::string> pk; std::vector<size_t> over;
  for (size_t i = 0; i < n; ++i) { pk.push_back(wire_of(uint16_t(1 + i % 200), std::string(size_t(mix(i) % 9), char('a' + i % 26)))); over.push_back(i + 1 < n ? src.draw(5) : 0); }
  src.note("listener %s, %zu packets, each sent with the first bytes of the next%s", mode_name(mode), n, second ? ", on two connections one after the other" : "");
  static size_t got; static int gone; got = 0; gone = 0;
  sched::start(src, limits());
  {
    net::Listener listener(setting("srv", mode, 4, 1));
    listener.set_dispatcher([](Conn *, std::shared_ptr<Packet> p) { sched::Quiet q; if (p->id() != 1 + got % 200 || content(*p) != std::string(size_t(mix(got) % 9), char('a' + got % 26))) pbt::fail("packet %zu was altered or out of order", got); ++got; return true; });
    listener.set_disconnect_callback([](Conn *) { sched::Quiet q; ++gone; });
    CHECK(listener.start()); uint16_t port = port_of(listener);
    for (int round = 0; round <= int(second); ++round) {
      got = 0; gone = 0; int fd = dial(port); CHECK(fd >= 0); size_t cut = 0;
      for (size_t i = 0; i < n; ++i) {
        std::string w = pk[i].substr(cut); cut = over[i]; if (i + 1 < n) w += pk[i + 1].substr(0, cut); if (!send_all(fd, w, 1 << 20)) pbt::fail("the connection was closed after %zu of %zu valid packets", i, n);
        if (over[i]) sched::settle();
      }
      sched::settle(); if (!eventually([&] { return got == n || gone; })) pbt::fail("%zu of %zu packets received", got, n);
      { sched::Quiet q; if (gone || got != n) pbt::fail("the connection was dropped after %zu of %zu valid packets", got, n); }
      ::close(fd); if (!eventually([&] { return gone == 1; })) pbt::fail("a closed connection was not noticed");
    }
    src.steps(n); if (n > 2) src.nontrivial();
    listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}

// With nothing to do, nothing runs.
PROPERTY(net_idle, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  quiet_log(); auto smode = gen_mode(src), cmode = gen_mode(src); int raw = int(src.draw(3)), con = int(src.draw(2)), packets = int(src.draw(5)); src.note("listener %s, connector %s, %d raw clients, %d connections, %d packets each, then silence", mode_name(smode), mode_name(cmode), raw, con, packets);
  static int got; got = 0; sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 16, 1)); net::Connector connector(setting("cli", cmode, 16, 1)); listener.set_dispatcher([](Conn *, std::shared_ptr<Packet>) { sched::Quiet q; ++got; return true; });
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start()); std::vector<int> fds; std::vector<std::shared_ptr<Conn>> cs;
    for (int i = 0; i < raw; ++i) { int fd = dial(port); CHECK(fd >= 0); fds.push_back(fd); for (int k = 0; k < packets; ++k) send_all(fd, wire_of(3, "abc"), 1 << 20); }
    for (int i = 0; i < con; ++i) { auto c = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(c); cs.push_back(c); for (int k = 0; k < packets; ++k) CHECK(c->send(make(3, "abc"))); }
    CHECK(eventually([&] { return got == (raw + con) * packets; })); sched::calm(); sched::sleep_ns(1000000000ull);
    uint64_t p0 = sched::stats().points; sched::sleep_ns(5000000000ull); uint64_t p1 = sched::stats().points - p0;
    CHECK_MSG(p1 < 20000, "a listener and a connector with nothing to do took %llu steps in five seconds", (unsigned long long)p1);
    src.steps(sched::stats().points); if (raw + con > 0) src.nontrivial();
    connector.stop(); listener.stop(); for (int fd : fds) ::close(fd);
  }
}

// Stopping either side at any time ends cleanly; what arrived is a prefix.
PROPERTY(net_stop, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  quiet_log(); dw = new DW; auto smode = gen_mode(src), cmode = gen_mode(src); int n = int(src.range(1, 3)); dw->l.resize(n); dw->open = false; uint64_t delay = src.draw(2) == 0 ? src.draw(2000) : src.draw(60000); int what = int(src.draw(2)); bool twice = src.chance(1, 4), idle = src.chance(1, 6);
  bool any = false;
  for (int i = 0; i < n; ++i) { Link &l = dw->l[i]; l.raw = src.flip(); any |= !l.raw; l.step = 1 << 20; l.up[0].salt = src.draw(1u << 30); size_t k = idle ? 0 : src.size(0, 30); for (size_t j = 0; j < k; ++j) { l.up[0].len.push_back(uint32_t(src.size(0, 30))); l.up[0].ask.push_back(uint8_t(src.draw(1))); } for (size_t j = 0; j < k; ++j) l.down[0].len.push_back(uint32_t(mix(j) % 30)); l.down[0].salt = src.draw(1u << 30); }
  src.note("listener %s, %d links with traffic; after %llu us %s stop%s", mode_name(smode), n, (unsigned long long)delay / 1000, what == 0 ? "listener" : what == 1 ? "connector, then listener" : "both at once", twice ? ", twice" : "");
  sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 16, 1)); std::unique_ptr<net::Connector> connector = std::make_unique<net::Connector>(setting("cli", cmode, 16, 1)); static std::map<int, int> *links; links = new std::map<int, int>;
    listener.set_dispatcher([](Conn *conn, std::shared_ptr<Packet> p) {
      int link; uint8_t ask; size_t first; { sched::Quiet q; std::string d = content(*p); if (d.size() < 7) pbt::fail("a packet was altered"); link = d[0]; Link &l = dw->l[link]; receive(l, link, l.up, p->id(), d, "listener"); ask = uint8_t(d[6]); first = l.down[0].sent; l.down[0].sent += ask; }
      for (uint8_t k = 0; k < ask; ++k) conn->send(make(dw->l[link].down[0].id(first + k), dw->l[link].down[0].data(link, 0, first + k))); return true; });
    connector->set_dispatcher([](Conn *, std::shared_ptr<Packet> p) { sched::Quiet q; std::string d = content(*p); if (d.size() < 7) pbt::fail("a packet was altered"); receive(dw->l[d[0]], d[0], dw->l[d[0]].down, p->id(), d, "connector"); return true; });
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector->start());
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([i, port, &connector] {
      Link &l = dw->l[i];
      if (l.raw) { int fd = dial(port); if (fd < 0) return; for (size_t k = 0; k < l.up[0].len.size(); ++k) if (!send_all(fd, wire_of(l.up[0].id(k), l.up[0].data(i, 0, k)), 1 << 20)) break; ::close(fd); }
      else { auto c = connector->connect("127.0.0.1:" + std::to_string(port)); if (!c) return; for (size_t k = 0; k < l.up[0].len.size(); ++k) if (!c->send(make(l.up[0].id(k), l.up[0].data(i, 0, k)))) break; }
    });
    sched::sleep_ns(delay);
    if (what == 0) listener.stop(); else if (what == 1) { connector->stop(); listener.stop(); } else { std::thread t([&] { connector->stop(); }); listener.stop(); t.join(); }
    CHECK_MSG(!listener.running(), "running after stop");
    if (twice) { listener.stop(); connector->stop(); }
    sched::calm(); for (auto &t : th) t.join();
    connector->stop(); connector.reset();
    auto st = sched::stats(); if (!idle && st.switches > 8) src.nontrivial();
  }
  CHECK_MSG(sched::live_threads() == 1, "%llu threads outlive the stopped listener and connector", (unsigned long long)sched::live_threads() - 1);
}

// Stopping tells the peers: every connection that was up ends for them.
PROPERTY(stop_tells, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60, .max_cases = 1500}) {
  quiet_log(); auto smode = gen_mode(src), cmode = gen_mode(src); int raw = int(src.draw(3)), own = int(src.draw(2)); if (!raw && !own) raw = 1; bool chat = src.flip(), rev = own && src.flip(); uint64_t delay = src.draw(3000);
  src.note("listener %s, connector %s; %d raw and %d own peers%s; the %s stops", mode_name(smode), mode_name(cmode), raw, own, chat ? ", talking" : "", rev ? "connector" : "listener"); static int up, down; up = down = 0; sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 16, 1)); net::Connector connector(setting("cli", cmode, 16, 1)); std::vector<int> fds; std::vector<std::shared_ptr<Conn>> cs;
    listener.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { c->send(p); return true; }); connector.set_dispatcher([](Conn *, std::shared_ptr<Packet>) { return true; });
    listener.set_connect_callback([](Conn *) { sched::Quiet q; ++up; }); auto gone = [](Conn *) { sched::Quiet q; ++down; }; if (rev) listener.set_disconnect_callback(gone); else connector.set_disconnect_callback(gone);
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start());
    for (int i = 0; i < raw; ++i) { int fd = dial(port); CHECK(fd >= 0); fds.push_back(fd); }
    for (int i = 0; i < own; ++i) { auto c = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK_MSG(c, "own peer %d could not connect", i); cs.push_back(c); }
    for (int k = 0; k < 2000; ++k) { { sched::Quiet q; if (up == raw + own) break; } sched::sleep_ns(1000000); }
    if (up != raw + own) pbt::fail("%d of %d connections were accepted", up, raw + own);
    if (chat) { for (int fd : fds) send_all(fd, wire_of(3, "abc"), 1 << 20); for (auto &c : cs) c->send(make(4, "hello")); sched::sleep_ns(delay); }
    sched::calm(); cs.clear();
    if (rev) connector.stop(); else listener.stop();
    int want = own;
    for (int k = 0; k < 2000; ++k) { { sched::Quiet q; if (down == want) break; } sched::sleep_ns(1000000); }
    if (down != want) pbt::fail("the %s stopped, but %d of %d connections ended for the other side", rev ? "connector" : "listener", down, want);
    if (rev) listener.stop();
    for (size_t i = 0; i < fds.size(); ++i) {
      timeval tv{2, 0}; setsockopt(fds[i], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); bool end = false; char b[256];
      for (int k = 0; k < 4000; ++k) { ssize_t r = ::recv(fds[i], b, sizeof b, MSG_DONTWAIT); if (r == 0 || (r < 0 && errno != EAGAIN && errno != EINTR)) { end = true; break; } if (r < 0) sched::sleep_ns(1000000); }
      if (!end) pbt::fail("the listener stopped, but connection %zu stays open for its peer", i); ::close(fds[i]);
    }
    connector.stop(); auto st = sched::stats(); if (st.switches > 8) src.nontrivial(); src.steps(uint64_t(raw + own));
  }
  CHECK(sched::live_threads() == 1);
}

// A long-lived connection: counters and positions beyond 16 bits.
PROPERTY(long_life, pbt::Options{.weight = 1, .batch = 1, .hang_s = 150, .max_cases = 8}) {
  quiet_log(); auto smode = gen_mode(src), cmode = gen_mode(src); size_t n = src.draw(3) != 3 ? 200 + src.draw(120) : 65500 + src.draw(200), group = n > 1000 ? 300 + src.draw(300) : 1 + src.draw(60); src.note("listener %s, connector %s, %zu packets, %zu at a time", mode_name(smode), mode_name(cmode), n, group);
  static size_t back; static bool open; back = 0; open = true; auto l = limits(); l.max_points = 60000000; l.io_faults = n < 1000; sched::start(src, l); if (n > 1000) sched::calm();
  {
    net::Listener listener(setting("srv", smode, 2, 1)); net::Connector connector(setting("cli", cmode, 2, 1));
    listener.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { if (!c->send(p)) pbt::fail("an answer could not be sent"); return true; });
    connector.set_dispatcher([](Conn *, std::shared_ptr<Packet> p) { sched::Quiet q; std::string s = content(*p); if (s != std::to_string(back)) pbt::fail("packet %zu came back as %s", back, s.c_str()); ++back; return true; });
    auto dropped = [](Conn *) { sched::Quiet q; if (open) pbt::fail("the connection was dropped after %zu packets", back); }; connector.set_disconnect_callback(dropped); listener.set_disconnect_callback(dropped);
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start()); auto conn = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(conn); uint64_t bytes = 0;
    for (size_t at = 0; at < n;) { for (size_t k = 0; k < group && at < n; ++k, ++at) { std::string s = std::to_string(at); bytes += 6 + s.size(); if (!conn->send(make(uint16_t(1 + at % 60000), s))) pbt::fail("packet %zu of %zu was refused", at, n); } if (!eventually([&] { return back == at; })) pbt::fail("%zu of %zu packets came back", back, at); }
    if (connector.send_size() != bytes || listener.recv_size() != bytes || listener.send_size() != bytes || connector.recv_size() != bytes) { sched::settle(); if (connector.send_size() != bytes || listener.recv_size() != bytes || listener.send_size() != bytes || connector.recv_size() != bytes) pbt::fail("%llu bytes were sent both ways, the counters say %llu, %llu, %llu and %llu", (unsigned long long)bytes, (unsigned long long)connector.send_size(), (unsigned long long)listener.recv_size(), (unsigned long long)listener.send_size(), (unsigned long long)connector.recv_size()); }
    src.steps(n); src.nontrivial(); { sched::Quiet q; open = false; } conn.reset(); connector.stop(); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}
