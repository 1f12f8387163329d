// The life of connections: slots, identifiers, names, callbacks, settings.
#include "net_common.h"
#include <fcntl.h>
#include <sys/resource.h>

namespace {
struct Client { int tag = 0; int fd = -1; bool open = false, refused = false, hello = false, left = false; int id = 0; std::string in; int copies = 0; bool own = false, named = false; };
struct Held { int tag = -1; int64_t serial = 0; };
struct W {
  uint32_t max = 0; std::map<int, Held> held; /* connected ids */ int64_t serial = 0; std::vector<Client> c; uint64_t connects = 0, disconnects = 0, per_dis = 0, own_hello = 0; size_t most = 0; bool stopping = false; bool set_own = false;
};
W *w;
std::string default_name(const char *s, int id) { return std::string(s) + "." + std::to_string(id); }
void hello(Conn *conn, Packet &p, bool own) {
  sched::Quiet q; std::string d = content(p); if (d.size() != 4 || d[0] != 'H') pbt::fail("a packet of connection %d was altered", conn->id()); int tag = uint8_t(d[1]) << 8 | uint8_t(d[2]);
  auto it = w->held.find(conn->id()); if (it == w->held.end()) pbt::fail("a packet was dispatched on connection %d, which is not connected", conn->id());
  if (tag >= int(w->c.size())) pbt::fail("a packet of connection %d was altered", conn->id()); if (it->second.tag >= 0) pbt::fail("connection %d received the packets of clients %d and %d", conn->id(), it->second.tag, tag);
  it->second.tag = tag; Client &c = w->c[tag]; if (c.hello) pbt::fail("client %d's packet was dispatched twice", tag); c.hello = true; c.id = conn->id(); bool want_own = it->second.serial % 3 == 0 && w->set_own;
  if (own != want_own) pbt::fail("connection %d (number %lld): its packet went to %s", conn->id(), (long long)it->second.serial, own ? "the dispatcher of an earlier connection in its slot" : "the common dispatcher although it has its own");
  if (own) ++w->own_hello;
}
}  // namespace

// Rounds of concurrent arrivals and departures against a listener.
PROPERTY(listener_slots, pbt::Options{.weight = 3, .batch = 1, .hang_s = 60}) {
  quiet_log(); W world; w = &world; auto mode = gen_mode(src); w->max = uint32_t(src.range(1, 5)); uint32_t def = uint32_t(src.draw(w->max)); w->set_own = src.flip(); int rounds = int(src.range(1, 6));
  src.note("listener %s, at most %u connections, %u made in advance%s", mode_name(mode), w->max, def, w->set_own ? ", every third has its own dispatcher and callback" : ""); sched::start(src, limits()); uint64_t peak = 0;
  {
    net::Listener listener(setting("srv", mode, w->max, def)); w->c.reserve(256);
    listener.set_dispatcher([](Conn *conn, std::shared_ptr<Packet> p) { hello(conn, *p, false); return true; });
    listener.set_connect_callback([](Conn *conn) {
      int id = conn->id(); std::string name = conn->name(); bool own; int64_t serial;
      { sched::Quiet q; if (id < 1 || id > int(w->max)) pbt::fail("a connection got the id %d, at most %u are allowed", id, w->max); if (w->held.count(id)) pbt::fail("connection %d was connected twice", id); serial = w->serial++; w->held[id] = Held{-1, serial}; ++w->connects; w->most = std::max(w->most, w->held.size()); own = w->set_own && serial % 3 == 0; if (name != default_name("srv", id)) pbt::fail("the new connection %d has the name '%s'", id, name.c_str()); }
      if (own) { conn->set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { hello(c, *p, true); return true; }); conn->set_disconnect_callback([serial](Conn *c) { sched::Quiet q; auto it = w->held.find(c->id()); if (it == w->held.end() || it->second.serial != serial) pbt::fail("the callback of an earlier connection in slot %d ran for a later one", c->id()); ++w->per_dis; }); }
    });
    listener.set_disconnect_callback([](Conn *conn) { sched::Quiet q; auto it = w->held.find(conn->id()); if (it == w->held.end()) pbt::fail("connection %d was disconnected twice, or never connected", conn->id()); if (it->second.tag >= 0 && !w->c[it->second.tag].left && !w->stopping) pbt::fail("the connection of client %d was dropped", it->second.tag); w->held.erase(it); ++w->disconnects; });
    CHECK(listener.start()); uint16_t port = port_of(listener);
    for (int r = 0; r < rounds; ++r) {
      std::vector<int> open; for (auto &c : w->c) if (c.open) open.push_back(c.tag);
      size_t arrive = src.draw(3) == 0 ? src.draw(w->max + 2) : src.draw(2); size_t before = open.size(); std::vector<std::vector<int>> jobs(1 + src.draw(2)); size_t leaving = 0; std::vector<int> kicked;
      std::string note = "round " + std::to_string(r) + ":";
      for (int t : open) { int how = int(src.pick({3, 1, 1, 1})); if (how == 0) continue; ++leaving; w->c[t].left = true; if (how == 3) { kicked.push_back(t); note += " kick " + std::to_string(t); } else { jobs[src.draw(jobs.size() - 1)].push_back(-1 - t * 2 - (how == 2)); note += " leave " + std::to_string(t); } }
      for (size_t i = 0; i < arrive; ++i) { Client c; c.tag = int(w->c.size()); w->c.push_back(c); jobs[src.draw(jobs.size() - 1)].push_back(c.tag); note += " arrive " + std::to_string(c.tag); }
      src.note("%s", note.c_str());
      std::vector<std::thread> th;
      for (auto &j : jobs) th.emplace_back([&j, port] {
        for (int k : j) {
          if (k < 0) { int t = (-1 - k) / 2; Client &c = w->c[t]; if ((-1 - k) % 2) { ::shutdown(c.fd, SHUT_RDWR); } ::close(c.fd); { sched::Quiet q; c.fd = -1; c.open = false; } }
          else { Client &c = w->c[k]; int fd = dial(port); if (fd < 0) pbt::fail("client %d cannot connect", k); std::string d{'H', char(k >> 8), char(k), 'h'}; bool sent = send_all(fd, wire_of(7, d), 1 << 20); { sched::Quiet q; c.fd = fd; c.open = true; if (!sent) c.refused = true; } }
        }
      });
      for (int t : kicked) { auto conn = listener.get_conn(w->c[t].id); if (!conn) pbt::fail("connection %d cannot be found", w->c[t].id); conn->shutdown(); }
      for (auto &t : th) t.join();
      auto check_refused = [&] { // end of stream at the client
        for (auto &c : w->c) if (c.open && !c.hello && !c.refused) { char b; ssize_t k = ::recv(c.fd, &b, 1, MSG_DONTWAIT | MSG_PEEK); if (k == 0 || (k < 0 && errno != EAGAIN && errno != EINTR)) c.refused = true; }
      };
      auto settled = [&] { check_refused(); for (auto &c : w->c) { if (c.open && !c.hello && !c.refused) return false; if (c.left && c.hello && w->held.count(c.id) && w->held[c.id].tag == c.tag) return false; } for (auto &h : w->held) if (h.second.tag < 0) return false; return true; };
      if (!eventually(settled)) { sched::calm(); if (!eventually(settled)) { std::string s; for (auto &c : w->c) { if (c.open && !c.hello && !c.refused) s += " client " + std::to_string(c.tag) + " was neither served nor refused;"; if (c.left && c.hello && w->held.count(c.id) && w->held[c.id].tag == c.tag) s += " client " + std::to_string(c.tag) + " left unnoticed;"; } for (auto &h : w->held) if (h.second.tag < 0) s += " connection " + std::to_string(h.first) + " without its packet;"; pbt::fail("round %d:%s", r, s.c_str()); } }
      sched::settle();
      size_t refused = 0; for (auto &c : w->c) { if (!c.open) continue; if (c.refused || (c.left && c.fd >= 0)) { if (c.refused && !c.left) ++refused; ::close(c.fd); c.fd = -1; c.open = false; } }
      if (refused && before + arrive <= w->max) pbt::fail("round %d: %zu clients were refused although there was room (%zu + %zu of %u)", r, refused, before, arrive, w->max);
      size_t now = 0; for (auto &c : w->c) now += c.open; if (w->held.size() != now) pbt::fail("round %d: %zu clients are connected, the listener holds %zu connections", r, now, w->held.size());
      if (!leaving && before + arrive > w->max && now != w->max) pbt::fail("round %d: %zu of %zu clients served, there was room for %u", r, now, before + arrive, w->max);
      CHECK_MSG(listener.is_full() == (now == w->max), "with %zu of %u connections the listener says it is %sfull", now, w->max, listener.is_full() ? "" : "not ");
      peak = std::max(peak, uint64_t(now));
      // Names: given, changed, and never inherited (see the connect callback).
      for (auto &c : w->c) if (c.open && src.flip()) { auto conn = listener.get_conn(c.id); CHECK(conn && conn->id() == c.id); std::string backing = "n" + std::to_string(c.tag) + "_" + std::to_string(r) + "tail"; std::string want = backing.substr(0, backing.size() - 4); conn->set_name(std::string_view(backing).substr(0, want.size())); std::string got = conn->name(); CHECK_MSG(got == want, "a connection named '%s' calls itself '%s'", want.c_str(), got.c_str()); }
      if (src.flip()) { // everybody gets a broadcast once
        listener.broadcast(make(9, "cast" + std::to_string(r))); std::string want = wire_of(9, "cast" + std::to_string(r));
        for (auto &c : w->c) if (c.open) { auto got = [&] { char b[256]; ssize_t k; while ((k = ::recv(c.fd, b, sizeof b, MSG_DONTWAIT)) > 0) c.in.append(b, size_t(k)); return c.in.size() >= want.size(); }; if (!eventually(got)) pbt::fail("client %d did not receive a broadcast", c.tag); sched::settle(); { sched::Quiet q; got(); } if (c.in != want) pbt::fail("client %d received %zu bytes of a broadcast of %zu", c.tag, c.in.size(), want.size()); c.in.clear(); }
      }
    }
    if (w->connects != w->disconnects + w->held.size()) pbt::fail("%llu connects, %llu disconnects, %zu connections", (unsigned long long)w->connects, (unsigned long long)w->disconnects, w->held.size());
    src.steps(w->connects + w->disconnects); if (w->connects >= 2 && w->disconnects >= 1) src.nontrivial(); src.label(w->most == w->max ? "was full" : "never full");
    w->stopping = true; listener.stop(); for (auto &c : w->c) if (c.fd >= 0) ::close(c.fd);
  }
  CHECK(sched::live_threads() == 1);
}

namespace {
struct Out { int tag = 0; std::shared_ptr<Conn> conn; int kind = 0; /* 0 good 1 refused port 2 init says no 3 bad address */ bool ok = false, ended = false; int connects = 0, disconnects = 0, own_c = 0, own_d = 0, replies = 0; int id = 0; bool own = false; bool closing = false; };
struct CW { std::vector<Out> o; std::map<Conn *, int> by; std::map<int, int> server; uint32_t max = 0; bool stopping = false; int64_t unknown_dis = 0; };
CW *cw;
}  // namespace
// A connector: connections made, refused, ended by either side.
PROPERTY(connector_slots, pbt::Options{.weight = 2, .batch = 1, .hang_s = 60}) {
  quiet_log(); CW world; cw = &world; auto smode = gen_mode(src), cmode = gen_mode(src); cw->max = uint32_t(src.range(1, 4)); uint32_t def = uint32_t(src.draw(cw->max)); int rounds = int(src.range(1, 6)); cw->o.reserve(128);
  src.note("listener %s, connector %s with at most %u connections", mode_name(smode), mode_name(cmode), cw->max); sched::start(src, limits()); uint64_t made = 0, ended = 0;
  {
    net::Listener listener(setting("srv", smode, 64, 1)); net::Connector connector(setting("cli", cmode, cw->max, def));
    listener.set_dispatcher([](Conn *conn, std::shared_ptr<Packet> p) { int tag; { sched::Quiet q; std::string d = content(*p); if (d.size() != 2 || d[0] != 'h') pbt::fail("a packet was altered"); tag = d[1]; cw->server[tag] = conn->id(); } conn->send(make(8, std::string{'r', char(tag)})); return true; });
    connector.set_dispatcher([](Conn *conn, std::shared_ptr<Packet> p) { sched::Quiet q; std::string d = content(*p); if (d.size() != 2 || d[0] != 'r' || d[1] < 0 || size_t(d[1]) >= cw->o.size()) pbt::fail("a packet was altered"); Out &o = cw->o[d[1]]; if (o.conn && o.conn.get() != conn) pbt::fail("connection %d received the reply for connection %d", conn->id(), o.tag); if (++o.replies > 1) pbt::fail("a reply arrived twice"); return true; });
    connector.set_connect_callback([](Conn *conn) { sched::Quiet q; auto it = cw->by.find(conn); if (it == cw->by.end()) pbt::fail("a connect callback for an unknown connection"); Out &o = cw->o[it->second]; if (o.kind != 0) pbt::fail("the connect callback ran for a connection that was refused"); if (++o.connects > 1) pbt::fail("the connect callback ran twice"); });
    connector.set_disconnect_callback([](Conn *conn) { sched::Quiet q; auto it = cw->by.find(conn); if (it == cw->by.end()) pbt::fail("a disconnect callback for an unknown connection"); Out &o = cw->o[it->second]; if (!o.closing && !cw->stopping) pbt::fail("connection %d was dropped", o.tag); if (++o.disconnects > 1) pbt::fail("the disconnect callback ran twice for connection %d", o.tag); });
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start());
    // A port nobody listens on.
    uint16_t dead; { net::Listener l2(setting("gone", smode, 4, 0)); CHECK(l2.start()); dead = port_of(l2); l2.stop(); }
    for (int r = 0; r < rounds; ++r) {
      size_t before = 0; for (auto &o : cw->o) before += o.ok && !o.ended; size_t n = 1 + src.draw(2), first = cw->o.size(), good = 0; std::string note = "round " + std::to_string(r) + ":"; bool together = src.flip();
      for (size_t i = 0; i < n; ++i) { Out o; o.tag = int(cw->o.size()); o.kind = int(src.pick({5, 1, 1, 1})); o.own = src.flip(); cw->o.push_back(o); ++good; static const char *k[] = {" connect", " connect to a dead port", " connect with an init function that refuses", " connect to a bad address"}; note += k[o.kind]; }
      src.note("%s%s", note.c_str(), together ? " at once" : "");
      auto go = [&connector, port, dead](int tag) {
        Out &o = cw->o[tag]; auto init = [tag](Conn *c) { { sched::Quiet q; cw->by[c] = tag; } Out &o = cw->o[tag]; if (o.own) { c->set_connect_callback([tag](Conn *) { sched::Quiet q; if (++cw->o[tag].own_c > 1) pbt::fail("a connection's own connect callback ran twice"); }); c->set_disconnect_callback([tag](Conn *c) { sched::Quiet q; if (cw->by[c] != tag) pbt::fail("the callback of an earlier connection ran for a later one"); if (++cw->o[tag].own_d > 1) pbt::fail("a connection's own disconnect callback ran twice"); }); } return o.kind != 2; };
        std::shared_ptr<Conn> conn; if (o.kind == 3) conn = connector.connect("300.1.2.3:x", init); else if (tag % 2) conn = connector.connect("127.0.0.1:" + std::to_string(o.kind == 1 ? dead : port), init); else conn = connector.connect("127.0.0.1", o.kind == 1 ? dead : port, init);
        { sched::Quiet q; if (conn && o.kind != 0) pbt::fail("a connection that cannot be made was reported as made (%s)", o.kind == 1 ? "dead port" : o.kind == 2 ? "refused by its init function" : "bad address"); if (conn) { o.ok = true; o.conn = conn; o.id = conn->id(); if (o.id < 1 || o.id > int(cw->max)) pbt::fail("a connection got the id %d, at most %u are allowed", o.id, cw->max); } }
        if (conn) { if (!conn->send(make(7, std::string{'h', char(tag)}))) pbt::fail("a fresh connection refuses a packet"); }
      };
      if (together) { std::vector<std::thread> th; for (size_t i = 0; i < n; ++i) th.emplace_back([&go, i, first] { go(int(first + i)); }); for (auto &t : th) t.join(); } else for (size_t i = 0; i < n; ++i) go(int(first + i));
      size_t open = 0; std::set<int> ids; for (auto &o : cw->o) if (o.ok && !o.ended) { ++open; if (!ids.insert(o.id).second) pbt::fail("two connections have the id %d", o.id); }
      if (open > cw->max) pbt::fail("%zu connections, at most %u are allowed", open, cw->max);
      for (size_t i = first; i < cw->o.size(); ++i) { Out &o = cw->o[i]; if (o.kind == 0 && !o.ok && before + good <= cw->max) pbt::fail("connection %d could not be made although there was room", o.tag); if (o.ok) ++made; if (o.connects != int(o.ok)) pbt::fail("connection %d: connect callback ran %d times", o.tag, o.connects); if (o.own && o.own_c != int(o.ok)) pbt::fail("connection %d: own connect callback ran %d times", o.tag, o.own_c); }
      if (!eventually([&] { for (auto &o : cw->o) if (o.ok && !o.ended && o.replies != 1) return false; return true; })) pbt::fail("round %d: no reply on an open connection", r);
      sched::settle(); CHECK_MSG(connector.is_full() == (open == cw->max), "with %zu of %u connections the connector says it is %sfull", open, cw->max, connector.is_full() ? "" : "not ");
      // End some, from either side.
      for (auto &o : cw->o) if (o.ok && !o.ended && src.flip()) { o.closing = true; bool far = src.flip(); src.note("round %d: end connection %d from %s", r, o.tag, far ? "the far end" : "here"); if (far) { auto c = listener.get_conn(cw->server[o.tag]); CHECK(c); c->shutdown(); } else o.conn->shutdown(); ++ended; }
      if (!eventually([&] { for (auto &o : cw->o) if (o.ok && !o.ended && o.closing && o.disconnects != 1) return false; return true; })) pbt::fail("round %d: the end of a connection was not reported", r);
      sched::settle(); for (auto &o : cw->o) if (o.ok && !o.ended && o.closing) { if (o.own && o.own_d != 1) pbt::fail("connection %d: own disconnect callback ran %d times", o.tag, o.own_d); if (o.conn->send(make(7, "late"))) pbt::fail("a closed connection accepts a packet"); o.ended = true; o.conn.reset(); }
    }
    src.steps(made + ended); if (made >= 2 && ended) src.nontrivial();
    cw->stopping = true; for (auto &o : cw->o) o.conn.reset(); connector.stop(); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}

namespace { struct KW { int connects = 0, disconnects = 0; std::vector<std::string> up, down; std::map<int, int> ids; int server = 0; bool stopping = false; }; KW *kw; }
// A connection kept alive is reconnected in place and works again.
PROPERTY(keep_alive, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60}) {
  quiet_log(); KW world; kw = &world; auto smode = gen_mode(src), cmode = gen_mode(src); int rounds = int(src.range(1, 5)); src.note("listener %s, connector %s, %d reconnects", mode_name(smode), mode_name(cmode), rounds); sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 8, 1)); net::Connector connector(setting("cli", cmode, 2, 1));
    listener.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { std::string d; { sched::Quiet q; d = content(*p); kw->up.push_back(d); kw->server = c->id(); } c->send(make(5, "re" + d)); return true; });
    connector.set_dispatcher([](Conn *, std::shared_ptr<Packet> p) { sched::Quiet q; kw->down.push_back(content(*p)); return true; });
    connector.set_connect_callback([](Conn *) { sched::Quiet q; ++kw->connects; }); connector.set_disconnect_callback([](Conn *) { sched::Quiet q; ++kw->disconnects; });
    CHECK(listener.start()); std::string addr = "127.0.0.1:" + std::to_string(port_of(listener)); CHECK(connector.start());
    auto conn = connector.connect(addr); CHECK(conn); int id = conn->id(); connector.set_keep_alive(conn, true); CHECK(connector.is_keep_alive(conn));
    for (int r = 0; r <= rounds; ++r) {
      { sched::Quiet q; kw->up.clear(); kw->down.clear(); } size_t n = 1 + src.draw(3); std::vector<std::string> up, down;
      for (size_t i = 0; i < n; ++i) { std::string d = std::to_string(r) + "." + std::to_string(i); up.push_back(d); down.push_back("re" + d); if (!conn->send(make(4, d))) pbt::fail("round %d: a connected connection refuses a packet", r); }
      if (!eventually([&] { return kw->down.size() >= n; })) pbt::fail("round %d: %zu of %zu packets came back after a reconnect (%zu arrived)", r, kw->down.size(), n, kw->up.size());
      sched::settle(); { sched::Quiet q; if (kw->up != up || kw->down != down) pbt::fail("round %d: the packets exchanged are not those sent on this connection (%zu up, %zu down, %zu sent)", r, kw->up.size(), kw->down.size(), n); }
      int how = int(src.draw(2)); bool noise = src.flip(); int d0 = kw->disconnects; std::thread t;
      if (noise) t = std::thread([&] { for (int i = 0; i < 4; ++i) conn->send(make(4, "noise")); });
      if (how == 0) conn->shutdown(); else { auto c = listener.get_conn(kw->server); CHECK(c); if (how == 2) c->send(make(5, "bye")); c->shutdown(); }
      if (t.joinable()) t.join();
      if (!eventually([&] { return kw->disconnects == d0 + 1; })) pbt::fail("round %d: the end of a connection was not reported", r);
      sched::settle(); CHECK_MSG(kw->disconnects == d0 + 1, "the disconnect callback ran twice"); CHECK(connector.get_conn(id) == conn);
      if (r == rounds) break;
      int c0 = kw->connects; std::string more = addr + "9"; std::string_view to = std::string_view(more).substr(0, addr.size()); bool ok = src.flip() ? connector.connect(conn, ms(1000), to) : connector.connect(conn.get(), ms(1000), to); CHECK_MSG(ok, "round %d: cannot reconnect", r); CHECK(kw->connects == c0 + 1); CHECK_MSG(conn->id() == id, "a kept connection changed its id");
    }
    src.steps(rounds); src.nontrivial(); conn.reset(); connector.stop(); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}

// Many connections at once: ids beyond 8 bits, refusals exactly when full.
PROPERTY(crowd, pbt::Options{.weight = 1, .batch = 1, .hang_s = 150, .max_cases = 8}) {
  quiet_log(); size_t max = 240 + src.draw(60), def = 1 + src.draw(max - 1), more = 1 + src.draw(5); auto mode = src.chance(1, 3) ? net::Mode::Select : net::Mode::Epoll; if (mode == net::Mode::Select) max = 40 + src.draw(100), def = 1 + src.draw(max - 1);
  static std::map<int, Conn *> here; static size_t ups, downs; here.clear(); ups = downs = 0; src.note("%s, %zu slots, %zu at first", mode_name(mode), max, def);
  auto l = limits(); l.max_points = 60000000; l.io_faults = false; sched::start(src, l); sched::calm();
  {
    net::Listener listener(setting("srv", mode, uint32_t(max), uint32_t(def)));
    listener.set_connect_callback([](Conn *c) { sched::Quiet q; ++ups; if (!here.emplace(c->id(), c).second) pbt::fail("id %d was given twice", int(c->id())); }); listener.set_disconnect_callback([](Conn *c) { sched::Quiet q; ++downs; if (!here.erase(c->id())) pbt::fail("connection %d ended twice", int(c->id())); });
    CHECK(listener.start()); uint16_t port = port_of(listener); std::vector<int> fd; std::vector<bool> gone;
    auto drop = [&](size_t i) { ::close(fd[i]); fd.erase(fd.begin() + long(i)); };
    for (int round = 0; round < 3; ++round) {
      size_t want = max; while (fd.size() < want) { int f = dial(port); if (f < 0) pbt::fail("client %zu of %zu could not connect", fd.size(), max); fd.push_back(f); if (!eventually([&] { return here.size() == fd.size(); })) pbt::fail("%zu clients are connected, the listener knows %zu", fd.size(), here.size()); }
      { sched::Quiet q; if (here.begin()->first < 1 || here.rbegin()->first > int(max)) pbt::fail("ids reach from %d to %d with %zu slots", here.begin()->first, here.rbegin()->first, max); }
      if (!listener.is_full()) pbt::fail("%zu of %zu slots are taken but the listener is not full", fd.size(), max);
      for (auto &[id, c] : here) { auto g = listener.get_conn(net::connection::id_t(id)); if (g.get() != c || g->id() != id) pbt::fail("connection %d is not found", id); }
      for (size_t i = 0; i < more; ++i) { int f = dial(port); if (f < 0) continue; char b; ssize_t k; do k = ::recv(f, &b, 1, 0); while (k < 0 && (errno == EAGAIN || errno == EINTR)); if (k > 0) pbt::fail("a refused client got data"); ::close(f); }
      if (here.size() != max) pbt::fail("a newcomer got in although all slots are taken");
      listener.broadcast(make(5, "all")); for (size_t i = 0; i < fd.size(); ++i) { std::string got; while (got.size() < 9) { char b[32]; ssize_t k = ::recv(fd[i], b, sizeof b, 0); if (k < 0 && (errno == EAGAIN || errno == EINTR)) { sched::point(); continue; } if (k <= 0) pbt::fail("a client was closed instead of getting the broadcast"); got.append(b, size_t(k)); } if (got != wire_of(5, "all")) pbt::fail("a broadcast arrived as %s", pbt::hex(got).c_str()); }
      size_t leave = 1 + src.draw(fd.size() - 1); for (size_t i = 0; i < leave; ++i) drop(src.draw(fd.size() - 1)); if (!eventually([&] { return here.size() == fd.size(); })) pbt::fail("%zu clients are left, the listener knows %zu", fd.size(), here.size()); if (!eventually([&] { return !listener.is_full(); })) pbt::fail("the listener is full with %zu of %zu connections", fd.size(), max);
    }
    while (!fd.empty()) drop(fd.size() - 1); if (!eventually([&] { return here.empty(); })) pbt::fail("%zu connections are left", here.size()); CHECK(ups == downs); src.nontrivial(); src.steps(max); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}

namespace { struct HW { std::map<int, int> replies, made, ended; int ups = 0, downs = 0; }; HW *hw; }
// Socket numbers around and beyond what a set of select has room for.
PROPERTY(high_numbers, pbt::Options{.weight = 1, .batch = 1, .hang_s = 150, .max_cases = 150}) {
  quiet_log(); HW world; hw = &world; auto smode = gen_mode(src), cmode = gen_mode(src); int before = src.flip() ? int(FD_SETSIZE - 24 + src.draw(30)) : 0, after = int(FD_SETSIZE - 16 + src.draw(24)); int n = 1 + int(src.draw(7)), rounds = 1 + int(src.draw(1));
  struct rlimit rl; if (getrlimit(RLIMIT_NOFILE, &rl) != 0) return; if (rl.rlim_cur < 1400) { if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < 1400) { src.label("too few descriptors"); return; } rl.rlim_cur = 1400; if (setrlimit(RLIMIT_NOFILE, &rl) != 0) { src.label("too few descriptors"); return; } }
  auto fill = [](int upto) { if (upto == 0) return; int fd = ::open("/dev/null", O_RDONLY); if (fd < 0) pbt::inconclusive("no descriptors"); for (int k = fd; k < upto;) { k = ::dup(fd); if (k < 0) pbt::inconclusive("no descriptors"); } };
  src.note("listener %s, connector %s, descriptors up to %d taken before the start and up to %d after it, %d connections", mode_name(smode), mode_name(cmode), before, after, n); fill(before); auto l = limits(); l.io_faults = false; sched::start(src, l);
  {
    net::Listener listener(setting("srv", smode, 32, 1)); net::Connector connector(setting("cli", cmode, 32, 1));
    listener.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { std::string d; { sched::Quiet q; d = content(*p); } c->send(make(5, d)); return true; });
    listener.set_connect_callback([](Conn *) { sched::Quiet q; ++hw->ups; }); listener.set_disconnect_callback([](Conn *) { sched::Quiet q; ++hw->downs; });
    connector.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { sched::Quiet q; if (content(*p) != "hi" + std::to_string(int(c->id()))) pbt::fail("a connection received the reply for another"); ++hw->replies[c->id()]; return true; });
    connector.set_disconnect_callback([](Conn *c) { sched::Quiet q; ++hw->ended[c->id()]; });
    bool ls = listener.start(), cs = connector.start(); if (!ls) CHECK_MSG(smode == net::Mode::Select && before, "an epoll listener with socket numbers up to %d does not start", before); if (!cs) CHECK_MSG(cmode == net::Mode::Select && before, "an epoll connector with socket numbers up to %d does not start", before);
    uint16_t port = ls ? port_of(listener) : 0; fill(after);
    if (ls) for (int r = 0; r < rounds; ++r) {
      // Plain clients: served, or let go.
      std::vector<int> fd; for (int i = 0; i < n; ++i) { int f = dial(port); if (f < 0) pbt::fail("client %d cannot connect", i); fd.push_back(f); std::string d = "plain" + std::to_string(i); send_all(f, wire_of(7, d), 1 << 20); }
      for (int i = 0; i < n; ++i) { std::string want = wire_of(5, "plain" + std::to_string(i)), got; bool closed = false; auto look = [&] { char b[64]; ssize_t k = ::recv(fd[size_t(i)], b, sizeof b, MSG_DONTWAIT); if (k > 0) got.append(b, size_t(k)); else if (k == 0 || (errno != EAGAIN && errno != EINTR)) closed = true; return closed || got.size() >= want.size(); };
        if (!eventually(look)) { sched::calm(); if (!eventually(look)) pbt::fail("round %d: client %d was neither served nor let go", r, i); }
        if (closed) CHECK_MSG(smode == net::Mode::Select, "an epoll listener let client %d go", i); else CHECK_MSG(got == want, "client %d got %s", i, pbt::hex(got).c_str()); src.label(closed ? "let go" : "served"); }
      for (int f : fd) ::close(f);
      if (!cs) continue;
      for (int i = 0; i < n; ++i) {
        auto conn = connector.connect("127.0.0.1", port); if (!conn) { CHECK_MSG(cmode == net::Mode::Select, "an epoll connector with high socket numbers cannot connect"); src.label("not connected"); continue; }
        int id = conn->id(); { sched::Quiet q; ++hw->made[id]; hw->replies[id] = 0; } bool sent = conn->send(make(7, "hi" + std::to_string(id))); auto done = [&] { return hw->replies[id] || (smode == net::Mode::Select && hw->ended[id] >= hw->made[id]); };  /* it may have ended even before connect() returned */
        if (!sent) CHECK_MSG(smode == net::Mode::Select, "a fresh connection refuses a packet"); if (!eventually(done)) { sched::calm(); if (!eventually(done)) pbt::fail("round %d: connection %d is neither answered nor ended", r, id); }
        if (!hw->replies[id]) CHECK_MSG(smode == net::Mode::Select, "an epoll listener did not answer connection %d", id); src.label(hw->replies[id] ? "answered" : "ended"); if (src.flip()) conn->shutdown();
      }
    }
    sched::settle(); src.steps(uint64_t(n)); src.nontrivial(); if (cs) connector.stop(); if (ls) listener.stop(); CHECK(hw->downs <= hw->ups);
  }
  CHECK(sched::live_threads() == 1);
}

namespace { struct RW { std::map<int, int> ups, downs; std::map<int, std::string> got; int served = 0; }; RW *rw; }
// The system lets no more sockets be watched for a while.
PROPERTY(refused_watch, pbt::Options{.weight = 1, .batch = 1, .hang_s = 60, .max_cases = 2500}) {
  quiet_log(); RW world; rw = &world; uint32_t max = uint32_t(src.range(2, 5)); int rounds = 1 + int(src.draw(3)); 
  src.note("at most %u connections", max); auto l = limits(); l.io_faults = false; sched::start(src, l);
  {
    net::Listener listener(setting("srv", net::Mode::Epoll, max, uint32_t(src.draw(max)))); net::Connector connector(setting("cli", net::Mode::Epoll, max, uint32_t(src.draw(max))));
    listener.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { std::string d; { sched::Quiet q; d = content(*p); ++rw->served; } c->send(make(5, d)); return true; });
    listener.set_connect_callback([](Conn *c) { sched::Quiet q; ++rw->ups[c->id()]; }); listener.set_disconnect_callback([](Conn *c) { sched::Quiet q; ++rw->downs[c->id()]; });
    std::map<int, int> ups, downs; auto pups = &ups, pdowns = &downs; connector.set_connect_callback([pups](Conn *c) { sched::Quiet q; ++(*pups)[c->id()]; }); connector.set_disconnect_callback([pdowns](Conn *c) { sched::Quiet q; ++(*pdowns)[c->id()]; });
    connector.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { sched::Quiet q; rw->got[c->id()] += content(*p); return true; });
    CHECK(listener.start() && connector.start()); uint16_t port = port_of(listener); CHECK(connector.running() && listener.running());
    auto sum = [](const std::map<int, int> &m) { int n = 0; for (auto &e : m) n += e.second; return n; };
    std::vector<std::shared_ptr<Conn>> conns; size_t keep = src.draw(max - 1);
    for (size_t i = 0; i < keep; ++i) { auto c = connector.connect("127.0.0.1", port); if (!c) pbt::fail("connection %zu of %u was refused", i, max); conns.push_back(c); }
    if (!eventually([&] { return sum(rw->ups) >= int(keep); })) pbt::fail("%d of %zu connections arrived", sum(rw->ups), keep);
    for (int r = 0; r < rounds; ++r) {
      sched::settle(); int ups0, downs0, cups0, cdowns0; { sched::Quiet q; ups0 = sum(rw->ups); downs0 = sum(rw->downs); cups0 = sum(ups); cdowns0 = sum(downs); }
      sched::deny_watch(true); size_t tries = 1 + src.draw(max + 1); src.note("round %d: %zu kept, %zu refused", r, keep, tries);
      for (size_t i = 0; i < tries; ++i) {
        if (src.flip()) { auto c = connector.connect("127.0.0.1", port); if (c) pbt::fail("a connection that cannot be watched was made"); }
        else { int fd = dial(port); if (fd < 0) pbt::fail("cannot dial"); auto closed = [&] { char b; ssize_t k = ::recv(fd, &b, 1, MSG_DONTWAIT); return k == 0 || (k < 0 && errno != EAGAIN && errno != EINTR); }; if (!eventually(closed)) pbt::fail("a connection that cannot be watched was not let go"); ::close(fd); }
      }
      sched::settle(); { sched::Quiet q; CHECK_MSG(sum(rw->ups) - ups0 == sum(rw->downs) - downs0, "connections that cannot be watched were told %d times, their ends %d times", sum(rw->ups) - ups0, sum(rw->downs) - downs0); CHECK_MSG(sum(ups) - cups0 == sum(downs) - cdowns0, "the connector told of %d connections and %d ends", sum(ups) - cups0, sum(downs) - cdowns0); rw->got.clear(); }
      // Those there are served on.
      std::string want; if (src.flip()) { want = "x" + std::to_string(r); connector.broadcast(make(7, want)); } else { want = "y" + std::to_string(r); for (auto &c : conns) CHECK_MSG(c->send(make(7, want)), "a connection refuses a packet"); }
      if (!eventually([&] { for (auto &c : conns) if (rw->got[c->id()].size() < want.size()) return false; return true; })) pbt::fail("a connection is no longer served"); sched::settle();
      { sched::Quiet q; for (auto &c : conns) CHECK_MSG(rw->got[c->id()] == want, "connection %d received '%s', not '%s'", int(c->id()), rw->got[c->id()].c_str(), want.c_str()); size_t n = 0; for (auto &g : rw->got) n += !g.second.empty(); CHECK_MSG(n == conns.size(), "a packet went to %zu connections of %zu", n, conns.size()); rw->got.clear(); }
      sched::deny_watch(false);
      // All slots can be taken.
      std::vector<std::shared_ptr<Conn>> more; for (size_t i = keep; i < max; ++i) { auto c = connector.connect("127.0.0.1", port); if (!c) pbt::fail("connection %zu of %u was refused after watching was denied", i, max); more.push_back(c); std::string d = "z"; c->send(make(7, d)); }
      if (!eventually([&] { for (auto &c : more) if (rw->got[c->id()] != "z") return false; return true; })) pbt::fail("a slot stays unusable after watching was denied: not all of %u connections are served", max);
      { sched::Quiet q; std::set<int> ids; for (auto &c : conns) ids.insert(c->id()); for (auto &c : more) ids.insert(c->id()); CHECK_MSG(ids.size() == max && *ids.begin() == 1 && *ids.rbegin() == int(max), "%u connections share %zu ids", max, ids.size()); }
      CHECK(connector.is_full() && listener.is_full());
      int before; { sched::Quiet q; before = sum(rw->downs); } for (auto &c : more) c->shutdown(); size_t left = more.size(); more.clear(); if (!eventually([&] { return sum(rw->downs) >= before + int(left); })) pbt::fail("%d of %zu connections that were shut down ended", sum(rw->downs) - before, left);
      if (!eventually([&] { return sum(ups) - sum(downs) == int(keep); })) pbt::fail("connections that were shut down did not end at the connector");
    }
    src.steps(uint64_t(rounds)); src.nontrivial(); conns.clear(); connector.stop(); listener.stop(); CHECK_MSG(sum(rw->ups) == sum(rw->downs), "%d connections were told of, %d ends", sum(rw->ups), sum(rw->downs));
  }
  CHECK(sched::live_threads() == 1);
}
