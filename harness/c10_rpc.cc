// Remote calls over connections: every call has exactly one outcome.
#include <limits>
#include "net_common.h"
#include <future>
#include <optional>
#include <tuple>
#include "plain/basic/error.h"
#include "plain/net/packet/config.h"

using plain::net::rpc::Unpacker;
namespace {
struct Call { int kind = 0; /* 0 add 1 text 2 list 3 no result 4 none (count) 5 unknown name 6 bad arguments 7 notify 8 slow */ int64_t a = 0, b = 0; std::string s; std::vector<int> v; int mode = 0; /* 0 call 1 async */ int runs = 0; int outcome = 0; /* 1 value 2 error 3 broken 4 timeout */ bool sent = false; };
struct Ctx { std::vector<Call> c; int counter = 0; std::vector<std::string> plain_got; bool open = true; };
Ctx *cx;
void ran(int64_t id) { sched::Quiet q; if (id < 0 || id >= int64_t(cx->c.size())) pbt::fail("a function was called with an argument nobody sent (%lld)", (long long)id); if (++cx->c[id].runs > 1) pbt::fail("call %lld was executed twice", (long long)id); }
void bind_all(net::Listener &l) {
  l.bind("add", [](int32_t id, int64_t a, int64_t b) { ran(id); return a + b; });
  l.bind("text", [](int32_t id, std::string s) { ran(id); return s + "|" + s; });
  l.bind("list", [](int32_t id, std::vector<int> v) { ran(id); std::vector<int> r(v.rbegin(), v.rend()); return r; });
  l.bind("note", [](int32_t id) { ran(id); });
  l.bind("tell", [](int32_t id) { ran(id); });
  l.bind("count", [] { sched::Quiet q; return ++cx->counter; });
  l.bind("slow", [](int32_t id, int32_t us) { ran(id); std::this_thread::sleep_for(std::chrono::microseconds(us)); return id; });
}
int gen_call(Src &src) {
  int id = int(cx->c.size()); Call c; c.kind = int(src.pick({4, 4, 3, 2, 2, 2, 2, 2})); c.mode = int(src.pick({1, 2})); c.a = int64_t(src.bits(64)); c.b = int64_t(src.draw(1000)); if (c.a > INT64_MAX - 2000) c.a = 7;
  if (c.kind == 1) { size_t n = src.chance(1, 8) ? src.size(0, 9000) : src.size(0, 40); c.s.resize(n); uint64_t h = src.draw(1u << 30); for (auto &x : c.s) { h = mix(h); x = char(h); } }
  if (c.kind == 2) { size_t n = src.size(0, 40); for (size_t i = 0; i < n; ++i) c.v.push_back(int(int32_t(src.bits(64)))); }
  if (c.kind == 6) c.b = int64_t(src.draw(2));
  cx->c.push_back(c); return id;
}
std::future<Unpacker> start_call(Conn &k, int id) {
  Call c; { sched::Quiet q; c = cx->c[id]; cx->c[id].sent = true; } int32_t i = id;
  switch (c.kind) {
    case 0: return k.async_call("add", i, c.a, c.b);
    case 1: return k.async_call("text", i, c.s);
    case 2: return k.async_call("list", i, c.v);
    case 3: return k.async_call("note", i);
    case 4: return k.async_call("count");
    case 5: return k.async_call("nosuch" + std::to_string(id), i);
    case 8: return k.async_call("slow", i, int32_t(c.b));
    default: return c.b == 0 ? k.async_call("add") : c.b == 1 ? k.async_call("text", i) : k.async_call("list", i);
  }
}
Unpacker sync_call(Conn &k, int id) {
  Call c; { sched::Quiet q; c = cx->c[id]; cx->c[id].sent = true; } int32_t i = id;
  switch (c.kind) {
    case 0: return k.call("add", i, c.a, c.b);
    case 1: return k.call("text", i, c.s);
    case 2: return k.call("list", i, c.v);
    case 3: return k.call("note", i);
    case 4: return k.call("count");
    case 5: return k.call("nosuch" + std::to_string(id), i);
    case 8: return k.call("slow", i, int32_t(c.b));
    default: return c.b == 0 ? k.call("add") : c.b == 1 ? k.call("text", i) : k.call("list", i);
  }
}
void check_value(int id, Unpacker u) {
  sched::Quiet q; Call &c = cx->c[id]; c.outcome = 1;
  switch (c.kind) {
    case 0: { int64_t r = u.as<int64_t>(); if (u.error_ || r != c.a + c.b) pbt::fail("call %d: got %lld, expected %lld", id, (long long)r, (long long)(c.a + c.b)); break; }
    case 1: { std::string r = u.as<std::string>(); if (u.error_ || r != c.s + "|" + c.s) pbt::fail("call %d: a text of %zu bytes came back wrong (%zu bytes)", id, c.s.size(), r.size()); break; }
    case 2: { auto r = u.as<std::vector<int>>(); std::vector<int> x(c.v.rbegin(), c.v.rend()); if (u.error_ || r != x) pbt::fail("call %d: a list of %zu came back wrong", id, c.v.size()); break; }
    case 3: break;
    case 4: { int r = u.as<int>(); if (u.error_ || r < 1 || r > cx->counter) pbt::fail("call %d: counted %d", id, r); c.a = r; break; }
    case 8: { int r = u.as<int>(); if (u.error_ || r != id) pbt::fail("call %d: got the result of call %d", id, r); break; }
    default: pbt::fail("call %d of %s succeeded", id, c.kind == 5 ? "an unknown function" : "a function with wrong arguments");
  }
  if (c.kind != 4 && c.runs != 1) pbt::fail("call %d has a result but its function ran %d times", id, c.runs);
}
void check_error(int id, std::exception_ptr e, bool may_end, bool may_time) {
  sched::Quiet q; Call &c = cx->c[id];
  try { std::rethrow_exception(e); }
  catch (const std::future_error &x) { c.outcome = 3; if (!may_end) pbt::fail("call %d was abandoned although its connection is open", id); if (x.code() != std::future_errc::broken_promise) pbt::fail("call %d: %s", id, x.what()); }
  catch (const std::logic_error &x) {
    std::string m = x.what();
    if (m.find("timeout") != std::string::npos) { c.outcome = 4; if (!may_time) pbt::fail("call %d timed out: %s", id, x.what()); return; }
    if (m.rfind("async_call", 0) == 0) { c.outcome = 3; if (!may_end) pbt::fail("call %d could not be sent although its connection is open", id); return; }
    c.outcome = 2; if (c.kind != 5 && c.kind != 6) pbt::fail("call %d failed: %s", id, x.what());
    std::string nf = "error: " + std::to_string(int(plain::ErrorCode::NetRpcFunctionNotFound)); if (c.kind == 5 && m != nf) pbt::fail("call %d of an unknown function: %s, expected %s", id, x.what(), nf.c_str());
    if (c.kind == 6 && m == "error: 0") pbt::fail("call %d with wrong arguments: %s", id, x.what());
  }
  if (c.kind == 6 && c.runs) pbt::fail("call %d with wrong arguments was executed", id);
}
bool ready(std::future<Unpacker> &f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
bool ready_soon(std::future<Unpacker> &f) { return eventually([&] { return ready(f); }); }
std::string kinds(const std::vector<int> &ids) { static const char *n[] = {"add", "text", "list", "void", "count", "unknown", "bad", "notify", "slow"}; std::string s; for (int i : ids) { s += s.empty() ? "" : " "; s += n[cx->c[i].kind]; } return s; }
}  // namespace

// Concurrent callers on several connections.
PROPERTY(calls, pbt::Options{.weight = 3, .batch = 1, .hang_s = 60}) {
  quiet_log(); Ctx ctx; cx = &ctx; cx->c.reserve(512); auto smode = gen_mode(src), cmode = gen_mode(src); int nc = int(src.range(1, 3)); std::vector<std::vector<std::vector<int>>> plan(nc); size_t total = 0; bool traffic = src.flip(); int timeout = src.chance(1, 3) ? int(1 + src.draw(3)) : 0;
  src.note("listener %s, connector %s%s%s", mode_name(smode), mode_name(cmode), traffic ? ", other packets in between" : "", timeout == 1 ? ", generous timeout" : timeout == 2 ? ", a timeout of centuries" : timeout == 3 ? ", a timeout that was cleared" : timeout ? ", a timeout of a former connection" : "");
  for (int i = 0; i < nc; ++i) { plan[i].resize(1 + src.draw(1)); for (auto &t : plan[i]) { size_t n = src.size(1, 8); for (size_t k = 0; k < n; ++k) { t.push_back(gen_call(src)); ++total; } src.note("connection %d: %s", i, kinds(t).c_str()); } }
  sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 8, 1)); net::Connector connector(setting("cli", cmode, 8, 1)); bind_all(listener);
    listener.set_dispatcher([](Conn *c, std::shared_ptr<Packet> p) { c->send(p); return true; }); connector.set_dispatcher([](Conn *, std::shared_ptr<Packet> p) { sched::Quiet q; cx->plain_got.push_back(content(*p)); return true; });
    static int former; former = timeout == 4 ? 2 : 0; auto dropped = [](Conn *) { sched::Quiet q; if (former > 0) { --former; return; } if (cx->open) pbt::fail("a connection was dropped"); }; listener.set_disconnect_callback(dropped); connector.set_disconnect_callback(dropped);
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start()); std::vector<std::thread> th; std::vector<std::shared_ptr<Conn>> conns; size_t plain_sent = 0; static size_t ps; ps = 0;
    if (timeout == 4) { auto c = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(c); c->set_call_timeout(ms(1)); c->shutdown(); c.reset(); if (!eventually([] { return former == 0; })) pbt::fail("the end of a connection is not reported"); sched::settle(); }
    for (int i = 0; i < nc; ++i) { auto c = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(c); if (timeout == 1) c->set_call_timeout(ms(600000)); else if (timeout && timeout < 4) c->set_call_timeout(timeout == 2 ? ms(std::numeric_limits<int64_t>::max() / (i + 1)) : ms(1)); if (timeout == 3) c->clear_call_timeout(); conns.push_back(c); }
    for (int i = 0; i < nc; ++i) for (auto &t : plan[i]) th.emplace_back([&t, conn = conns[i], traffic] {
      std::vector<std::pair<int, std::future<Unpacker>>> pend;
      for (int id : t) {
        Call c; { sched::Quiet q; c = cx->c[id]; }
        if (traffic && id % 2) { { sched::Quiet q; ++ps; } conn->send(make(11, "x" + std::to_string(id))); }
        if (c.kind == 7) { if (!conn->send("tell", int32_t(id))) pbt::fail("a notification could not be sent"); { sched::Quiet q; cx->c[id].sent = true; cx->c[id].outcome = 1; } continue; }
        if (c.mode == 1) pend.emplace_back(id, start_call(*conn, id));
        else { try { check_value(id, sync_call(*conn, id)); } catch (...) { check_error(id, std::current_exception(), false, false); } }
      }
      if (t.size() % 2) std::reverse(pend.begin(), pend.end());
      for (auto &p : pend) { try { check_value(p.first, p.second.get()); } catch (...) { check_error(p.first, std::current_exception(), false, false); } }
    });
    for (auto &t : th) t.join();
    if (!eventually([&] { for (auto &c : cx->c) { if (c.outcome == 0) return false; if (c.kind == 7 && c.runs != 1) return false; } return cx->plain_got.size() == ps; })) { sched::Quiet q; for (size_t i = 0; i < cx->c.size(); ++i) if (cx->c[i].kind == 7 && cx->c[i].runs != 1) pbt::fail("notification %zu was not executed", i); pbt::fail("%zu of %zu other packets came back", cx->plain_got.size(), ps); }
    sched::settle(); { sched::Quiet q; std::set<int64_t> seen; int counts = 0; for (auto &c : cx->c) if (c.kind == 4) { ++counts; if (!seen.insert(c.a).second) pbt::fail("two calls got the same count"); } if (cx->counter != counts) pbt::fail("%d calls, the function ran %d times", counts, cx->counter); (void)plain_sent; }
    src.steps(total); if (total >= 3 && sched::stats().switches > 8) src.nontrivial();
    { sched::Quiet q; cx->open = false; } conns.clear(); connector.stop(); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}

// Calls under way when the connection ends, or that take too long.
PROPERTY(calls_end, pbt::Options{.weight = 2, .batch = 1, .hang_s = 60}) {
  quiet_log(); Ctx ctx; cx = &ctx; cx->c.reserve(512); auto smode = gen_mode(src), cmode = gen_mode(src); size_t n = 1 + src.draw(6); int how = int(src.draw(4)); uint64_t delay = src.draw(3000000); bool blocked = src.flip(); int tmo = how == 4 ? int(1 + src.draw(30)) : 0; std::vector<int> ids;
  for (size_t i = 0; i < n; ++i) { int id = gen_call(src); if (src.flip() || cx->c[id].kind == 7) { cx->c[id].kind = 8; cx->c[id].b = int64_t(src.draw(smode == net::Mode::Select ? 300 : 40000)); } ids.push_back(id); }
  static const char *names[] = {"the caller shuts the connection down", "the far end shuts the connection down", "the connector stops", "the listener stops", "calls have a timeout"};
  src.note("listener %s, connector %s; %s; after %llu us %s%s", mode_name(smode), mode_name(cmode), kinds(ids).c_str(), (unsigned long long)delay / 1000, names[how], blocked ? ", one caller blocked in call()" : ""); sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 8, 1)); net::Connector connector(setting("cli", cmode, 8, 1)); bind_all(listener); static int server; server = 0; listener.set_connect_callback([](Conn *c) { sched::Quiet q; server = c->id(); });
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start()); auto conn = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(conn); if (tmo) conn->set_call_timeout(ms(tmo)); CHECK(eventually([&] { return server != 0; }));
    static bool over; over = false; std::vector<std::future<Unpacker>> fs(n); size_t first = blocked || tmo ? 1 : 0; std::thread caller;
    if (first) caller = std::thread([&] { uint64_t t0 = sched::now_ns(); try { check_value(ids[0], sync_call(*conn, ids[0])); } catch (...) { check_error(ids[0], std::current_exception(), how != 4, tmo != 0); } { sched::Quiet q; if (cx->c[ids[0]].outcome == 4 && sched::now_ns() - t0 < uint64_t(tmo) * 1000000) pbt::fail("a call with a timeout of %d ms gave up after %llu us", tmo, (unsigned long long)(sched::now_ns() - t0) / 1000); over = true; } });
    for (size_t i = first; i < n; ++i) fs[i] = start_call(*conn, ids[i]);
    sched::sleep_ns(delay);
    std::thread stopper; if (how == 0) conn->shutdown(); else if (how == 1) { auto c = listener.get_conn(server); if (c) c->shutdown(); } else if (how == 2) connector.stop(); else if (how == 3) listener.stop();
    for (size_t i = first; i < n; ++i) { if (!ready_soon(fs[i])) pbt::fail("call %d never ends although %s", ids[i], how == 4 ? "nothing stands in the way" : names[how]); try { check_value(ids[i], fs[i].get()); } catch (...) { check_error(ids[i], std::current_exception(), how != 4, false); } }
    if (first) { if (!eventually([&] { return over; })) pbt::fail("a caller blocked in call() never returns although %s", names[how]); caller.join(); }
    if (how == 0 || how == 1 || how == 2) { // the connection is gone: a new call fails at once or is ended
      sched::settle(); int id = int(cx->c.size()); { sched::Quiet q; Call c; c.kind = 8; cx->c.push_back(c); } auto f = start_call(*conn, id); if (!ready_soon(f)) pbt::fail("a call on a closed connection never ends"); try { check_value(id, f.get()); pbt::fail("a call on a closed connection succeeded"); } catch (...) { check_error(id, std::current_exception(), true, false); }
    }
    src.steps(n); bool ended = false; for (auto &c : cx->c) ended |= c.outcome == 3 || c.outcome == 4; if (ended && n >= 2) src.nontrivial(); src.label(names[how]);
    conn.reset(); connector.stop(); listener.stop(); sched::calm(); fs.clear();
  }
  CHECK(sched::live_threads() == 1);
}

// A server that answers out of order, twice, to nobody, or with garbage.
namespace {
int raw_listen(uint16_t &port) { int fd = ::socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); CHECK(::bind(fd, reinterpret_cast<struct sockaddr *>(&a), sizeof a) == 0); CHECK(::listen(fd, 8) == 0); socklen_t l = sizeof a; CHECK(::getsockname(fd, reinterpret_cast<struct sockaddr *>(&a), &l) == 0); port = ntohs(a.sin_port); return fd; }
std::string bytes_of(Packet &p, bool response) { p.set_writeable(false); (void)response; auto sp = std::shared_ptr<Packet>(&p, [](Packet *) {}); auto b = net::stream::encode(sp); return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
std::string response(uint32_t index, int32_t error, const std::vector<uint8_t> &v) { Packet p; p.set_id(net::packet::kRpcResponseId); p.set_writeable(true); p.set_call_response(true); p << index; p << error; if (!v.empty()) p << v; return bytes_of(p, true); }
struct HS { int conn_lost = 0; bool over = false; }; HS *hs;
}  // namespace
PROPERTY(odd_server, pbt::Options{.weight = 2, .batch = 1, .hang_s = 60}) {
  quiet_log(); Ctx ctx; cx = &ctx; cx->c.reserve(64); HS h; hs = &h; auto cmode = gen_mode(src); size_t n = 1 + src.draw(5); int odd = int(src.draw(6)); int when = int(src.draw(n)); std::vector<int> order; for (size_t i = 0; i < n; ++i) order.push_back(int(i)); if (src.flip()) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[src.draw(i - 1)]);
  static const char *names[] = {"nothing odd", "an answer twice", "an answer to no call", "an answer with index zero", "an answer cut short", "random bytes", "an error code"}; uint64_t salt = src.draw(1u << 30); src.note("connector %s, %zu calls answered in %s order, %s before answer %d", mode_name(cmode), n, std::is_sorted(order.begin(), order.end()) ? "the same" : "another", names[odd], when);
  sched::start(src, limits());
  {
    uint16_t port; int lfd = raw_listen(port); net::Connector connector(setting("cli", cmode, 4, 1)); connector.set_disconnect_callback([](Conn *) { sched::Quiet q; ++hs->conn_lost; }); CHECK(connector.start());
    std::shared_ptr<Conn> conn; std::thread ct([&] { conn = connector.connect("127.0.0.1:" + std::to_string(port)); }); int fd; do fd = ::accept(lfd, nullptr, nullptr); while (fd < 0 && (errno == EINTR || errno == EAGAIN)); ct.join(); CHECK(fd >= 0 && conn);
    std::vector<std::future<Unpacker>> fs; for (size_t i = 0; i < n; ++i) fs.push_back(conn->async_call("f", int32_t(i)));
    // Read the requests with a reference parser.
    std::string in; std::vector<uint32_t> index; while (index.size() < n) { char b[512]; ssize_t k = ::recv(fd, b, sizeof b, 0); if (k < 0 && (errno == EINTR || errno == EAGAIN)) continue; if (k <= 0) pbt::fail("the connection was closed while calls were sent"); in.append(b, size_t(k)); while (in.size() >= 6) { uint32_t len = 0; for (int x = 2; x < 6; ++x) len = len << 8 | uint8_t(in[x]); if (in.size() < 6 + size_t(len)) break; if (len < 4) pbt::fail("a request of %u bytes", len); uint32_t ix = 0; for (int x = 6; x < 10; ++x) ix = ix << 8 | uint8_t(in[x]); if (ix == 0) pbt::fail("a request with index zero"); if (std::find(index.begin(), index.end(), ix) != index.end()) pbt::fail("two calls under way have the same index %u", ix); index.push_back(ix); in.erase(0, 6 + size_t(len)); } }
    auto value = [&](size_t i) { net::rpc::Packer p; int32_t v = int32_t(1000 + i); p.process(v); return p.vector(); };
    size_t answered = 0; int err_call = -1; std::vector<char> ans(n, 0); bool fatal = false;
    for (size_t k = 0; k < n && !fatal; ++k) {
      int i = order[k];
      if (int(k) == when) { std::string w; if (odd == 1 && k > 0) w = response(index[order[k - 1]], 0, value(order[k - 1])); else if (odd == 2) w = response(uint32_t(4000000000u + salt % 1000), 0, value(0)); else if (odd == 3) w = response(0, 0, value(0)); else if (odd == 4) { w = response(index[i], 0, {}); w = w.substr(0, 6); uint32_t len = uint32_t(mix(salt) % 4); w[2] = w[3] = w[4] = 0; w[5] = char(len); w += std::string(len, char(0)); } else if (odd == 5) { for (size_t x = 0; x < 6 + salt % 60; ++x) w += char(mix(salt + x)); } else if (odd == 6) { w = response(index[i], 77, {}); err_call = i; ans[i] = 1; }
        if (!w.empty() && !send_all(fd, w, 1 << 20)) fatal = true; if (err_call == i) { ++answered; continue; } }
      if (!send_all(fd, response(index[i], 0, value(i)), size_t(salt % 3 ? 1 << 20 : 5))) fatal = true; else { ans[i] = 1; ++answered; }
    }
    bool clean = odd == 0 || odd == 6 || odd == 3 || (odd == 1 && when == 0) || when >= int(n);
    if (clean) for (size_t i = 0; i < n; ++i) if (!ready_soon(fs[i])) pbt::fail("call %zu was answered but does not end", i);
    ::close(fd); ::close(lfd);
    for (size_t i = 0; i < n; ++i) {
      if (!ready_soon(fs[i])) pbt::fail("call %zu does not end although the connection is closed", i);
      try { Unpacker u = fs[i].get(); int v = u.as<int32_t>(); sched::Quiet q; if (int(i) == err_call) pbt::fail("call %zu was answered with an error and has a value", i); if (!(odd == 5 || odd == 4) && (u.error_ || v != int(1000 + i))) pbt::fail("call %zu: got %d, the server answered %d", i, v, int(1000 + i)); }
      catch (const std::logic_error &e) { sched::Quiet q; if (clean && int(i) != err_call) pbt::fail("call %zu was answered and fails: %s", i, e.what()); if (clean && std::string(e.what()) != "error: 77") pbt::fail("call %zu: the server's error is reported as %s", i, e.what()); }
    }
    if (!eventually([&] { return hs->conn_lost == 1; })) pbt::fail("the closed connection was not reported"); src.steps(n); if (n >= 2) src.nontrivial(); src.label(names[odd]); connector.stop();
  }
  CHECK(sched::live_threads() == 1);
}

// A client that sends malformed requests; another one is not disturbed.
PROPERTY(odd_client, pbt::Options{.weight = 2, .batch = 1, .hang_s = 60}) {
  quiet_log(); Ctx ctx; cx = &ctx; cx->c.reserve(64); auto smode = gen_mode(src), cmode = gen_mode(src); size_t n = 1 + src.draw(4), odd = 1 + src.draw(6); std::vector<std::string> w; std::string what;
  for (size_t i = 0; i < odd; ++i) {
    Packet p; p.set_writeable(true); int k = int(src.draw(5)); bool notify = src.chance(1, 4); if (notify) { p.set_id(net::packet::kRpcNotifyId); p.set_call_notify(true); } else { p.set_id(net::packet::kRpcRequestId); p.set_call_request(true); }
    uint32_t ix = uint32_t(1 + i); std::vector<uint8_t> junk; size_t m = src.size(0, 30); for (size_t x = 0; x < m; ++x) junk.push_back(uint8_t(src.draw(255)));
    if (k == 0) { /* nothing at all */ } else if (k == 1) { if (!notify) p << ix; } else if (k == 2) { if (!notify) p << ix; p << uint32_t(src.bits(64)); } else if (k == 3) { if (!notify) p << ix; static const char *f[] = {"text", "list", "add", "slow", "note"}; p << std::string_view(f[src.draw(4)]); if (!junk.empty()) p << junk; } else if (k == 4) { if (!notify) p << ix; p << std::string_view("nothere"); } else { if (!junk.empty()) p << junk; }
    static const char *names[] = {"empty", "index only", "wild name length", "junk arguments", "unknown name", "junk"}; what += std::string(" ") + names[k]; w.push_back(bytes_of(p, false));
  }
  std::vector<int> ids; for (size_t i = 0; i < n; ++i) { int id = gen_call(src); if (cx->c[id].kind == 7) cx->c[id].kind = 3; ids.push_back(id); } src.note("listener %s; odd client:%s; other client: %s", mode_name(smode), what.c_str(), kinds(ids).c_str());
  sched::start(src, limits());
  {
    net::Listener listener(setting("srv", smode, 8, 1)); net::Connector connector(setting("cli", cmode, 8, 1)); listener.bind("add", [](int32_t id, int64_t a, int64_t b) { (void)id; return a + b; }); listener.bind("text", [](int32_t, std::string s) { return s + "|" + s; }); listener.bind("list", [](int32_t, std::vector<int> v) { return std::vector<int>(v.rbegin(), v.rend()); }); listener.bind("note", [](int32_t) {}); listener.bind("slow", [](int32_t id, int32_t) { return id; }); listener.bind("count", [] { sched::Quiet q; return ++cx->counter; });
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start()); auto conn = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(conn); int fd = dial(port); CHECK(fd >= 0);
    std::thread t([&] { for (auto &s : w) if (!send_all(fd, s, 1 << 20)) break; });
    for (int id : ids) { { sched::Quiet q; cx->c[id].runs = cx->c[id].kind == 6 ? 0 : 1; } try { check_value(id, sync_call(*conn, id)); } catch (...) { check_error(id, std::current_exception(), false, false); } }
    t.join(); sched::settle(); CHECK_MSG(conn->send(make(3, "x")), "the well-behaved connection was closed"); ::close(fd); src.steps(n + odd); src.nontrivial(); connector.stop(); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}

// A connection that has made a great many calls still tells them apart.
PROPERTY(many_calls, pbt::Options{.weight = 1, .batch = 1, .hang_s = 150, .max_cases = 12}) {
  quiet_log(); Ctx ctx; cx = &ctx; auto smode = gen_mode(src), cmode = gen_mode(src); size_t n = src.draw(3) != 3 ? 200 + src.draw(120) : 65400 + src.draw(300), group = n > 1000 ? 200 + src.draw(100) : 1 + src.draw(40), at = 0; src.note("%zu calls, %zu at a time", n, group);
  auto l = limits(); l.max_points = 60000000; l.io_faults = n < 1000; sched::start(src, l); if (n > 1000) sched::calm();
  {
    net::Listener listener(setting("srv", smode, 2, 1)); net::Connector connector(setting("cli", cmode, 2, 1)); std::vector<uint8_t> runs(n); listener.bind("twice", [&](uint32_t i) { sched::Quiet q; if (i >= n || runs[i]++) pbt::fail("call %u was executed twice", i); return i * 2; });
    auto dropped = [](Conn *) { sched::Quiet q; if (cx->open) pbt::fail("a connection was dropped"); }; connector.set_disconnect_callback(dropped);
    CHECK(listener.start()); uint16_t port = port_of(listener); CHECK(connector.start()); auto conn = connector.connect("127.0.0.1:" + std::to_string(port)); CHECK(conn);
    while (at < n) {
      std::vector<std::future<Unpacker>> fs; size_t from = at; for (; at < n && fs.size() < group; ++at) fs.push_back(conn->async_call("twice", uint32_t(at)));
      for (size_t i = 0; i < fs.size(); ++i) { if (!ready_soon(fs[i])) pbt::fail("call %zu of %zu was not answered", from + i, n); try { Unpacker u = fs[i].get(); uint32_t v = u.as<uint32_t>(); if (u.error_ || v != (from + i) * 2) pbt::fail("call %zu of %zu got the answer %u", from + i, n, v); } catch (const std::exception &e) { pbt::fail("call %zu of %zu failed: %s", from + i, n, e.what()); } }
    }
    src.steps(n); src.nontrivial(); { sched::Quiet q; cx->open = false; } conn.reset(); connector.stop(); listener.stop();
  }
  CHECK(sched::live_threads() == 1);
}
