// C07: remote calls reach exactly the function bound to the name with exactly
// the arguments sent; everything else is refused without calling anything.
#include "pbt.h"
#include <map>
#include <set>
#include "plain/net/packet/basic.h"
#include "plain/net/rpc/dispatcher.h"
using pbt::Src;
using namespace plain::net;
using plain::ErrorCode;

static std::string g_log; static int g_calls;
struct Entry { int kind; int tag; };
static std::string key(int kind, int tag, const std::string &a) { return std::to_string(kind) + ":" + std::to_string(tag) + "(" + a + ")"; }

PROPERTY(bound_functions, pbt::Options{.weight = 1}) {
  rpc::Dispatcher d; std::map<std::string, Entry> bound; int tag = 0; size_t ncalls = 0;
  static const std::vector<std::string> names = {"a", "b", "add", "Add", "echo", "x.y", "a b", "\xff\x01", "averyveryverylongfunctionnamethatexceedsthesmallbuffer"};
  auto packet = [&](const std::string &name, const std::vector<uint8_t> &args) {
    auto p = std::make_shared<packet::Basic>(); p->set_id(1); p->set_writeable(true); if (!name.empty()) *p << name;
    if (!args.empty()) p->write(reinterpret_cast<const std::byte *>(args.data()), args.size());
    p->set_readable(true); return p; };
  for (Src::Loop l(src, 60); l.more();) {
    std::string name = src.of(names); g_log.clear(); g_calls = 0;
    switch (src.pick({3, 1, 6, 1, 2})) {
      case 0: {
        int kind = src.below(6), t = ++tag; bool threw = false;
        try {
          switch (kind) {
            case 0: d.bind(name, [t]() { ++g_calls; g_log = key(0, t, ""); }); break;
            case 1: d.bind(name, [t](int32_t a, std::string b) { ++g_calls; g_log = key(1, t, std::to_string(a) + "," + b); }); break;
            case 2: d.bind(name, [t]() -> int64_t { ++g_calls; g_log = key(2, t, ""); return t * 1000003ll; }); break;
            case 3: d.bind(name, [t](int32_t a, int64_t b) -> int64_t { ++g_calls; g_log = key(3, t, std::to_string(a) + "," + std::to_string(b)); return int64_t(a) ^ b ^ t; }); break;
            case 4: d.bind(name, [t](const std::vector<std::string> &v) -> std::string { ++g_calls; std::string s; for (auto &x : v) s += x + ";"; g_log = key(4, t, s); return s + std::to_string(t); }); break;
            default: d.bind(name, [t](uint32_t a) -> bool { ++g_calls; g_log = key(5, t, std::to_string(a)); return (a ^ t) & 1; }); break;
          }
        } catch (const std::logic_error &) { threw = true; }
        src.note("bind %s kind %d tag %d%s", pbt::hex(name).c_str(), kind, t, threw ? " (refused)" : "");
        CHECK_MSG(threw == (bound.count(name) > 0), "binding a name that is %s bound %s", bound.count(name) ? "already" : "not", threw ? "was refused" : "was accepted");
        if (!threw) bound[name] = {kind, t};
        break; }
      case 1: d.unbind(name); bound.erase(name); src.note("unbind %s", pbt::hex(name).c_str()); break;
      case 2: {
        int32_t a = int32_t(src.bits(32)); int64_t b = int64_t(src.bits(64)); std::string s = src.ascii(src.size(0, 50)); std::vector<std::string> vs; for (size_t k = src.draw(4); k; --k) vs.push_back(src.bytes(src.size(0, 20)));
        auto it = bound.find(name); int kind = it == bound.end() ? int(src.below(6)) : it->second.kind; int t = it == bound.end() ? 0 : it->second.tag;
        rpc::Packer pk; std::string want; switch (kind) { case 1: pk.process(a, s); want = key(1, t, std::to_string(a) + "," + s); break; case 3: pk.process(a, b); want = key(3, t, std::to_string(a) + "," + std::to_string(b)); break;
          case 4: { pk.process(vs); std::string j; for (auto &x : vs) j += x + ";"; want = key(4, t, j); break; } case 5: pk.process(uint32_t(a)); want = key(5, t, std::to_string(uint32_t(a))); break; default: want = key(kind, t, ""); }
        std::vector<uint8_t> args = pk.vector(); bool cut = !args.empty() && src.chance(1, 3); if (cut) args.resize(src.draw(args.size() - 1));
        auto r = d.dispatch(packet(name, args)); auto *e = plain::get_error(r);
        src.note("call %s kind %d args %zu bytes%s", pbt::hex(name).c_str(), kind, args.size(), cut ? " (truncated)" : "");
        ++ncalls;
        if (it == bound.end()) { CHECK_MSG(e && *e == ErrorCode::NetRpcFunctionNotFound, "call of an unbound name was not refused as unknown"); CHECK_MSG(g_calls == 0, "an unbound call reached a function"); src.label("unknown"); break; }
        if (cut) { CHECK_MSG(g_calls == 0, "a function was called with truncated arguments"); CHECK_MSG(e != nullptr, "truncated arguments were not reported"); src.label("truncated"); break; }
        CHECK_MSG(e == nullptr, "call refused with error %d", e ? e->code() : 0);
        CHECK_MSG(g_calls == 1, "%d functions ran for one call", g_calls);
        CHECK_MSG(g_log == want, "function %s ran, want %s", g_log.c_str(), want.c_str());
        auto pr = std::get<0>(r);
        if (kind <= 1) break;
        CHECK_MSG(pr != nullptr, "no result for a function with a result");
        std::vector<uint8_t> out(pr->vector()); rpc::Unpacker u(out.data(), out.size());
        if (kind == 2) { int64_t v = 0; u.process(v); CHECK_MSG(v == t * 1000003ll, "wrong result"); }
        else if (kind == 3) { int64_t v = 0; u.process(v); CHECK_MSG(v == (int64_t(a) ^ b ^ t), "wrong result"); }
        else if (kind == 4) { std::string v, j; for (auto &x : vs) j += x + ";"; u.process(v); CHECK_MSG(v == j + std::to_string(t), "wrong result"); }
        else { bool v = false; u.process(v); CHECK_MSG(v == bool((uint32_t(a) ^ t) & 1), "wrong result"); }
        CHECK(!u.error_);
        break; }
      case 3: { auto r = d.dispatch(packet("", {})); auto *e = plain::get_error(r); CHECK_MSG(e && *e == ErrorCode::NetPacketInvalid, "a call without a name was not refused"); CHECK(g_calls == 0); break; }
      default: {  // arbitrary packet content
        auto junk = src.bytes(src.size(0, 40)); auto p = std::make_shared<packet::Basic>(); p->set_id(1); p->set_writeable(true); p->write(reinterpret_cast<const std::byte *>(junk.data()), junk.size()); p->set_readable(true);
        auto r = d.dispatch(p); (void)r; CHECK(g_calls <= 1); src.note("junk %s", pbt::hex(junk).c_str()); }
    }
    std::set<std::string> ns, ws; for (auto &n : d.names()) CHECK_MSG(ns.insert(n).second, "a name is listed twice"); for (auto &x : bound) ws.insert(x.first);
    CHECK_MSG(ns == ws, "the listed names (%zu) are not the bound ones (%zu)", ns.size(), ws.size());
    src.steps(1);
  }
  if (ncalls) src.nontrivial();
}
