// Address text, fields and socket address bytes agree, for every address.
#include "pbt.h"
#include <arpa/inet.h>
#include <memory>
#include <netinet/in.h>
#include <stdexcept>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>
#include "plain/net/address.h"
#include "plain/net/detail/socket.h"

using namespace plain;
using net::Address;
using pbt::Src;
namespace {
// A view of exactly these bytes: whatever reads past them is seen.
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } std::string_view v() const { return {p.get(), n}; } };
// ... or followed by more text (digits, dots and colons), as in a slice.
struct Slice { std::string buf; size_t n; Slice(const std::string &s, const std::string &tail) : buf(s + tail), n(s.size()) {} std::string_view v() const { return {buf.data(), n}; } };

struct In4 { uint32_t a; };
std::string v4(uint32_t a) { char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); return b; }
uint32_t gen4(Src &s) { switch (s.below(6)) { case 0: return 0x7f000001; case 1: return 0; case 2: return 0x7f000000 | uint32_t(s.draw(0xffff)); case 3: return 0xc0a80000 | uint32_t(s.draw(0xffff)); case 4: return 0xffffff00 | uint32_t(s.draw(254)); default: return uint32_t(s.draw(0xfffffffe)); } }
uint16_t gen_port(Src &s) { switch (s.below(4)) { case 0: return uint16_t(s.draw(10)); case 1: return uint16_t(65535 - s.draw(5)); default: return uint16_t(s.draw(65535)); } }
in6_addr gen6(Src &s) {
  in6_addr r{};
  switch (s.below(6)) {
    case 0: break;                                   // ::
    case 1: r.s6_addr[15] = 1; break;                // ::1
    case 2: r.s6_addr[10] = r.s6_addr[11] = 0xff; for (int i = 12; i < 16; ++i) r.s6_addr[i] = uint8_t(s.draw(255)); break;  // v4 mapped
    case 3: r.s6_addr[0] = 0xfe; r.s6_addr[1] = 0x80; for (int i = 8; i < 16; ++i) r.s6_addr[i] = uint8_t(s.draw(255)); break;
    case 4: for (int i = 0; i < 16; ++i) r.s6_addr[i] = s.chance(1, 3) ? uint8_t(s.draw(255)) : 0; break;
    default: for (int i = 0; i < 16; ++i) r.s6_addr[i] = uint8_t(s.draw(255));
  }
  return r;
}
// One of the spellings of a v6 address.
std::string text6(Src &s, const in6_addr &a) {
  char b[64];
  switch (s.below(3)) {
    case 0: inet_ntop(AF_INET6, &a, b, sizeof b); return b;
    case 1: { std::string r; for (int i = 0; i < 8; ++i) { snprintf(b, sizeof b, "%s%x", i ? ":" : "", a.s6_addr[2 * i] << 8 | a.s6_addr[2 * i + 1]); r += b; } return r; }
    default: { std::string r; for (int i = 0; i < 8; ++i) { snprintf(b, sizeof b, "%s%04X", i ? ":" : "", a.s6_addr[2 * i] << 8 | a.s6_addr[2 * i + 1]); r += b; } return r; }
  }
}
bool is_any_or_loop6(const std::string &t) { return t == "::" || t == "0:0:0:0:0:0:0:0" || t == "::1"; }
std::string host6(const in6_addr &a) { char b[64]; inet_ntop(AF_INET6, &a, b, sizeof b); return b; }

// The whole observable content of an address.
void expect4(const Address &a, uint32_t ip, uint16_t port, const char *how) {
  CHECK_MSG(a.family() == AF_INET, "%s: family %d", how, a.family());
  CHECK_MSG(a.port() == port, "%s: port %u, not %u", how, a.port(), port);
  CHECK_MSG(a.host() == v4(ip), "%s: host '%s', not '%s'", how, a.host().c_str(), v4(ip).c_str());
  CHECK_MSG(a.text() == v4(ip) + ":" + std::to_string(port), "%s: text '%s'", how, a.text().c_str());
  sockaddr_in sin{}; auto d = a.data(); CHECK_MSG(d.size() == sizeof sin && a.size() == sizeof sin, "%s: %zu bytes", how, d.size());
  memcpy(&sin, d.data(), sizeof sin);
  CHECK_MSG(sin.sin_family == AF_INET && ntohs(sin.sin_port) == port && ntohl(sin.sin_addr.s_addr) == ip, "%s: the socket address differs", how);
}
void expect6(const Address &a, const in6_addr &ip, uint16_t port, const char *how) {
  CHECK_MSG(a.family() == AF_INET6, "%s: family %d", how, a.family());
  CHECK_MSG(a.port() == port, "%s: port %u, not %u", how, a.port(), port);
  CHECK_MSG(a.host() == host6(ip), "%s: host '%s', not '%s'", how, a.host().c_str(), host6(ip).c_str());
  CHECK_MSG(a.text() == host6(ip) + ":" + std::to_string(port), "%s: text '%s'", how, a.text().c_str());
  sockaddr_in6 sin{}; auto d = a.data(); CHECK_MSG(d.size() == sizeof sin && a.size() == sizeof sin, "%s: %zu bytes", how, d.size());
  memcpy(&sin, d.data(), sizeof sin);
  CHECK_MSG(sin.sin6_family == AF_INET6 && ntohs(sin.sin6_port) == port && !memcmp(&sin.sin6_addr, &ip, 16) && sin.sin6_flowinfo == 0 && sin.sin6_scope_id == 0, "%s: the socket address differs", how);
}
template <typename F> bool throws_invalid(F f) { try { f(); } catch (const std::invalid_argument &) { return true; } return false; }
std::string tail(Src &s) { static const std::vector<std::string> t = {"", "0", "99", ".7", ":80", "]:9", "abc", "\n"}; return s.of(t); }
}  // namespace

// Text of a v4 or v6 address, with or without port, read as the address it spells.
PROPERTY(parse) {
  bool listen = src.flip(), six = src.flip(), sliced = src.flip();
  uint16_t port = gen_port(src);
  int form = int(src.below(3));  // 0: "ip:port", 1: ip only, 2: ip and port apart
  std::string txt, ip; uint32_t a4 = 0; in6_addr a6{};
  if (six) {
    a6 = gen6(src); ip = text6(src, a6);
    txt = form == 0 ? "[" + ip + "]:" + std::to_string(port) : ip;
    if (is_any_or_loop6(ip)) { a6 = listen ? in6addr_any : in6addr_loopback; }
  } else {
    a4 = gen4(src); ip = src.chance(1, 8) ? "" : v4(a4);
    txt = form == 0 ? ip + ":" + std::to_string(port) : ip;
    if (ip.empty() || ip == "127.0.0.1" || ip == "0.0.0.0") a4 = listen ? 0 : 0x7f000001;
  }
  if (form == 1) port = 0;
  std::string t = sliced ? tail(src) : "";
  src.note("\"%s\"%s%s%s", txt.c_str(), t.empty() ? "" : " before ", t.c_str(), listen ? ", to listen" : "");
  src.nontrivial();
  Exact e(txt); Slice sl(txt, t); std::string_view v = sliced ? sl.v() : e.v();
  std::string how = "\"" + txt + "\"";
  try {
    Address a = form == 2 ? Address(v, port, listen) : Address(v, listen);
    if (six) expect6(a, a6, port, how.c_str()); else expect4(a, a4, port, how.c_str());
    CHECK_MSG(static_cast<bool>(a), "%s: an address that says it is none", how.c_str());
    // Copies, bytes and host text lead back to the same address.
    Address b(a.data()), c(a), d; d = a.data(); Address m(std::move(b)); Address w(a.host(), a.port(), listen);
    CHECK_MSG(m.data() == a.data() && c.data() == a.data() && d.data() == a.data(), "%s: a copy differs", how.c_str());
    if (six) { expect6(m, a6, port, "bytes"); if (!is_any_or_loop6(a.host())) expect6(w, a6, port, "host and port"); }
    else { expect4(m, a4, port, "bytes"); if (a4 != 0 && a4 != 0x7f000001) expect4(w, a4, port, "host and port"); }
    Address z = form == 2 ? Address(v, port, listen) : Address(v, listen);
    CHECK_MSG(z.data() == a.data(), "%s: two readings of the same text give different bytes", how.c_str());
  } catch (const std::invalid_argument &) { pbt::fail("%s was refused", how.c_str()); }
}

// What is no address is refused, never misread.
PROPERTY(refuse) {
  std::string txt;
  bool listen = src.flip();
  switch (src.below(7)) {
    case 0: { txt = src.ascii(1 + src.size(0, 12)); if (txt.find_first_of("0123456789:.[") != std::string::npos) { for (char &c : txt) if (strchr("0123456789:.[]", c)) c = 'q'; } break; }
    case 1: { uint32_t a = gen4(src); txt = v4(a); txt += "." + std::to_string(src.below(300)); if (src.flip()) txt += ":80"; break; }  // five parts
    case 2: { uint32_t a = gen4(src); char b[64]; snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, 256 + unsigned(src.below(9000)), a >> 8 & 255, a & 255); txt = b; if (src.flip()) txt += ":" + std::to_string(gen_port(src)); break; }
    case 3: { in6_addr a; for (int i = 0; i < 16; ++i) a.s6_addr[i] = uint8_t(1 + src.draw(254)); txt = host6(a) + ":1"; if (src.flip()) txt = "[" + txt + "]:80"; break; }  // nine groups
    case 4: { in6_addr a = gen6(src); txt = text6(src, a); size_t at = src.below(txt.size()); if (txt[at] == ':') txt.insert(at, "x"); else txt[at] = 'x'; if (src.flip()) txt = "[" + txt + "]:80"; break; }
    case 5: { txt = v4(gen4(src)) + ":" + std::to_string(65536 + src.bits(40)); break; }  // no such port
    default: { in6_addr a; for (int i = 0; i < 16; ++i) a.s6_addr[i] = uint8_t(1 + src.draw(254)); txt = "[" + host6(a) + "]:" + std::to_string(65536 + src.bits(40)); break; }
  }
  src.note("\"%s\"", txt.c_str()); src.nontrivial();
  Exact e(txt);
  bool t = throws_invalid([&] { Address a(e.v(), listen); src.note("read as %s", a.text().c_str()); });
  CHECK_MSG(t, "\"%s\" is no address and was accepted", txt.c_str());
}

// Bytes are an address exactly when their size fits their family.
PROPERTY(bytes) {
  static const std::vector<int> fams = {AF_INET, AF_INET6, AF_UNIX, AF_UNSPEC, 3, 16, 255, 4242};
  int fam = src.of(fams); size_t n = 0;
  switch (src.below(4)) { case 0: n = fam == AF_INET ? sizeof(sockaddr_in) : fam == AF_INET6 ? sizeof(sockaddr_in6) : fam == AF_UNIX ? sizeof(sockaddr_un) : sizeof(sockaddr_storage); break; case 1: n = src.size(0, 140); break; default: n = src.below(140); }
  std::string raw = src.bytes(n); uint16_t f = uint16_t(fam);
  if (n >= 2) memcpy(&raw[0], &f, 2);
  bytes_t b(reinterpret_cast<const bytes_t::value_type *>(raw.data()), raw.size());
  bool ok = false;
  if (n >= 2) switch (fam) { case AF_INET: ok = n == sizeof(sockaddr_in); break; case AF_INET6: ok = n == sizeof(sockaddr_in6); break; case AF_UNIX: ok = n >= offsetof(sockaddr_un, sun_path) && n <= sizeof(sockaddr_un); break; case AF_UNSPEC: ok = n == sizeof(sockaddr_storage); break; }
  src.note("family %d, %zu bytes", fam, n); src.nontrivial();
  bool t = throws_invalid([&] {
    Address a(b); CHECK_MSG(a.data() == b && a.size() == n, "the bytes changed"); CHECK_MSG(a.family() == fam, "family %d, not %d", a.family(), fam);
    a.text();
    if (fam == AF_INET) { sockaddr_in s; memcpy(&s, raw.data(), n); CHECK_MSG(a.port() == ntohs(s.sin_port) && a.host() == v4(ntohl(s.sin_addr.s_addr)), "read as %s", a.text().c_str()); }
    if (fam == AF_INET6) { sockaddr_in6 s; memcpy(&s, raw.data(), n); CHECK_MSG(a.port() == ntohs(s.sin6_port) && a.host() == host6(s.sin6_addr), "read as %s", a.text().c_str()); }
    if (fam == AF_UNIX) { std::string p = raw.substr(2); p = p.c_str(); if (n == 2) p = "<NULL>"; CHECK_MSG(a.host() == p && a.port() == 0, "path %s", pbt::hex(a.host()).c_str()); }
    if (fam == AF_UNSPEC) CHECK_MSG(a.host().empty() && a.port() == 0, "an unspecified address reads %s", a.text().c_str());
  });
  CHECK_MSG(t == !ok, "%zu bytes of family %d %s", n, fam, t ? "were refused" : "were accepted");
  Address e; bool t2 = throws_invalid([&] { e = b; });
  CHECK_MSG(t2 == !ok, "assigning %zu bytes of family %d %s", n, fam, t2 ? "was refused" : "was accepted");
  if (t2) CHECK_MSG(e.size() == 0 && !static_cast<bool>(e), "a refused assignment left something behind");
}
