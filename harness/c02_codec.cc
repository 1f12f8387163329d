// C02/C03: packet framing over a byte stream. The stream is fed in arbitrary
// fragments; whatever comes out must be exactly the packets that went in.
#include "pbt.h"
#include <deque>
#include <memory>
#include "plain/net/packet/basic.h"
#include "plain/net/stream/basic.h"
#include "plain/net/stream/codec.h"

using pbt::Src;
namespace net = plain::net;
using Packet = net::packet::Basic;
using plain::ErrorCode;

struct P { uint16_t id = 0; std::string data; int rpc = 0; };  // rpc: 0 none 1 request 2 response 3 notify

static std::shared_ptr<Packet> make(const P &p, Src &src) {
  auto r = std::make_shared<Packet>();
  r->set_id(p.id); r->set_writeable(true);
  if (!p.data.empty() || src.flip()) r->write(reinterpret_cast<const std::byte *>(p.data.data()), p.data.size());
  if (p.rpc == 1) r->set_call_request(true);
  if (p.rpc == 2) r->set_call_response(true);
  if (p.rpc == 3) r->set_call_notify(true);
  return r;
}
static std::string str(const plain::bytes_t &b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
static std::string content(Packet &p) { auto d = p.data(); return std::string(reinterpret_cast<const char *>(d.data()), d.size()); }
static int code_of(const plain::Error &e) { return e.code(); }

static uint16_t gen_id(Src &src, uint32_t max_id) {
  uint32_t v;
  switch (src.pick({3, 2, 1, 2})) { case 0: v = src.range(1, 300); break; case 1: v = max_id - src.draw(6); break; case 2: v = 65535 - src.draw(4); break; default: v = src.draw(65535); }
  if (v == 0) v = 1; if (v > max_id) v = max_id; return uint16_t(v ? v : 1);
}
// Feeds `wire` in random fragments, decoding after random fragments.
template <typename Decode, typename OnPacket, typename OnError>
static void feed(Src &src, net::stream::Basic &in, const std::string &wire, Decode dec, OnPacket on_packet, OnError on_error) {
  size_t off = 0; int frag = src.below(4);
  bool stop = false;
  while (off < wire.size() && !stop) {
    size_t n = frag == 0 ? 1 : frag == 1 ? src.range(1, 9) : frag == 2 ? src.size(1, 4096) : wire.size();
    n = std::min(n, wire.size() - off);
    CHECK(in.write(std::string_view(wire.data() + off, n)) == n); off += n;
    if (off < wire.size() && frag != 0 && src.chance(1, 3)) continue;  // decode later
    for (;;) {
      size_t before = in.size();
      auto r = dec(&in);
      if (auto *e = plain::get_error(r)) { stop = on_error(*e, before, off); break; }
      on_packet(*std::get<0>(r), before, off);
    }
    src.steps(1);
  }
}

#ifdef CHECK_DEFAULT
PROPERTY(default_codec_roundtrip, pbt::Options{.weight = 4}) {
  net::packet::limit_t lim; if (src.flip()) { lim.max_id = src.range(1, 65535); lim.max_length = src.size(0, 5000); }
  std::deque<P> want; std::string wire; std::vector<size_t> ends;
  for (Src::Loop l(src, 40); l.more();) {
    P p; p.id = gen_id(src, lim.max_id); p.data = src.bytes(src.size(0, std::min<uint32_t>(lim.max_length, src.chance(1, 40) ? lim.max_length : 3000)));
    if (src.chance(1, 6)) p.data = std::string(p.data.size(), char(src.draw(1) * 255));
    std::string e = str(net::stream::encode(make(p, src)));
    src.note("packet id=%u len=%zu data=%s", p.id, p.data.size(), pbt::hex(p.data, 16).c_str());
    // The wire format is part of the contract: id (2 bytes) and length (4 bytes), most significant byte first.
    std::string w; w += char(p.id >> 8); w += char(p.id); for (int i = 3; i >= 0; --i) w += char(p.data.size() >> (8 * i)); w += p.data;
    CHECK_MSG(e == w, "encoding of id=%u len=%zu is %s", p.id, p.data.size(), pbt::hex(e, 40).c_str());
    wire += e; want.push_back(p); ends.push_back(wire.size());
  }
  net::stream::Basic in(nullptr); size_t got = 0, total = want.size();
  // Move the buffer's origin first so that packets straddle its internal wrap.
  size_t pre = src.size(0, 300); if (pre) { std::string z(pre + 1, 'z'); in.write(std::string_view(z)); in.remove(pre); in.remove(1); }
  auto dec = [&](net::stream::Basic *s) { return net::stream::decode(s, lim); };
  size_t consumed = 0;
  feed(src, in, wire, dec,
    [&](Packet &p, size_t before, size_t off) {
      CHECK_MSG(got < total, "decoded more packets than were sent (%zu)", total);
      const P &w = want[got];
      CHECK_MSG(off >= ends[got], "packet %zu decoded before all of it arrived", got);
      CHECK_MSG(p.id() == w.id, "packet %zu: id %u want %u", got, p.id(), w.id);
      CHECK_MSG(content(p) == w.data, "packet %zu: content differs (%zu bytes, want %zu)", got, content(p).size(), w.data.size());
      CHECK(p.is_call_request() == (w.id == 65534)); CHECK(p.is_call_response() == (w.id == 65533)); CHECK(p.is_call_notify() == (w.id == 65532));
      CHECK(before - in.size() == w.data.size() + 6);
      std::vector<std::byte> all(w.data.size() + 1);
      CHECK_MSG(p.read(all.data(), w.data.size()) == w.data.size(), "a decoded packet must be readable");
      CHECK(!memcmp(all.data(), w.data.data(), w.data.size()));
      ++got; consumed = ends[got - 1];
    },
    [&](plain::Error &e, size_t before, size_t off) {
      CHECK_MSG(e == ErrorCode::NetPacketCantFill || e == ErrorCode::NetPacketNeedRecv, "valid stream rejected with error %d", code_of(e));
      CHECK_MSG(in.size() == before && in.size() == off - consumed, "an incomplete packet was consumed");
      CHECK_MSG(got == total || off < ends[got], "complete packet %zu not decoded (error %d)", got, code_of(e));
      return false;
    });
  if (!wire.empty()) CHECK_MSG(got == total, "%zu of %zu packets decoded", got, total);
  CHECK(in.size() == 0);
  if (total >= 2) src.nontrivial();
}
PROPERTY(default_codec_hostile, pbt::Options{.weight = 2}) {
  net::packet::limit_t lim; lim.max_id = src.range(1, 65535); lim.max_length = src.size(0, 3000);
  // Valid packets, then a header that breaks a limit (or an arbitrary one), then garbage.
  std::string wire; size_t nvalid = src.range(0, 3); std::vector<P> want;
  for (size_t i = 0; i < nvalid; ++i) { P p; p.id = gen_id(src, lim.max_id); p.data = src.bytes(src.size(0, std::min<uint32_t>(200, lim.max_length))); want.push_back(p); wire += str(net::stream::encode(make(p, src))); }
  size_t head = wire.size();
  uint32_t id = src.chance(1, 3) ? 0 : src.chance(1, 2) ? lim.max_id + src.draw(4) : src.draw(65535);
  uint32_t len = src.chance(1, 2) ? uint32_t(lim.max_length + src.draw(3)) : uint32_t(src.bits(32)); if (id > 65535) id = 65535;
  wire += char(id >> 8); wire += char(id); for (int i = 3; i >= 0; --i) wire += char(len >> (8 * i));
  wire += src.bytes(src.size(0, 200));
  bool invalid = id == 0 || id > lim.max_id || len > lim.max_length;
  src.note("limits id<=%u len<=%u; %zu valid packets; header id=%u len=%u (%s)", lim.max_id, lim.max_length, nvalid, id, len, invalid ? "invalid" : "valid");
  net::stream::Basic in(nullptr); size_t got = 0; bool rejected = false;
  auto dec = [&](net::stream::Basic *s) { return net::stream::decode(s, lim); };
  feed(src, in, wire, dec,
    [&](Packet &p, size_t, size_t off) {
      CHECK_MSG(p.id() != 0 && p.id() <= lim.max_id, "decoded id %u beyond the limit %u", p.id(), lim.max_id);
      CHECK_MSG(content(p).size() <= lim.max_length, "decoded length beyond the limit");
      if (got < nvalid) { CHECK(p.id() == want[got].id); CHECK(content(p) == want[got].data); }
      else if (got == nvalid) { CHECK_MSG(!invalid, "a header beyond the limits was accepted: id=%u len=%u", id, len); CHECK(p.id() == id); CHECK(content(p) == wire.substr(head + 6, len)); }
      ++got;
    },
    [&](plain::Error &e, size_t, size_t off) {
      if (e == ErrorCode::NetPacketInvalid) { rejected = true; CHECK_MSG(got > nvalid || invalid, "valid header rejected"); CHECK(got >= nvalid); return true; }
      CHECK(e == ErrorCode::NetPacketCantFill || e == ErrorCode::NetPacketNeedRecv);
      if (got == nvalid && invalid) CHECK_MSG(off < head + 6, "an invalid header (id=%u len=%u) was not rejected", id, len);
      return false;
    });
  CHECK(got >= nvalid);
  if (invalid) { CHECK_MSG(rejected, "an invalid header was never rejected: id=%u len=%u", id, len); src.nontrivial(); src.label("over_limit_header"); }
}
#endif

#ifdef CHECK_LINE
static std::string line_payload(Src &src, size_t n) {
  std::string s = src.flip() ? src.ascii(n) : src.bytes(n);
  for (auto &c : s) if (c == '\n') c = 'N';
  return s;
}
static const char *kBegin[] = {"", "cr", "co", "cn"}, *kEnd[] = {"", "rc", "oc", "nc"};
static const size_t kMin[] = {0, 9, 13, 5};
static int classify(const std::string &l) { for (int k = 1; k <= 3; ++k) if (l.size() >= kMin[k] && l.compare(0, 2, kBegin[k]) == 0 && l.compare(l.size() - 2, 2, kEnd[k]) == 0) return k; return 0; }

PROPERTY(line_codec_roundtrip, pbt::Options{.weight = 4}) {
  net::packet::limit_t lim; if (!src.chance(1, 16)) lim.max_length = src.range(40, src.flip() ? 200 : 4000);
  const bool dflt = lim.max_length > 10000;
  std::deque<P> want; std::string wire; std::vector<size_t> ends;
  for (Src::Loop l(src, 30); l.more();) {
    P p; size_t max = dflt ? 60 : std::min<uint32_t>(lim.max_length - 8, src.chance(1, 4) ? 3000 : 120);
    p.data = line_payload(src, src.size(0, max)); p.rpc = src.chance(1, 3) ? src.range(1, 3) : 0; p.id = 0;
    if (p.rpc) { size_t need = kMin[p.rpc] - 4; if (p.data.size() < need) p.data += std::string(need - p.data.size(), 'q'); }
    else { if (src.chance(1, 6)) p.data = std::string(kBegin[1 + src.below(3)]) + p.data; if (src.chance(1, 6)) p.data += "x"; }
    bool crlf = p.rpc == 0 && src.chance(1, 4);
    if (p.rpc == 0 && !p.data.empty() && p.data.back() == '\r') p.data.back() = 'R';
    if (p.rpc == 0 && classify(p.data)) p.data += '.';   // a plain line that looks like a marked one is a marked one
    auto pk = make(p, src);
    std::string e = str(net::stream::line_encode(pk));
    CHECK_MSG(e == kBegin[p.rpc] + p.data + kEnd[p.rpc] + "\n", "line encoding differs: %s", pbt::hex(e, 40).c_str());
    if (crlf) e.insert(e.size() - 1, "\r");
    src.note("line rpc=%d crlf=%d len=%zu %s", p.rpc, crlf, p.data.size(), pbt::hex(p.data, 24).c_str());
    wire += e; want.push_back(p); ends.push_back(wire.size());
  }
  net::stream::Basic in(nullptr); size_t got = 0, total = want.size(), consumed = 0;
  auto dec = [&](net::stream::Basic *s) { return net::stream::line_decode(s, lim); };
  feed(src, in, wire, dec,
    [&](Packet &p, size_t, size_t off) {
      CHECK_MSG(got < total, "decoded more lines than were sent (%zu)", total);
      const P &w = want[got];
      CHECK_MSG(off >= ends[got], "line decoded before all of it arrived");
      CHECK_MSG(content(p) == w.data, "line %zu (rpc=%d): content is %s, want %s", got, w.rpc, pbt::hex(content(p), 40).c_str(), pbt::hex(w.data, 40).c_str());
      CHECK(p.is_call_request() == (w.rpc == 1)); CHECK(p.is_call_response() == (w.rpc == 2)); CHECK(p.is_call_notify() == (w.rpc == 3));
      std::vector<std::byte> all(w.data.size() + 1);
      CHECK_MSG(p.read(all.data(), w.data.size()) == w.data.size(), "a decoded line must be readable");
      ++got; consumed = ends[got - 1];
    },
    [&](plain::Error &e, size_t before, size_t off) {
      CHECK_MSG(e == ErrorCode::NetPacketNeedRecv, "valid stream rejected with error %d", code_of(e));
      CHECK_MSG(in.size() == before && in.size() == off - consumed, "an incomplete line was consumed");
      CHECK_MSG(got == total || off < ends[got], "complete line %zu not decoded", got);
      return false;
    });
  CHECK_MSG(got == total, "%zu of %zu lines decoded", got, total);
  CHECK(in.size() == 0);
  if (total >= 2) src.nontrivial();
}
PROPERTY(line_codec_arbitrary, pbt::Options{.weight = 2}) {
  // Arbitrary bytes: lines come out as split by '\n'; nothing is invented or lost.
  net::packet::limit_t lim; if (!src.chance(1, 16)) lim.max_length = src.range(16, 600);
  std::string wire; size_t longest = 0, cur = 0;
  for (Src::Loop l(src, 60); l.more();) switch (src.pick({4, 3, 2, 2, 1})) {
    case 0: wire += "\n"; break; case 1: wire += src.bytes(src.size(0, 30)); break;
    case 2: wire += "\r"; break; case 3: { int k = 1 + src.below(3); if (src.flip()) wire += src.flip() ? kBegin[k] : kEnd[k]; else wire += std::string("\n") + kBegin[k] + src.ascii(src.range(0, 12)) + kEnd[src.chance(1, 5) ? 1 + src.below(3) : k] + (src.chance(1, 4) ? "\r\n" : "\n"); break; }
    default: wire += src.ascii(src.size(0, 700)); }
  std::vector<std::string> lines; std::string acc; for (char c : wire) { if (c == '\n') { lines.push_back(acc); acc.clear(); } else acc += c; }
  for (auto &l : lines) longest = std::max(longest, l.size()); longest = std::max(longest, acc.size()); (void)cur;
  src.note("max_length=%u wire=%s", lim.max_length, pbt::hex(wire, 300).c_str());
  net::stream::Basic in(nullptr); size_t got = 0;
  auto dec = [&](net::stream::Basic *s) { return net::stream::line_decode(s, lim); };
  bool rejected = false;
  feed(src, in, wire, dec,
    [&](Packet &p, size_t, size_t) {
      CHECK_MSG(got < lines.size(), "more lines than the input has");
      std::string w = lines[got]; if (!w.empty() && w.back() == '\r') w.pop_back();
      int k = classify(w); if (k) w = w.substr(2, w.size() - 4);
      CHECK_MSG(content(p) == w, "line %zu: got %s want %s", got, pbt::hex(content(p), 60).c_str(), pbt::hex(w, 60).c_str());
      CHECK(p.is_call_request() == (k == 1)); CHECK(p.is_call_response() == (k == 2)); CHECK(p.is_call_notify() == (k == 3));
      if (k) src.label("marked_line");
      ++got;
    },
    [&](plain::Error &e, size_t, size_t) {
      if (e == ErrorCode::NetPacketNeedRecv) return false;
      // Only a line that does not fit the limit may be refused.
      CHECK_MSG(longest >= lim.max_length, "input refused with error %d although no line reaches the limit", code_of(e));
      rejected = true; return true;
    });
  if (!rejected && longest < lim.max_length) CHECK_MSG(got == lines.size(), "%zu of %zu lines decoded", got, lines.size());
  if (lines.size() >= 2) src.nontrivial();
}
PROPERTY(line_codec_limit, pbt::Options{.weight = 1}) {
  // A line that never ends cannot make the receiver buffer without bound: once
  // more than the limit is buffered without a line end, the stream is refused.
  net::packet::limit_t lim; lim.max_length = src.range(16, src.flip() ? 100 : 5000);
  size_t n = lim.max_length + src.range(0, 300); std::string wire(n, 'w');
  net::stream::Basic in(nullptr); bool refused = false; size_t at = 0;
  auto dec = [&](net::stream::Basic *s) { return net::stream::line_decode(s, lim); };
  feed(src, in, wire, dec, [&](Packet &, size_t, size_t) { pbt::fail("a line was made up"); },
    [&](plain::Error &e, size_t, size_t off) { if (e == ErrorCode::NetPacketNeedRecv) { CHECK_MSG(off < lim.max_length, "asks for more data with %zu buffered, limit %u", off, lim.max_length); return false; } refused = true; at = off; return true; });
  src.note("limit %u, %zu bytes without line end", lim.max_length, n);
  CHECK(refused); CHECK_MSG(at >= lim.max_length, "refused at %zu below the limit %u", at, lim.max_length);
  src.nontrivial();
}
#endif
