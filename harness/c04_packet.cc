// C04: packets are faithful field containers.
#include "pbt.h"
#include <deque>
#include <memory>
#include "plain/net/packet/basic.h"
using pbt::Src;
using Packet = plain::net::packet::Basic;

struct Field { int kind; uint64_t v = 0; std::string s; double d = 0; };
enum { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, STR, BYTES, RAW, KINDS };

PROPERTY(fields_roundtrip, pbt::Options{.weight = 3}) {
  Packet p; p.set_writeable(true);
  uint16_t id = uint16_t(src.bits(16)); p.set_id(id);
  std::vector<Field> fs; std::string wire;
  auto be = [&](uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) wire += char(v >> (8 * i)); };
  for (Src::Loop l(src, 40); l.more();) {
    Field f; f.kind = src.below(KINDS);
    f.v = src.bits(64);
    switch (f.kind) {
      case U8: p << uint8_t(f.v); be(uint8_t(f.v), 1); break;
      case I8: p << int8_t(f.v); be(uint8_t(f.v), 1); break;
      case U16: p << uint16_t(f.v); be(f.v, 2); break;
      case I16: p << int16_t(f.v); be(f.v, 2); break;
      case U32: p << uint32_t(f.v); be(f.v, 4); break;
      case I32: p << int32_t(f.v); be(f.v, 4); break;
      case U64: p << uint64_t(f.v); be(f.v, 8); break;
      case I64: p << int64_t(f.v); be(f.v, 8); break;
      case F32: { float x = float(int64_t(f.v)) / 7.0f; f.d = x; uint32_t b; memcpy(&b, &x, 4); p << x; be(b, 4); break; }
      case F64: { double x = double(int64_t(f.v)) / 7.0; f.d = x; uint64_t b; memcpy(&b, &x, 8); p << x; be(b, 8); break; }
      case STR: { f.s = src.bytes(src.size(1, 600)); size_t r;
        if (src.flip()) { r = p.write(std::string_view(f.s)); CHECK(r == f.s.size()); } else if (src.flip()) p << f.s; else p << std::string_view(f.s);
        be(f.s.size(), 4); wire += f.s; break; }
      case BYTES: { f.s = src.bytes(src.size(1, 600)); plain::bytes_t b(reinterpret_cast<const std::byte *>(f.s.data()), f.s.size());
        if (src.flip()) CHECK(p.write(b) == b.size()); else p << b; be(f.s.size(), 4); wire += f.s; break; }
      default: { f.s = src.bytes(src.size(1, 600)); auto q = reinterpret_cast<const std::byte *>(f.s.data());
        if (src.flip()) CHECK(p.write(q, f.s.size()) == f.s.size()); else CHECK(p.write(plain::const_byte_span_t(q, f.s.size())) == f.s.size()); wire += f.s; }
    }
    fs.push_back(f); src.note("field kind=%d v=%llx len=%zu", f.kind, (unsigned long long)f.v, f.s.size()); src.steps(1);
  }
  auto d = p.data();
  CHECK_MSG(std::string(reinterpret_cast<const char *>(d.data()), d.size()) == wire, "the serialised fields differ from network byte order: %s want %s", pbt::hex(d.data(), d.size()).c_str(), pbt::hex(wire).c_str());
  CHECK(p.id() == id);
  // Nothing is readable until reading is allowed, nothing can be written once writing is forbidden.
  { uint32_t x = 7; std::byte b[4]; CHECK(p.read(b, 4) == 0); std::string s; CHECK(p.read(s) == 0 && s.empty()); (void)x; CHECK(p.offset() == 0); }
  bool order = src.flip();
  if (order) { p.set_readable(true); p.set_writeable(false); } else { p.set_writeable(false); p.set_readable(true); }
  CHECK_MSG(p.write(std::string_view("zz")) == 0 && p.data().size() == wire.size(), "a read-only packet accepted a write");
  p << uint32_t(5); CHECK_MSG(p.data().size() == wire.size(), "a read-only packet accepted a write");
  size_t off = 0;
  for (auto &f : fs) {
    if (src.chance(1, 8)) {  // skip over the field with remove()
      size_t n = f.kind <= F64 ? (const size_t[]){1, 1, 2, 2, 4, 4, 8, 8, 4, 8}[f.kind] : f.s.size() + (f.kind == RAW ? 0 : 4);
      CHECK(p.remove(n) == n); off += n; CHECK(p.offset() == off); continue;
    }
    switch (f.kind) {
#define RD(K, T) case K: { T x{}; p >> x; CHECK_MSG(x == T(f.v), "field read as %llx want %llx", (unsigned long long)x, (unsigned long long)T(f.v)); off += sizeof(T); break; }
      RD(U8, uint8_t) RD(I8, int8_t) RD(U16, uint16_t) RD(I16, int16_t) RD(U32, uint32_t) RD(I32, int32_t) RD(U64, uint64_t) RD(I64, int64_t)
      case F32: { float x = 0; p >> x; CHECK(x == float(f.d)); off += 4; break; }
      case F64: { double x = 0; p >> x; CHECK(x == f.d); off += 8; break; }
      case STR: { std::string s; if (src.flip()) p >> s; else CHECK(p.read(s) == f.s.size()); CHECK_MSG(s == f.s, "string field differs"); off += 4 + s.size(); break; }
      case BYTES: { plain::bytes_t s; if (src.flip()) p >> s; else CHECK(p.read(s) == f.s.size()); CHECK(s.size() == f.s.size() && !memcmp(s.data(), f.s.data(), s.size())); off += 4 + s.size(); break; }
      default: { std::vector<std::byte> b(f.s.size() + 1); CHECK(p.read(b.data(), f.s.size()) == f.s.size()); CHECK(!memcmp(b.data(), f.s.data(), f.s.size())); off += f.s.size(); }
    }
    CHECK_MSG(p.offset() == off, "offset %zu want %zu", p.offset(), off);
  }
  std::byte b; CHECK(p.read(&b, 1) == 0); CHECK(p.offset() == off); CHECK(p.remove(3) == 0);
  if (fs.size() >= 3) src.nontrivial();
}
PROPERTY(flags, pbt::Options{.weight = 1}) {
  Packet p; bool r = false, w = false, q[3] = {false, false, false}; size_t len = 0, off = 0; size_t n = 0;
  for (Src::Loop l(src, 60); l.more(); ++n) {
    bool on = src.flip();
    switch (src.below(7)) {
      case 0: p.set_readable(on); r = on; src.note("readable=%d", on); break;
      case 1: p.set_writeable(on); w = on; src.note("writeable=%d", on); break;
      case 2: p.set_call_request(on); q[0] = on; src.note("request=%d", on); break;
      case 3: p.set_call_response(on); q[1] = on; src.note("response=%d", on); break;
      case 4: p.set_call_notify(on); q[2] = on; src.note("notify=%d", on); break;
      case 5: { std::byte b[3] = {}; size_t k = p.write(b, 3); CHECK_MSG(k == (w ? 3u : 0u), "write accepted %zu bytes with writeable=%d", k, w); len += k; break; }
      default: { std::byte b[2]; size_t want = r && len - off >= 2 ? 2 : 0; size_t k = p.read(b, 2); CHECK_MSG(k == want, "read returned %zu with readable=%d and %zu left", k, r, len - off); off += k; }
    }
    CHECK_MSG(p.is_call_request() == q[0] && p.is_call_response() == q[1] && p.is_call_notify() == q[2], "call flags are %d%d%d, want %d%d%d", p.is_call_request(), p.is_call_response(), p.is_call_notify(), q[0], q[1], q[2]);
    CHECK(p.data().size() == len); CHECK(p.offset() == off); src.steps(1);
  }
  if (n >= 3) src.nontrivial();
}
PROPERTY(hostile_fields, pbt::Options{.weight = 2}) {
  // Reading any content as any field never reads outside it and never invents bytes.
  Packet p; std::string wire;
  for (Src::Loop l(src, 12); l.more();) { if (src.flip()) { uint32_t n = src.chance(1, 2) ? src.draw(40) : uint32_t(src.bits(32)); for (int i = 3; i >= 0; --i) wire += char(n >> (8 * i)); } else wire += src.bytes(src.size(0, 40)); }
  p.set_writeable(true); p.write(reinterpret_cast<const std::byte *>(wire.data()), wire.size()); p.set_writeable(false); p.set_readable(true);
  src.note("content %s", pbt::hex(wire, 100).c_str()); size_t reads = 0;
  for (Src::Loop l(src, 30); l.more(); ++reads) {
    size_t off = p.offset(), left = wire.size() - off;
    CHECK(off <= wire.size());
    uint32_t n = 0; if (left >= 4) n = (uint32_t(uint8_t(wire[off])) << 24) | (uint32_t(uint8_t(wire[off + 1])) << 16) | (uint32_t(uint8_t(wire[off + 2])) << 8) | uint8_t(wire[off + 3]);
    bool ok = left >= 4 && n > 0 && n <= left - 4;
    switch (src.below(4)) {
      case 0: { std::string s; size_t r = p.read(s); CHECK_MSG(r == (ok ? n : 0), "string read returned %zu, announced %u, left %zu", r, n, left); CHECK(s == (ok ? wire.substr(off + 4, n) : "")); if (ok) CHECK(p.offset() == off + 4 + n); break; }
      case 1: { plain::bytes_t s; size_t r = p.read(s); CHECK(r == (ok ? n : 0)); CHECK(s.size() == r); if (ok) { CHECK(!memcmp(s.data(), wire.data() + off + 4, n)); CHECK(p.offset() == off + 4 + n); } break; }
      case 2: { size_t k = src.size(0, 60); std::vector<std::byte> b(k + 1); size_t r = p.read(b.data(), k); CHECK(r == (k <= left ? k : 0)); CHECK(!memcmp(b.data(), wire.data() + off, r)); CHECK(p.offset() == off + r); break; }
      default: { size_t k = src.size(0, 60); size_t r = p.remove(k); CHECK(r == std::min(k, left)); CHECK(p.offset() == off + r); }
    }
    CHECK(p.offset() <= wire.size()); src.steps(1);
  }
  if (reads >= 2 && wire.size() > 4) src.nontrivial();
}
