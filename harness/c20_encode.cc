// Encodings: base64, MD5, the two simple ciphers, hexadecimal text, escapes,
// byte order and the string stream.
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <ctime>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "plain/basic/base64.h"
#include "plain/basic/endian.h"
#include "plain/basic/md5.h"
#include "plain/basic/stringstream.h"
#include "plain/basic/utility.h"

using pbt::Src;
static time_t fake_now = 0;
extern "C" time_t time(time_t *t) noexcept { if (t) *t = fake_now; return fake_now; }

namespace {
std::string ref64(const std::string &s) {
  static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r; uint32_t acc = 0; int bits = 0;
  for (unsigned char c : s) { acc = (acc << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; r += a[(acc >> bits) & 63]; } }
  if (bits) r += a[(acc << (6 - bits)) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
// RFC 1321, written from its text: the constants are computed.
struct RefMd5 {
  uint32_t K[64]; uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u}; uint64_t total = 0;
  RefMd5() { for (int i = 0; i < 64; ++i) K[i] = uint32_t(std::floor(std::fabs(std::sin(double(i + 1))) * 4294967296.0)); }
  // Whole blocks of 64 bytes.
  __attribute__((no_sanitize("address"), optimize("O2"))) void blocks(const char *m, size_t n) {
  static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  total += n;
  for (size_t o = 0; o < n; o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 4; ++j) w[i] |= uint32_t((unsigned char)m[o + i * 4 + j]) << (8 * j); }
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
      uint32_t t = d; d = c; c = b; uint32_t x = a + f + K[i] + w[g]; int s = S[i / 16][i % 4]; b = b + ((x << s) | (x >> (32 - s))); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  }
  // The rest of the content.
  std::string end(const std::string &rest) {
  uint64_t bits = (total + rest.size()) * 8; std::string m = rest; m += char(0x80); while (m.size() % 64 != 56) m += char(0);
  for (int i = 0; i < 8; ++i) m += char(bits >> (8 * i));
  blocks(m.data(), m.size());
  char out[33]; for (int i = 0; i < 16; ++i) snprintf(out + i * 2, 3, "%02x", (h[i / 4] >> (8 * (i % 4))) & 255u);
  return std::string(out, 32);
  }
};
std::string ref_md5(const std::string &in) { return RefMd5().end(in); }
// A copy in a heap block of exactly its size, so that reading past it is seen.
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } operator std::string_view() const { return {p.get(), n}; } };
std::string printable(Src &s, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += char(s.range(0x20, 0x7e)); return r; }
}  // namespace

PROPERTY(base64, {.weight = 3}) {
  std::string s = src.bytes(src.size(0, 200)); Exact e(s);
  std::string a = plain::base64_encode(reinterpret_cast<const unsigned char *>(e.p.get()), unsigned(e.n)), b = plain::base64_encode(std::string_view(e)), want = ref64(s);
  src.note("%zu bytes %s", s.size(), pbt::hex(s).c_str());
  CHECK_MSG(a == want && b == want, "encoded as %s / %s, not %s", a.c_str(), b.c_str(), want.c_str());
  std::string d = plain::base64_decode(a); CHECK_MSG(d == s, "%s decoded to %s", a.c_str(), pbt::hex(d).c_str());
  std::string bare = a.substr(0, a.find('=')); CHECK_MSG(plain::base64_decode(bare) == s, "%s without padding decoded to %s", bare.c_str(), pbt::hex(plain::base64_decode(bare)).c_str());
  // Any text is safe to decode, and what follows a foreign byte does not count.
  std::string t = src.flip() ? src.bytes(src.size(0, 60)) : src.ascii(src.size(0, 60)); std::string x = plain::base64_decode(t); CHECK(x.size() <= t.size());
  if (s.size() >= 3) src.nontrivial();
}

PROPERTY(md5, {.weight = 3}) {
  std::string s = src.bytes(src.chance(1, 5) ? src.size(0, 3000) : src.size(0, 200)); std::string want = ref_md5(s);
  plain::MD5 m; size_t at = 0, parts = 0; CHECK_MSG(m.hexdigest().empty(), "a digest before the end: %s", m.hexdigest().c_str());
  while (at < s.size()) { size_t n = std::min<size_t>(s.size() - at, src.chance(1, 6) ? 0 : 1 + src.size(0, 150)); Exact part(s.substr(at, n)); if (src.flip()) m.update(part.p.get(), unsigned(n)); else m.update(reinterpret_cast<unsigned char *>(part.p.get()), unsigned(n)); at += n; if (++parts > 400) { m.update(s.data() + at, unsigned(s.size() - at)); break; } }
  std::string got = m.finalize().hexdigest(); src.note("%zu bytes in %zu parts", s.size(), parts);
  CHECK_MSG(got == want, "digest %s of %zu bytes in %zu parts, not %s", got.c_str(), s.size(), parts, want.c_str());
  CHECK_MSG(m.finalize().hexdigest() == want && m.md5() == want, "the digest changed when asked for again");
  CHECK_MSG(plain::MD5(s).hexdigest() == want && plain::md5(s) == want, "the digest in one piece is %s", plain::MD5(s).hexdigest().c_str());
  std::ostringstream os; os << plain::MD5(s); CHECK_MSG(os.str() == want, "printed as %s", os.str().c_str());
  if (parts > 1) src.nontrivial();
}

// Contents of half a gigabyte and more: their number of bits does not fit in 32 bits.
PROPERTY(md5_large, pbt::Options{.weight = 1, .batch = 1, .hang_s = 300, .max_cases = 5}) {
  std::string block; { auto seed = src.bits(32); block.resize(1 << 20); for (auto &c : block) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; c = char(seed >> 56); } }
  uint64_t blocks = 512 + src.below(2); size_t rest = src.below(3000), done = 0; std::string tail = block.substr(0, rest);
  if (src.chance(2, 5)) {  // all of it at once
    std::string all; all.reserve((blocks << 20) + rest); RefMd5 r; for (uint64_t i = 0; i < blocks; ++i) { all += block; r.blocks(block.data(), block.size()); } all += tail;
    std::string want = r.end(tail), got = plain::md5(all); CHECK_MSG(got == want, "digest %s of a text of %zu bytes, not %s", got.c_str(), all.size(), want.c_str());
    src.label("large_text"); src.nontrivial(); return;
  }
  plain::MD5 m; RefMd5 r; size_t head = src.below(200); m.update(block.data(), unsigned(head));  // the pieces do not fit the blocks
  for (uint64_t i = 0; i < blocks; ++i) {
    r.blocks(block.data(), block.size());
    if (head) m.update(block.data() + head, unsigned(block.size() - head));
    if (head && (i + 1 < blocks)) m.update(block.data(), unsigned(head));
    if (!head) m.update(block.data(), unsigned(block.size()));
    done += block.size();
  }
  m.update(tail.data(), unsigned(rest));
  std::string want = r.end(tail), got = m.finalize().hexdigest(); src.note("%zu bytes", done + rest);
  CHECK_MSG(got == want, "digest %s of %zu bytes, not %s", got.c_str(), done + rest, want.c_str());
  src.label("large"); src.nontrivial();
}

PROPERTY(password, {.weight = 2}) {
  size_t n = src.chance(1, 8) ? src.range(21, 40) : src.range(0, 20); std::string p = printable(src, n); bool ok = n <= 20;
  if (n && src.chance(1, 6)) { char c; do c = char(src.range(1, 255)); while (c >= 0x20 && c <= 0x7e); p[src.below(n)] = c; ok = false; }
  Exact e(p); std::string out = "before"; bool r = plain::encrypt(std::string_view(e), out);
  src.note("'%s' %s", p.c_str(), pbt::hex(p).c_str());
  if (!ok) { CHECK_MSG(!r, "a password beyond 20 characters or not printable was accepted"); return; }
  // Longer ones reuse parts of the key: the scheme tries 32 keys and may then refuse.
  if (!r && p.size() > 10) { src.label("refused"); return; }
  CHECK_MSG(r, "the password %s was refused", p.c_str()); src.nontrivial();
  CHECK_MSG(out.size() == 32, "encrypted to %zu characters", out.size());
  for (char c : out) CHECK_MSG(c >= 0x20 && c <= 0x7e, "the encrypted text holds the byte %d", c);
  Exact f(out); std::string back; CHECK_MSG(plain::decrypt(std::string_view(f), back) && back == p, "the password '%s' came back as '%s'", p.c_str(), back.c_str());
  // Any text is safe to decrypt; only 32 characters can be valid.
  std::string t = src.flip() ? printable(src, src.range(30, 33)) : src.bytes(src.range(28, 34)); for (char &c : t) if (!c) c = 'x';
  if (src.flip()) { t = out; for (int i = 0; i < 3; ++i) t[src.below(32)] = char(src.range(0x20, 0x7e)); }
  Exact g(t); std::string junk = "before"; bool jr = plain::decrypt(std::string_view(g), junk); if (t.size() != 32) CHECK_MSG(!jr, "a text of %zu characters was decrypted", t.size()); if (jr) CHECK_MSG(junk.size() <= 20, "decrypted to %zu characters", junk.size());
}

PROPERTY(number, {.weight = 2}) {
  fake_now = time_t(src.bits(32));
  std::string s = src.chance(1, 6) ? src.bytes(src.size(0, 100)) : src.ascii(src.size(0, 100));
  int32_t n; switch (src.below(4)) { case 0: n = int32_t(src.bits(32)); break; case 1: n = int32_t(src.range(0, 1000)); break; case 2: { static const int32_t e[] = {0, -1, INT32_MAX, INT32_MIN, 999999999, 1000000000, -1000000000, -999999999, 10, 9}; n = e[src.below(10)]; break; } default: n = -int32_t(src.bits(30)); }
  Exact e(s); std::string out = "before"; src.note("number %d in %zu bytes %s, time %ld", n, s.size(), pbt::hex(s).c_str(), (long)fake_now);
  CHECK_MSG(plain::encrypt(std::string_view(e), n, out), "refused"); src.nontrivial();
  Exact f(out); int32_t back = 77; std::string text = "before"; bool r = plain::decrypt(std::string_view(f), back, text);
  CHECK_MSG(r && back == n && text == s, "%d in '%s' became '%s' and came back (%d) as %d in '%s'", n, s.c_str(), out.c_str(), int(r), back, text.c_str());
  std::string t = src.bytes(src.size(0, 40)); if (src.flip()) { t = out; t[src.below(std::min<size_t>(t.size(), 6))] = char(src.bits(8)); }
  Exact g(t); int32_t jn = 0; std::string js; if (plain::decrypt(std::string_view(g), jn, js)) CHECK_MSG(js.size() <= t.size(), "%zu bytes decrypted from %zu", js.size(), t.size());
}

PROPERTY(hexadecimal, {.weight = 2}) {
  std::string s = src.bytes(1 + src.size(0, 80)); Exact e(s), o(std::string(s.size() * 2, '#'));
  src.note("%s", pbt::hex(s).c_str()); src.nontrivial();
  CHECK(plain::binary_tostring(e.p.get(), uint32_t(e.n), o.p.get()));
  std::string text{std::string_view(o)}; static const char *d = "0123456789ABCDEF";
  for (size_t i = 0; i < s.size(); ++i) CHECK_MSG(text[2 * i] == d[(unsigned char)s[i] >> 4] && text[2 * i + 1] == d[s[i] & 15], "byte %zu, %02x, was written as %c%c", i, (unsigned char)s[i], text[2 * i], text[2 * i + 1]);
  size_t room = src.flip() ? s.size() : src.below(s.size() + 1); Exact b(std::string(room, '#')); uint32_t n = 99;
  bool r = plain::string_tobinary(o.p.get(), uint32_t(o.n), b.p.get(), uint32_t(room), n);
  CHECK_MSG(r && n == room && memcmp(b.p.get(), s.data(), room) == 0, "of %zu bytes written as text, %u came back into room for %zu (%d): %s", s.size(), n, room, int(r), pbt::hex(std::string(b.p.get(), std::min<size_t>(n, room))).c_str());
  { plain::bytes_t raw; std::string want; for (char c : s) { raw.push_back(plain::bytes_t::value_type(c)); char h[8]; snprintf(h, sizeof h, "\\x%x", (unsigned char)c); want += h; } CHECK_MSG(plain::to_hex(raw) == want, "shown as %s, not %s", plain::to_hex(raw).c_str(), want.c_str()); }
  { int32_t i = src.flip() ? int32_t(src.below(66)) - 1 : int32_t(src.bits(32)); char c = plain::get_base64char(i); CHECK_MSG(c == (i >= 0 && i < 64 ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[i] : '='), "base64 digit %d is %c", i, c); }
  for (int i = 0; i < 16; ++i) CHECK_MSG(plain::value_toascii(char(i)) == d[i] && plain::ascii_tovalue(d[i]) == i, "the digit %d is written %c", i, plain::value_toascii(char(i)));
}

PROPERTY(escape, {.weight = 1}) {
  std::string s; static const char odd[] = {0, '\n', '\r', 0x1a, '"', '\'', '\\', 'n', 'a'}; size_t n = src.size(0, 40); for (size_t i = 0; i < n; ++i) s += src.flip() ? odd[src.below(9)] : char(src.bits(8));
  std::string want; for (char c : s) { switch (c) { case 0: want += "\\0"; break; case '\n': want += "\\n"; break; case '\r': want += "\\r"; break; case 0x1a: want += "\\Z"; break; case '"': case '\'': case '\\': want += '\\'; want += c; break; default: want += c; } }
  size_t room = src.flip() ? want.size() : src.size(0, 60); Exact e(s), o(std::string(room, '#')); src.note("%zu bytes in room for %zu", s.size(), room);
  plain::getescape(e.p.get(), e.n, o.p.get(), room);   // AddressSanitizer watches the end
  std::string got{std::string_view(o)};
  if (room >= want.size()) CHECK_MSG(got.compare(0, want.size(), want) == 0, "%s was escaped as %s", pbt::hex(s).c_str(), pbt::hex(got.substr(0, want.size())).c_str());
  if (want.size() > s.size()) src.nontrivial();
}

namespace {
template <typename T> void order(uint64_t raw) {
  T v = T(raw); unsigned char b[sizeof(T)]; T net = plain::hton(v); memcpy(b, &net, sizeof b);
  for (size_t i = 0; i < sizeof(T); ++i) CHECK_MSG(b[i] == (unsigned char)(std::make_unsigned_t<T>(v) >> (8 * (sizeof(T) - 1 - i))), "%lld in network order has byte %zu = %02x", (long long)v, i, b[i]);
  CHECK(plain::ntoh(net) == v); CHECK(plain::byteswap(plain::byteswap(v)) == v);
  unsigned char d[sizeof(T)]; plain::hton(v, &d[0]); CHECK(memcmp(d, b, sizeof b) == 0); T back = plain::ntoh<T>(&d[0]); CHECK(back == v); T again = plain::hton<T>(&d[0]); CHECK(again == v);
}
}  // namespace
PROPERTY(byte_order, {.weight = 1}) {
  uint64_t v = src.bits(64); src.note("%016llx", (unsigned long long)v); src.nontrivial();
  order<int8_t>(v); order<uint8_t>(v); order<int16_t>(v); order<uint16_t>(v); order<int32_t>(v); order<uint32_t>(v); order<int64_t>(v); order<uint64_t>(v);
  double d; float f; uint32_t lo = uint32_t(v); memcpy(&d, &v, 8); memcpy(&f, &lo, 4);
  if (d == d) { double n = plain::hton(d); uint64_t r; memcpy(&r, &n, 8); CHECK_MSG(r == __builtin_bswap64(v), "%a in network order is %016llx", d, (unsigned long long)r); double h = plain::ntoh(n); CHECK(memcmp(&h, &d, 8) == 0); }
  if (f == f) { float n = plain::hton(f); uint32_t r; memcpy(&r, &n, 4); CHECK_MSG(r == __builtin_bswap32(lo), "%a in network order is %08x", double(f), r); float h = plain::ntoh(n); CHECK(memcmp(&h, &f, 4) == 0); }
}

// Values written to a string stream come back, and nothing outside its buffer
// is touched, whatever the buffer holds.
PROPERTY(stringstream, {.weight = 3}) {
  struct V { int kind; uint64_t u; std::string s; }; std::vector<V> vals; size_t used = 0;
  Exact buf(std::string(1 + src.size(0, 300), '#')); plain::stringstream w(buf.p.get(), buf.n);
  static const size_t sz[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
  Src::Loop l(src, 30); bool overflow = false;
  while (l.more()) {
    V v{int(src.below(11)), src.bits(64), ""}; if (v.kind == 10) v.s = src.bytes(src.size(0, 60)); size_t need = v.kind == 10 ? 4 + v.s.size() : sz[v.kind];
    if (used + need > buf.n) { overflow = true; if (v.kind == 10) break; }
    switch (v.kind) { case 0: w << int8_t(v.u); break; case 1: w << uint8_t(v.u); break; case 2: w << int16_t(v.u); break; case 3: w << uint16_t(v.u); break; case 4: w << int32_t(v.u); break; case 5: w << uint32_t(v.u); break; case 6: w << int64_t(v.u); break; case 7: w << uint64_t(v.u); break; case 8: w << float(int32_t(v.u)); break; case 9: w << double(int64_t(v.u)); break; default: w << v.s; }
    if (used + need <= buf.n) { vals.push_back(v); used += need; }
    CHECK_MSG(w.get_position() == used && w.full() == (used >= buf.n), "after %zu bytes the position is %zu", used, w.get_position());
    if (overflow) break;
  }
  src.note("%zu values in %zu bytes%s", vals.size(), buf.n, overflow ? ", one too many" : ""); if (vals.size() > 2) src.nontrivial();
  plain::stringstream r(buf.p.get(), buf.n);
  for (auto &v : vals) {
    auto eq = [&](auto want) { decltype(want) g{}; r >> g; CHECK_MSG(g == want, "a value of kind %d came back different", v.kind); };
    switch (v.kind) { case 0: eq(int8_t(v.u)); break; case 1: eq(uint8_t(v.u)); break; case 2: eq(int16_t(v.u)); break; case 3: eq(uint16_t(v.u)); break; case 4: eq(int32_t(v.u)); break; case 5: eq(uint32_t(v.u)); break; case 6: eq(int64_t(v.u)); break; case 7: eq(uint64_t(v.u)); break; case 8: eq(float(int32_t(v.u))); break; case 9: eq(double(int64_t(v.u))); break;
      default: { std::string g = "before"; r >> g; CHECK_MSG(g == v.s, "the text %s came back as %s", pbt::hex(v.s).c_str(), pbt::hex(g).c_str()); } }
  }
  CHECK(r.get_position() == used);
  // From any position, also as text into a buffer, and not at all where too little is left.
  size_t at = 0; std::vector<size_t> starts; for (auto &v : vals) { starts.push_back(at); at += v.kind == 10 ? 4 + v.s.size() : sz[v.kind]; }
  for (int i = 0; i < 3 && !vals.empty(); ++i) { size_t k = src.below(vals.size()); auto &v = vals[k]; r.set_position(starts[k]); CHECK(r.get_position() == starts[k]); if (v.kind == 10) { Exact room(std::string(v.s.size() + 1, '!')); std::string before(room.p.get(), room.n); r >> room.p.get(); CHECK(std::string(room.p.get(), room.n) == v.s + before.back()); } else if (v.kind == 4) { int32_t g = 0; r >> g; CHECK(g == int32_t(v.u)); } }
  if (buf.n >= 1) { size_t left = src.below(std::min<size_t>(8, buf.n)) + 1; r.set_position(buf.n - left); size_t p0 = r.get_position(); uint64_t u = src.bits(64), u0 = u; uint32_t x = uint32_t(u), x0 = x; if (left < 8) { r >> u; CHECK_MSG(u == u0 && r.get_position() == p0, "a number was read from %zu bytes", left); } if (left < 4) { r >> x; CHECK_MSG(x == x0 && r.get_position() == p0, "a number was read from %zu bytes", left); } }
  // Hostile content.
  std::string junk = src.bytes(1 + src.size(0, 40)); if (src.flip()) { junk = std::string(2, 0) + junk; } Exact h(junk); plain::stringstream q(h.p.get(), h.n); std::string g; for (int i = 0; i < 4; ++i) { q >> g; CHECK_MSG(g.size() <= junk.size(), "%zu bytes read from %zu", g.size(), junk.size()); }
}
