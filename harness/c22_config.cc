// Configuration files: ini and tab.
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/basic/type/variable.h"
#include "plain/file/ini.h"
#include "plain/file/tab.h"

using namespace plain;
using pbt::Src;
namespace {
std::string few(Src &s, size_t n, std::string_view al) { std::string r; for (size_t i = 0; i < n; ++i) r += al[s.below(al.size())]; return r; }
void put(const std::string &name, const std::string &text) { std::ofstream f(name, std::ios::binary); f << text; }
// Assertions of the library are written to the standard output and the log.
struct Hush { std::streambuf *old; struct Null : std::streambuf { int overflow(int c) override { return c; } } null; Hush() : old(std::cout.rdbuf(&null)) { Logger::set_output([](const std::string_view &) {}); } ~Hush() { std::cout.rdbuf(old); } };
template <typename T> struct Room { std::unique_ptr<T[]> p; explicit Room(size_t n) : p(new T[n]) {} };
std::string mine(const char *ext) { return "cfg" + std::to_string(getpid()) + ext; }
}  // namespace

// What the file says is what is read: sections, keys, values, comments.
PROPERTY(ini, {.weight = 4, .max_cases = 60000}) {
  Hush hush; std::string name = mine(".ini"); std::unique_ptr<Ini> ini; int files = 1 + int(src.below(2)); bool again = src.flip();
  for (int f = 0; f < files; ++f) {
    std::map<std::string, std::map<std::string, std::string>> want; std::string text, cur; bool in = false; std::vector<std::string> keys;
    Src::Loop l(src, 40); int entries = 0;
    while (l.more()) {
      std::string end = src.chance(1, 5) ? "\r\n" : "\n", tail = src.chance(1, 6) ? std::string(src.below(3), ' ') : src.chance(1, 6) ? "\t" : "", note = src.chance(1, 6) ? ";" + few(src, src.size(0, 6), "ab=[];") : "";
      switch (src.below(8)) {
        case 0: { cur = few(src, 1 + src.below(3), "ab c"); want[cur]; in = true; text += "[" + cur + "]" + tail + note + end; break; }
        case 1: text += tail + note + end; break;
        case 2: text += few(src, 1 + src.size(0, 6), "ab") + note + end; break;
        default: {
          std::string key = few(src, 1 + src.below(3), "abk"), val; bool long_one = src.chance(1, 12);
          switch (src.below(4)) { case 0: val = std::to_string(int32_t(src.bits(32))); break; case 1: val = std::to_string(int(src.range(0, 1000)) - 500) + "." + std::to_string(src.below(100)); break; case 2: val = few(src, long_one ? 300 + src.size(0, 1500) : src.size(0, 30), "abc =[]x"); break; default: val = few(src, src.size(0, 10), "0123456789-"); }
          while (!val.empty() && (val.back() == ' ' || val.back() == '\t')) val.pop_back();
          if (!in && !src.chance(1, 4)) break;   // a key before any section is ignored
          text += key + "=" + val + tail + note + end; if (in) { want[cur].emplace(key, val); ++entries; } break;
        }
      }
    }
    if (!text.empty() && src.flip()) { while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back(); }
    put(name, text); src.note("file %d of %zu bytes, %zu sections", f + 1, text.size(), want.size()); if (entries > 1) src.nontrivial();
    if (!ini) { if (src.flip()) ini = std::make_unique<Ini>(name.c_str()); else { ini = std::make_unique<Ini>(); CHECK(ini->open(name.c_str())); } }
    else { if (again) ini->close(); CHECK_MSG(ini->open(name.c_str()), "a second file could not be opened"); }
    CHECK_MSG(ini->getdata()->size() == want.size(), "%zu sections were read, not %zu:\n%s", ini->getdata()->size(), want.size(), text.c_str());
    for (auto &[sec, kv] : want) {
      auto it = ini->getdata()->find(sec); CHECK_MSG(it != ini->getdata()->end(), "the section '%s' is missing", sec.c_str()); CHECK_MSG(it->second->size() == kv.size(), "the section '%s' has %zu keys, not %zu", sec.c_str(), it->second->size(), kv.size());
      for (auto &[k, v] : kv) {
        CHECK_MSG(it->second->count(k) && v == ini->getstring(it->second->at(k)), "the value of '%s' in '%s' is not '%s'", k.c_str(), sec.c_str(), v.c_str());
        size_t size = 1 + (src.flip() ? v.size() : src.size(0, 40)); Room<char> r(size); memset(r.p.get(), '#', size);
        bool ok = src.flip() ? ini->getstring(sec.c_str(), k.c_str(), r.p.get(), int(size)) : ini->getstring_ifexist(sec.c_str(), k.c_str(), r.p.get(), int(size));
        CHECK_MSG(ok && strnlen(r.p.get(), size) < size && v.substr(0, size - 1) == r.p.get(), "'%s' in '%s' read into %zu bytes is not '%s'", k.c_str(), sec.c_str(), size, v.c_str());
        int32_t n = 77; CHECK(ini->getint32_ifexist(sec.c_str(), k.c_str(), n)); CHECK_MSG(n == atoi(v.c_str()) && ini->getint32(sec.c_str(), k.c_str(), 5) == n, "'%s' was read as the number %d", v.c_str(), n);
        float x = 7; CHECK(ini->getfloat_ifexist(sec.c_str(), k.c_str(), x)); float e = float(atof(v.c_str())); CHECK_MSG(x == e && ini->getfloat(sec.c_str(), k.c_str(), 5) == e, "'%s' was read as %g", v.c_str(), double(x));
        variable_t var; ini->get(sec.c_str(), k.c_str(), var); CHECK_MSG(var.get<std::string>() == v, "'%s' as a variable is different", v.c_str());
        CHECK(ini->get<int32_t>(sec, k, 5) == n); CHECK(ini->get<float>(sec, k, 5.f) == e); CHECK_MSG(ini->get<std::string>(sec, k, "none") == v, "'%s' as a string is '%s'", v.c_str(), ini->get<std::string>(sec, k, "none").c_str());
      }
      int32_t n = 77; std::string miss = "zz"; CHECK(!ini->getint32_ifexist(sec.c_str(), miss.c_str(), n) && n == 77); CHECK(ini->getint32(sec.c_str(), "zz", 31) == 31); CHECK(ini->getfloat("zz", "zz", 2.5f) == 2.5f);
      CHECK(ini->get<int32_t>(sec, miss, 9) == 9 && ini->get<std::string>("zz", miss, "none") == "none");
      size_t size = 1 + src.below(8); Room<char> r(size); CHECK(!ini->getstring(sec.c_str(), "zz", r.p.get(), int(size), "default")); CHECK_MSG(std::string("default").substr(0, size - 1) == r.p.get(), "the default read into %zu bytes is '%s'", size, r.p.get());
    }
  }
  unlink(name.c_str());
}
// A missing file, also with a very long name, is refused.
PROPERTY(missing, {.weight = 1, .max_cases = 2000}) {
  Hush hush; std::string name = "no"; size_t n = src.size(0, 3000); while (name.size() < n) name += "/" + std::string(200, 'x'); src.note("a name of %zu bytes", name.size()); src.nontrivial();
  Ini ini; CHECK(!ini.open(name.c_str())); int32_t v; CHECK(!ini.getint32_ifexist("a", "b", v)); CHECK(ini.getint32("a", "b", 4) == 4); Tab tab(1); CHECK(!tab.open_from_txt(name.c_str())); CHECK(tab.get_record_number() == 0);
}

namespace {
struct Cell { int32_t i = 0; float f = 0; std::string s; };
struct Table { std::vector<int> type; std::vector<std::string> names; std::vector<std::vector<Cell>> rows; };
// Compares all a table says with the model. Texts keep three digits of floats.
void same(Tab &t, const Table &m, bool names, bool rounded, const char *what) {
  CHECK_MSG(t.get_field_number() == int(m.type.size()) && t.get_record_number() == int(m.rows.size()), "%s: %d columns and %d records, not %zu and %zu", what, t.get_field_number(), t.get_record_number(), m.type.size(), m.rows.size());
  for (size_t c = 0; c < m.type.size(); ++c) {
    CHECK_MSG(t.get_fieldtype(int(c)) == m.type[c], "%s: column %zu has type %d", what, c, t.get_fieldtype(int(c)));
    if (names) { CHECK_MSG(m.names[c] == t.get_fieldname(int(c)), "%s: column %zu is called '%s'", what, c, t.get_fieldname(int(c))); CHECK_MSG(t.get_fieldindex(m.names[c].c_str()) == int(c), "%s: the column '%s' is found at %d", what, m.names[c].c_str(), t.get_fieldindex(m.names[c].c_str())); }
  }
  for (size_t r = 0; r < m.rows.size(); ++r) for (size_t c = 0; c < m.type.size(); ++c) {
    auto *d = t.search_position(int(r), int(c)); CHECK_MSG(d, "%s: no cell %zu, %zu", what, r, c); auto &w = m.rows[r][c];
    bool ok = m.type[c] == 0 ? d->int_value == w.i : m.type[c] == 1 ? (rounded ? std::abs(d->float_value - w.f) <= 0.00051f + std::abs(w.f) * 1e-6f : d->float_value == w.f) : w.s == d->string_value;
    CHECK_MSG(ok, "%s: the cell %zu, %zu (type %d) is wrong, '%s' or %d or %g were written", what, r, c, m.type[c], w.s.c_str(), w.i, double(w.f));
    if (names && r < 50) CHECK(t.get_fielddata(int(r), m.names[c].c_str()) == d);
  }
  int R = int(m.rows.size()), C = int(m.type.size()); CHECK_MSG(!t.search_position(-1, 0) && !t.search_position(R, 0) && !t.search_position(0, C) && !t.search_position(0, -1), "%s: a cell outside was found", what); CHECK(!t.get_fielddata(0, "no such column"));
}
// Finding rows: by the first one whose column has the value, and by the index.
void finds(Src &s, Tab &t, const Table &m, const char *what) {
  if (m.rows.empty()) return;
  for (int k = 0; k < 3; ++k) {
    size_t r = s.below(m.rows.size()), c = s.below(m.type.size()); auto &w = m.rows[r][c]; Tab::field_data key(0); if (m.type[c] == 0) key = Tab::field_data(w.i); else if (m.type[c] == 1) key = Tab::field_data(w.f); else key = Tab::field_data(w.s.c_str());
    size_t first = 0; for (; first < m.rows.size(); ++first) { auto &x = m.rows[first][c]; if (m.type[c] == 0 ? x.i == w.i : m.type[c] == 1 ? x.f == w.f : x.s == w.s) break; }
    auto *d = t.search_first_column_equal(int(c), key); CHECK_MSG(d == t.search_position(int(first), 0), "%s: the first record with the value of record %zu in column %zu is not record %zu", what, r, c, first);
  }
  CHECK(!t.search_first_column_equal(-1, Tab::field_data(1)) && !t.search_first_column_equal(int(m.type.size()), Tab::field_data(1)));
  std::vector<int> ints; for (size_t c = 0; c < m.type.size(); ++c) if (m.type[c] == 0) ints.push_back(int(c)); if (ints.empty()) return;
  int c = m.type[0] == 0 && s.flip() ? 0 : ints[s.below(ints.size())]; if (c != 0 || s.flip()) t.create_index(c, "table");
  for (int k = 0; k < 4; ++k) { int32_t v = s.flip() ? m.rows[s.below(m.rows.size())][size_t(c)].i : int32_t(s.bits(32)); size_t first = 0; for (; first < m.rows.size(); ++first) if (m.rows[first][size_t(c)].i == v) break; auto *d = t.search_index_equal(v); auto *want = first < m.rows.size() ? t.search_position(int(first), 0) : nullptr; CHECK_MSG(d == want, "%s: %d in the index of column %d %s", what, v, c, want ? "is not found at its record" : "was found"); }
}
}  // namespace

// A table is read as written, found by its index and columns, and comes back
// from both of its saved forms.
PROPERTY(tab, {.weight = 4, .max_cases = 60000}) {
  Hush hush; std::string name = mine(".tab"), copy = mine(".out"); Tab t(7), u(8); CHECK(t.get_id() == 7);
  for (int f = 0, files = 1 + int(src.below(2)); f < files; ++f) {
    Table m; std::string text, end = src.chance(1, 4) ? "\r\n" : "\n"; size_t cols = 1 + src.below(6); static const char *types[] = {"INT", "FLOAT", "STRING"};
    for (size_t c = 0; c < cols; ++c) { m.type.push_back(int(src.below(3))); m.names.push_back("n" + std::to_string(c) + few(src, src.chance(1, 10) ? 70 : src.below(4), "ab%d")); text += (c ? "\t" : "") + std::string(types[m.type[c]]); } text += end;
    for (size_t c = 0; c < cols; ++c) text += (c ? "\t" : "") + m.names[c]; text += end;
    size_t rows = src.chance(1, 300) ? 66000 : src.size(0, 30); bool big = rows > 1000; int small = int(src.below(2));
    for (size_t r = 0; r < rows; ++r) {
      if (!big && src.chance(1, 10)) text += src.flip() ? "#" + few(src, src.size(0, 5), "ab\t1") + end : src.flip() ? end : "\tx" + end;
      std::vector<Cell> row; std::string line; size_t given = !big && src.chance(1, 6) ? 1 + src.below(cols + 2) : cols;
      for (size_t c = 0; c < cols; ++c) {
        Cell x; std::string s;
        if (big) { x.i = int32_t(r); x.f = float(r); s = x.s = std::to_string(r); }
        else switch (m.type[c]) { case 0: x.i = small ? int32_t(src.below(8)) : int32_t(src.bits(32)); s = std::to_string(x.i); break; case 1: { x.f = float(int32_t(src.bits(20)) - 500000) / 64; if (src.chance(1, 5)) x.f = std::ldexp(x.f, int(src.below(112))); char b[64]; snprintf(b, sizeof b, "%.9g", double(x.f)); s = b; break; } default: s = few(src, (src.chance(1, 40) ? 1000 : 0) + src.size(c ? 0 : 1, 8), "ab 1#%"); if (!c && s[0] == '#') s[0] = 'c'; x.s = s; }
        if (c >= given) { x = Cell{}; s.clear(); } row.push_back(x); if (c) { if (c < given) line += "\t"; } if (c < given) line += s;
      }
      for (size_t c = cols; c < given; ++c) line += "\textra";
      text += line + end; m.rows.push_back(row);
    }
    src.note("file %d: %zu columns, %zu records, %zu bytes", f + 1, cols, m.rows.size(), text.size()); if (m.rows.size() > 1 && cols > 1) src.nontrivial(); if (big) src.label("many records");
    if (src.flip()) { put(name, text); CHECK_MSG(t.open_from_txt(name.c_str()), "the table could not be read"); } else { std::unique_ptr<char[]> b(new char[text.size()]); memcpy(b.get(), text.data(), text.size()); CHECK_MSG(t.open_from_memory(b.get(), b.get() + text.size()), "the table could not be read"); }
    same(t, m, true, false, "read"); finds(src, t, m, "read");
    if (src.flip()) { CHECK(t.save_totext(copy.c_str())); CHECK_MSG(u.open_from_txt(copy.c_str()), "the text saved could not be read"); same(u, m, true, true, "saved as text"); }
    else { CHECK(t.save_tobinary(copy.c_str())); CHECK_MSG(u.open_from_txt(copy.c_str()), "the binary saved could not be read"); same(u, m, false, false, "saved as binary"); finds(src, u, m, "saved as binary"); }
  }
  unlink(name.c_str()); unlink(copy.c_str());
}

// Any bytes are safe to open, as text or with the binary mark.
PROPERTY(hostile, {.weight = 3, .max_cases = 60000}) {
  Hush hush; std::string b; src.nontrivial();
  if (src.flip()) { b = few(src, src.size(0, 200), "INTSRGFLOAT\t\n\r#;[]=ab1"); if (src.flip()) b = "INT\tSTRING\nab\tc\n" + b; }
  else {
    struct H { uint32_t id; int32_t f, r, s; } h{FILE_DATABASE_INDENTIFY, int32_t(src.below(5)), int32_t(src.below(6)), int32_t(src.below(40))}; if (src.chance(1, 4)) h.f = int32_t(src.bits(32)); if (src.chance(1, 4)) h.r = int32_t(src.bits(32)); if (src.chance(1, 4)) h.s = int32_t(src.bits(32));
    b.assign(reinterpret_cast<char *>(&h), sizeof h); for (int i = 0; i < h.f && i < 5; ++i) { uint32_t ty = src.chance(1, 12) ? uint32_t(src.bits(32)) : uint32_t(src.below(3)); b.append(reinterpret_cast<char *>(&ty), 4); }
    size_t cells = size_t(std::clamp(h.f, 0, 5)) * size_t(std::clamp(h.r, 0, 6)); for (size_t i = 0; i < cells; ++i) { uint64_t v = src.chance(1, 6) ? src.bits(64) : src.below(45); b.append(reinterpret_cast<char *>(&v), 8); } b += src.bytes(src.size(0, 50));
  }
  src.note("%zu bytes %s", b.size(), pbt::hex(b.substr(0, 60)).c_str());
  std::unique_ptr<char[]> m(new char[b.size()]); memcpy(m.get(), b.data(), b.size()); Tab t(1); bool ok = t.open_from_memory(m.get(), m.get() + b.size(), "hostile");
  if (ok) { size_t sum = 0; for (int r = 0; r < t.get_record_number() && r < 100; ++r) for (int c = 0; c < t.get_field_number() && c < 100; ++c) { auto *d = t.search_position(r, c); CHECK(d); sum += t.get_fieldtype(c) == 2 ? strlen(d->string_value) : size_t(d->int_value & 1); } src.label("opened"); if (sum == size_t(-1)) src.label("x"); }
  std::string name = mine(".x"); put(name, b); { Ini i; i.open(name.c_str()); } unlink(name.c_str());
}

// Variables keep what they are given, compare as their values and calculate.
PROPERTY(variable, {.weight = 2}) {
  auto make = [&](double &num, int &kind) { kind = int(src.below(12)); int64_t v = src.flip() ? int64_t(src.range(0, 200)) - 100 : int64_t(src.range(0, 1 << 20)); variable_t r; auto keep = [&](auto x) { r = x; num = double(x); CHECK_MSG(r.get<decltype(x)>() == x, "a variable of type %d lost its value", kind); CHECK(r.to_int64() == int64_t(x)); CHECK(r.to_double() == double(x)); };
    switch (kind) { case 0: keep(bool(v & 1)); break; case 1: keep(int8_t(v)); break; case 2: keep(uint8_t(v)); break; case 3: keep(int16_t(v)); break; case 4: keep(uint16_t(v)); break; case 5: keep(int32_t(v)); break; case 6: keep(uint32_t(v)); break; case 7: keep(int64_t(v)); break; case 8: keep(uint64_t(uint32_t(v))); break; case 9: keep(float(v) / 8); break; case 10: keep(double(v) / 8); break; default: { std::string s = std::to_string(v) + (src.flip() ? ".5" : ""); r = s; num = atof(s.c_str()); CHECK(r.get<std::string>() == s && s == r.c_str()); CHECK(r.to_int64() == atoll(s.c_str()) && r.to_double() == num); } } return r; };
  double a, b; int ka, kb; variable_t x = make(a, ka), y = make(b, kb); src.nontrivial(); src.note("types %d and %d, values %g and %g", ka, kb, a, b);
  auto &vx = x.value; auto &vy = y.value; CHECK_MSG((x == y) == (vx == vy) && (x != y) == (vx != vy) && (x < y) == (vx < vy) && (x > y) == (vx > vy) && (x <= y) == (vx <= vy) && (x >= y) == (vx >= vy), "comparing %g (type %d) with %g (type %d) is wrong: == %d != %d < %d > %d", a, ka, b, kb, x == y, x != y, x < y, x > y);
  if (ka == kb && ka != 11) CHECK_MSG((x < y) == (a < b) && (x > y) == (a > b) && (x == y) == (a == b), "%g and %g compare wrongly", a, b);
  variable_t c(x), d; d = x; CHECK(c == x && d == x); int op = int(src.below(8)); double want = a, by = double(src.range(1, 50)) / 4;
  switch (op) { case 0: c += y; want = a + b; break; case 1: c -= y; want = a - b; break; case 2: c *= y; want = a * b; break; case 3: if (b == 0) return; c /= y; want = a / b; break; case 4: c += by; want = a + by; break; case 5: c -= by; want = a - by; break; case 6: c *= by; want = a * by; break; default: c /= by; want = a / by; }
  CHECK_MSG(c.to_double() == want, "operation %d on %g and %g gave %g, not %g", op, a, op < 4 ? b : by, c.to_double(), want); CHECK_MSG(d == x, "a copy changed with its origin");
  variable_t e(x); int64_t whole = x.to_int64(); switch (src.below(4)) { case 0: ++e; ++whole; break; case 1: e++; ++whole; break; case 2: --e; --whole; break; default: e--; --whole; } CHECK_MSG(e.get<int64_t>() == whole, "%ld stepped to %ld", (long)x.to_int64(), (long)e.get<int64_t>());
  bool threw = false; try { (void)x.get<std::string>(); } catch (const std::bad_variant_access &) { threw = true; } CHECK(threw == (ka != 11));
}

// Any value of any type: kept, converted, moved and printed exactly; bytes are printed in hexadecimal.
enum class Shade : uint16_t {};
PROPERTY(variable_wide, {.weight = 2}) {
  int kind = int(src.below(13)); uint64_t w = src.chance(1, 3) ? (src.flip() ? ~0ULL : 1ULL << 63) >> src.below(64) : src.bits(64); if (src.flip()) w = ~w + src.below(2); src.note("type %d, %s", kind, std::to_string(w).c_str()); if (w >> 33) src.nontrivial();
  auto check = [&](auto v) {
    using T = decltype(v); variable_t x(v), y; y = v; variable_t by_copy(x), moved(std::move(y)), again; again = std::move(by_copy);
    auto print = [](auto &a) { std::ostringstream o; o << a; return o.str(); };
    for (const variable_t *q : {&x, &moved, &again}) { CHECK_MSG(q->get<T>() == v && q->_get<T>() == v, "a value of type %d was lost", kind); CHECK_MSG(print(*q) == print(v), "%s is printed as %s", print(v).c_str(), print(*q).c_str()); }
    CHECK(x == moved && !(x < again) && !(x > again)); CHECK_MSG(static_cast<T>(x) == v, "a value of type %d is converted wrongly", kind);
    if constexpr (std::is_integral_v<T>) { CHECK_MSG(x.to_int64() == int64_t(v), "%s as a number is %ld", print(v).c_str(), (long)x.to_int64()); CHECK(x.to_double() == double(v)); int64_t n = int64_t(v); if (n > INT64_MIN && n < INT64_MAX) { bool up = src.flip(); if (up) ++x; else x--; CHECK_MSG(x.get<int64_t>() == (up ? n + 1 : n - 1), "%s stepped %s is %ld", print(v).c_str(), up ? "up" : "down", (long)x.get<int64_t>()); } }
    else if constexpr (std::is_floating_point_v<T>) { CHECK(x.to_double() == double(v)); if (v > -9e18 && v < 9e18) CHECK(x.to_int64() == int64_t(v)); }
    else { CHECK_MSG(x.to_int64() == int64_t(w), "the text %s as a number is %ld", v.c_str(), (long)x.to_int64()); CHECK(v == x.c_str()); CHECK(v == static_cast<const char *>(x)); CHECK(x.to_double() == atof(v.c_str())); }
  };
  switch (kind) {
    case 0: check(bool(w & 1)); break; case 1: check(int8_t(w)); break; case 2: check(uint8_t(w)); break; case 3: check(int16_t(w)); break; case 4: check(uint16_t(w)); break; case 5: check(int32_t(w)); break; case 6: check(uint32_t(w)); break;
    case 7: check(int64_t(w)); break; case 8: check(uint64_t(w)); break; case 9: check(float(int64_t(w)) / 3); break; case 10: check(double(int64_t(w)) / 3); break;
    case 11: check(std::to_string(int64_t(w))); break;
    default: { variable_t e(Shade{uint16_t(w)}); CHECK_MSG(e.get<uint16_t>() == uint16_t(w), "an enumerator keeps %u, not %u", e.get<uint16_t>(), uint16_t(w)); }
  }
  bytes_t b; std::string want; int n = int(src.size(0, 12)); for (int i = 0; i < n; ++i) { auto c = uint8_t(src.bits(8)); b.push_back(static_cast<bytes_t::value_type>(c)); char t[3]; snprintf(t, 3, "%02X", c); want += t; } if (!n) want = "0";
  std::ostringstream o; if (src.flip()) o << std::scientific; o.fill(src.flip() ? ' ' : '*'); o.precision(int(1 + src.below(9))); auto flags = o.flags(); auto fill = o.fill(); auto precision = o.precision(); o << b;
  CHECK_MSG(o.str() == want, "the bytes %s are printed as %s", want.c_str(), o.str().c_str()); CHECK_MSG(o.flags() == flags && o.fill() == fill && o.precision() == precision, "printing %d bytes changed the stream", n);
  o << 255; CHECK(o.str() == want + "255");
}
