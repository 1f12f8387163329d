// Text and path helpers against plain reference versions.
#include "pbt.h"
#include <clocale>
#include <cstring>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <filesystem>
#include "plain/basic/utility.h"

using pbt::Src;
namespace fs = std::filesystem;
namespace {
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } operator std::string_view() const { return {p.get(), n}; } };
// Text over a small alphabet, so that matches are common.
std::string few(Src &s, size_t n, std::string_view al) { std::string r; for (size_t i = 0; i < n; ++i) r += al[s.below(al.size())]; return r; }
std::string strip(const std::string &s, std::string_view mask, bool l, bool r) {
  size_t a = 0, b = s.size(); if (l) while (a < b && mask.find(s[a]) != mask.npos) ++a; if (r) while (b > a && mask.find(s[b - 1]) != mask.npos) --b; return s.substr(a, b - a);
}
std::string replaced(const std::string &what, const std::string &by, const std::string &in, int count) {
  if (what.empty()) return in; std::string r;
  for (size_t i = 0; i < in.size();) { if (count != 0 && in.compare(i, what.size(), what) == 0) { r += by; i += what.size(); if (count > 0) --count; } else r += in[i++]; }
  return r;
}
}  // namespace

PROPERTY(trim, {.weight = 2}) {
  std::string_view al("ab \t\n\r\0\x0b", 8); std::string s = few(src, src.size(0, 14), al); bool dflt = src.flip(); std::string mask = few(src, src.size(0, 4), al);
  std::string_view white(" \t\n\r\0\x0b", 6), m = dflt ? white : std::string_view(mask); Exact em(mask);
  src.note("%s by %s", pbt::hex(s).c_str(), pbt::hex(std::string(m)).c_str()); if (s.size() > 2) src.nontrivial();
  for (int k = 0; k < 3; ++k) {
    std::string t = s, want = strip(s, m, k != 1, k != 0);
    std::string &r = dflt ? (k == 0 ? plain::ltrim(t) : k == 1 ? plain::rtrim(t) : plain::trim(t)) : (k == 0 ? plain::ltrim(t, em) : k == 1 ? plain::rtrim(t, em) : plain::trim(t, em));
    CHECK(&r == &t); CHECK_MSG(t == want, "%s of %s by %s gave %s, not %s", k == 0 ? "ltrim" : k == 1 ? "rtrim" : "trim", pbt::hex(s).c_str(), pbt::hex(std::string(m)).c_str(), pbt::hex(t).c_str(), pbt::hex(want).c_str());
  }
}

PROPERTY(replace, {.weight = 2}) {
  std::string s = few(src, src.size(0, 30), "aab\\'\""), what = few(src, src.size(0, 3), "ab"), by = few(src, src.size(0, 4), "abc"); int count = src.flip() ? -1 : int(src.below(4));
  Exact es(s), ew(what), eb(by); std::string got = plain::str_replace(ew, eb, es, count), want = replaced(what, by, s, count);
  src.note("'%s' by '%s' in '%s' (%d times)", what.c_str(), by.c_str(), s.c_str(), count); if (want != s) src.nontrivial();
  CHECK_MSG(got == want, "replacing '%s' by '%s' in '%s' %d times gave '%s', not '%s'", what.c_str(), by.c_str(), s.c_str(), count, got.c_str(), want.c_str());
  std::vector<std::string> list; for (size_t i = src.below(4); i > 0; --i) list.push_back(few(src, src.size(0, 3), "abc"));
  want = s; for (auto &w : list) want = replaced(w, by, want, count);
  got = plain::str_replaces(list, eb, es, count); CHECK_MSG(got == want, "replacing %zu texts by '%s' in '%s' gave '%s', not '%s'", list.size(), by.c_str(), s.c_str(), got.c_str(), want.c_str());
  bool has = false; for (auto &w : list) if (!w.empty() && s.find(w) != s.npos) has = true;
  CHECK_MSG(plain::contains(es, list) == has, "contains is wrong for '%s'", s.c_str());
  std::string quoted = plain::addslashes(es), plainly;
  for (char c : s) { if (c == '\\' || c == '\'' || c == '"') plainly += '\\'; plainly += c; }
  CHECK_MSG(quoted == plainly, "'%s' was quoted as '%s'", s.c_str(), quoted.c_str()); CHECK_MSG(plain::stripslashes(quoted) == s, "'%s' came back from quotes as '%s'", s.c_str(), plain::stripslashes(quoted).c_str());
}

PROPERTY(explode, {.weight = 2}) {
  std::string s = few(src, src.size(0, 24), "ab,;"), key = few(src, src.size(0, 3), ",;a"); bool one = src.flip(), drop = src.flip(); std::vector<std::string> want, got{"left over"};
  if (!s.empty()) {
    std::string item; size_t i = 0;
    while (i < s.size()) { bool at = !key.empty() && (one ? key.find(s[i]) != key.npos : s.compare(i, key.size(), key) == 0); if (at) { want.push_back(item); item.clear(); i += one ? 1 : key.size(); } else item += s[i++]; }
    want.push_back(item); if (drop) std::erase_if(want, [](auto &x) { return x.empty(); });
  }
  src.note("'%s' at '%s'%s%s", s.c_str(), key.c_str(), one ? ", any of its characters" : "", drop ? ", without empty ones" : ""); if (want.size() > 1) src.nontrivial();
  int n = plain::explode(s.c_str(), got, key.c_str(), one, drop); std::string a, b; for (auto &x : got) a += "[" + x + "]"; for (auto &x : want) b += "[" + x + "]";
  CHECK_MSG(got == want && n == int(want.size()), "'%s' at '%s' (%d, %d) gave %d: %s, not %s", s.c_str(), key.c_str(), one, drop, n, a.c_str(), b.c_str());
}

PROPERTY(letters, {.weight = 1}) {
  std::string s = src.ascii(src.size(0, 40)); Exact e(s); std::string lo = s, up = s; for (char &c : lo) if (c >= 'A' && c <= 'Z') c += 32; for (char &c : up) if (c >= 'a' && c <= 'z') c -= 32;
  CHECK_MSG(plain::tolower(e) == lo && plain::toupper(e) == up, "'%s' became '%s' / '%s'", s.c_str(), plain::tolower(e).c_str(), plain::toupper(e).c_str());
  if (s.size() > 2) src.nontrivial();
  bool ok = !s.empty() && s.find_first_of("'\"()=") == s.npos; CHECK_MSG(plain::checkstr(e.p.get(), uint32_t(e.n)) == ok, "checkstr of '%s' is not %d", s.c_str(), ok);
  if (src.chance(1, 10)) {   // long texts, the offending character anywhere or not at all, only a part asked for
    size_t n = 200 + src.size(0, 140000), at = src.below(n), part = src.flip() ? n : src.below(n) + 1; bool has = src.chance(3, 4); std::string big(n, 'x'); if (has) big[at] = src.of(std::vector<char>{'\'', '"', '(', ')', '='}); Exact b(big.substr(0, part)); ok = !has || at >= part;
    CHECK_MSG(plain::checkstr(b.p.get(), uint32_t(b.n)) == ok, "checkstr of %zu bytes, %s at %zu, is not %d", part, has ? "one not allowed" : "none not allowed", at, ok);
  }
}

PROPERTY(wide, {.weight = 1}) {
  static bool utf = setlocale(LC_CTYPE, "C.UTF-8") != nullptr; std::wstring w; size_t n = src.chance(1, 4) ? src.size(0, 1500) : src.size(0, 60);
  for (size_t i = 0; i < n; ++i) { wchar_t c; do c = wchar_t(utf && src.flip() ? src.range(1, 0x10ffff) : src.range(1, 127)); while (c >= 0xd800 && c < 0xe000); w += c; }
  std::string utf8; for (wchar_t c : w) { uint32_t u = uint32_t(c); if (u < 0x80) utf8 += char(u); else if (u < 0x800) { utf8 += char(0xc0 | u >> 6); utf8 += char(0x80 | (u & 63)); } else if (u < 0x10000) { utf8 += char(0xe0 | u >> 12); utf8 += char(0x80 | ((u >> 6) & 63)); utf8 += char(0x80 | (u & 63)); } else { utf8 += char(0xf0 | u >> 18); utf8 += char(0x80 | ((u >> 12) & 63)); utf8 += char(0x80 | ((u >> 6) & 63)); utf8 += char(0x80 | (u & 63)); } }
  src.note("%zu characters, %zu bytes", w.size(), utf8.size()); if (w.size() > 2) src.nontrivial();
  std::string got = plain::wstr2str(w); CHECK_MSG(got == utf8, "%zu characters became %zu bytes, not %zu", w.size(), got.size(), utf8.size());
  Exact e(utf8); std::wstring back = plain::str2wstr(e); CHECK_MSG(back == w, "%zu characters came back as %zu", w.size(), back.size());
}

PROPERTY(numbers, {.weight = 1}) {
  uint64_t v = src.bits(64); src.note("%llu", (unsigned long long)v); src.nontrivial();
  CHECK(plain::toint64(std::to_string(int64_t(v)).c_str()) == int64_t(v)); CHECK(plain::touint64(std::to_string(v).c_str()) == v);
  CHECK(plain::get_highsection(v) == uint32_t(v >> 32) && plain::get_lowsection(v) == uint32_t(v)); CHECK(plain::touint64(uint32_t(v >> 32), uint32_t(v)) == v);
  uint64_t z = v >> src.below(64); std::string t = plain::format_size(z); char *end = nullptr; double d = strtod(t.c_str(), &end); std::string unit = end; static const char *units[] = {"", "k", "M", "G", "T", "P", "E"}; double scale = 1; bool found = false;
  for (auto *u : units) { if (unit == u) { found = true; break; } scale *= 1000; }
  CHECK_MSG(found, "the size %llu is written %s", (unsigned long long)z, t.c_str()); double err = std::abs(d * scale - double(z)) / (z ? double(z) : 1);
  CHECK_MSG(z < 1000 ? t == std::to_string(z) : err <= 0.0051, "the size %llu is written %s", (unsigned long long)z, t.c_str());
  CHECK_MSG(t.size() <= (unit == "E" ? 6u : 5u), "the size %llu is written %s, too long", (unsigned long long)z, t.c_str());
  if (z >= 1000) CHECK_MSG(d >= 1 && (d < 1000 || unit == "E"), "the size %llu is written %s", (unsigned long long)z, t.c_str());
}

PROPERTY(paths, {.weight = 2, .max_cases = 60000}) {
  std::string p = few(src, src.size(0, 20), "ab/\\."); src.note("'%s'", p.c_str()); if (p.size() > 2) src.nontrivial();
  std::string ux = p, wn = p; for (char &c : ux) if (c == '\\') c = '/'; for (char &c : wn) if (c == '/') c = '\\';
  { std::string t = p; plain::path_tounix(t.data(), uint16_t(t.size())); CHECK(t == ux); t = p; plain::path_towindows(t.data(), uint16_t(t.size())); CHECK(t == wn); }
  { std::string save(p.size() + 1, '#'); Exact e(save); plain::dirname(p.c_str(), e.p.get()); size_t at = ux.rfind('/'); std::string want = at == ux.npos ? "" : ux.substr(0, at); CHECK_MSG(want == e.p.get(), "the directory of '%s' is '%s', not '%s'", p.c_str(), e.p.get(), want.c_str()); }
  { char delim = src.flip() ? '/' : '\\'; size_t room = p.size() + 1 + src.below(3); Exact e(std::string(room, '#')); strcpy(e.p.get(), p.c_str()); if (delim == '/') plain::complementpath(e.p.get(), room); else plain::complementpath(e.p.get(), room, delim);
    size_t len = strnlen(e.p.get(), room); CHECK_MSG(len < room, "'%s' completed in %zu bytes is not terminated", p.c_str(), room); std::string got(e.p.get(), len);
    if (!p.empty() && room >= p.size() + 2) CHECK_MSG(got == (p.back() == delim ? p : p + delim), "'%s' was completed to '%s'", p.c_str(), got.c_str()); else CHECK_MSG(got == p || got == p + delim, "'%s' was completed to '%s'", p.c_str(), got.c_str()); }
  { std::string text = src.ascii(src.size(0, 20)); size_t room = 1 + src.below(25); Exact e(std::string(room, '#')); plain::safecopy(e.p.get(), text.c_str(), room); CHECK_MSG(text.substr(0, room - 1) == e.p.get(), "copying '%s' into %zu bytes gave '%s'", text.c_str(), room, e.p.get()); }
}

// Directories are made with all their parents, by any number of threads at once.
PROPERTY(makedir, {.weight = 1, .max_cases = 4000}) {
  std::string base = "mk" + std::to_string(getpid()); fs::remove_all(base); std::string path = base; int depth = 1 + int(src.below(5));
  for (int i = 0; i < depth; ++i) path += std::string(src.chance(1, 6) ? "//" : src.chance(1, 6) ? "\\" : "/") + few(src, 1 + src.size(0, 6), "abc."); if (src.flip()) path += "/";
  std::string ux = path; for (char &c : ux) if (c == '\\') c = '/'; if (ux.find("/.") != ux.npos) { for (size_t i = 0; i + 1 < ux.size(); ++i) if (path[i + 1] == '.' && ux[i] == '/') path[i + 1] = ux[i + 1] = 'd'; }
  bool blocked = src.chance(1, 6), dflt = src.flip(); int mode = dflt ? 0755 : 0700 | int(src.bits(6)); int threads = src.chance(1, 3) ? 3 : 1; src.note("'%s' mode %o, %d threads%s", path.c_str(), unsigned(mode), threads, blocked ? ", blocked by a file" : ""); src.nontrivial();
  if (blocked) { FILE *f = fopen(base.c_str(), "w"); fclose(f); }
  mode_t old = umask(022); std::vector<int> ok(threads, -1); { std::vector<std::thread> th; for (int i = 0; i < threads; ++i) th.emplace_back([&, i] { ok[i] = dflt ? plain::makedir(path.c_str()) : plain::makedir(path.c_str(), uint16_t(mode)); }); for (auto &t : th) t.join(); } umask(old);
  struct stat st{}; bool is = stat(ux.c_str(), &st) == 0 && S_ISDIR(st.st_mode); struct stat sb{}; bool bs = stat(base.c_str(), &sb) == 0; fs::remove_all(base);
  for (int i = 0; i < threads; ++i) CHECK_MSG(ok[i] == (blocked ? 0 : 1), "making '%s' returned %d to one of %d threads", path.c_str(), ok[i], threads);
  if (blocked) { CHECK(!is); return; }
  CHECK_MSG(is, "'%s' was not made", path.c_str()); unsigned want = unsigned(mode) & ~022u; CHECK_MSG((st.st_mode & 07777) == want && bs && (sb.st_mode & 07777) == want, "'%s' was made with mode %o and its parent %o, not %o", path.c_str(), st.st_mode & 07777, sb.st_mode & 07777, want);
}
PROPERTY(makedir_long, {.weight = 1, .max_cases = 300}) {
  std::string base = "ml" + std::to_string(getpid()), path = base; size_t n = src.chance(1, 5) ? 0 : 3900 + src.size(0, 300); src.nontrivial(); while (path.size() < n) path += "/" + std::string(std::min<size_t>(200, n - path.size()), 'q'); if (n == 0) path.clear();
  Exact e(path + std::string(1, '\0')); bool r = plain::makedir(e.p.get()); struct stat st; bool is = !path.empty() && stat(path.c_str(), &st) == 0; fs::remove_all(base); CHECK_MSG(r == is, "making a path of %zu bytes returned %d but it is%s there", path.size(), int(r), is ? "" : " not"); src.note("%zu bytes", path.size());
}
