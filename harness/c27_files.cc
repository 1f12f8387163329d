// Descriptors, files and appended files against a model of their content.
#include "pbt.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <vector>
#include "plain/file/api.h"
#include "plain/file/utility.h"

using pbt::Src;
namespace {
std::string slurp(const std::string &n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
constexpr uint32_t kFailed = uint32_t(-1);
// An open file: what descriptors made by dup share.
struct Open { std::shared_ptr<std::string> data; uint64_t pos = 0; bool rd = true, wr = true, app = false, nb = false; };
struct Fds {
  std::map<int, std::shared_ptr<Open>> live; ~Fds() { for (auto &[fd, o] : live) ::close(fd); }
  int any(Src &s) { auto i = live.begin(); std::advance(i, long(s.below(live.size()))); return i->first; }
};
struct Files {
  std::string dir; std::map<std::string, std::shared_ptr<std::string>> at;
  Files() { dir = "files" + std::to_string(getpid()); ::mkdir(dir.c_str(), 0700); for (auto n : names()) ::unlink((dir + "/" + n).c_str()); }
  ~Files() { for (auto n : names()) ::unlink((dir + "/" + n).c_str()); ::rmdir(dir.c_str()); }
  static std::vector<std::string> names() { return {"a", "b", "c d"}; }
};
std::string content(Src &s, size_t max) { return s.flip() ? s.bytes(s.size(0, 40)) : s.bytes(8) + std::string(s.size(0, max), char('a' + s.below(26))); }
}  // namespace

PROPERTY(file_history, pbt::Options{.weight = 4}) {
  ::umask(022); Files w; Fds f; pbt::Src::Loop loop(src, 80); size_t moves = 0;
  auto put = [](Open &o, const std::string &d) { if (d.empty()) return; if (o.app) o.pos = o.data->size(); if (o.data->size() < o.pos) o.data->resize(o.pos); o.data->replace(o.pos, std::min(d.size(), o.data->size() - o.pos), d); o.pos += d.size(); };
  while (loop.more()) {
    size_t op = f.live.empty() ? 0 : 1 + src.pick({2, 4, 4, 3, 2, 2, 2, 2, 1, 2, 1}); if (op == 1) op = 0;
    if (op == 0) {
      if (f.live.size() > 6) continue;
      std::string n = src.of(Files::names()), path = w.dir + "/" + n; bool there = w.at.count(n); int how = int(src.below(3)), flag = how == 0 ? O_RDONLY : how == 1 ? O_WRONLY : O_RDWR; bool creat = src.chance(2, 3), trunc = how != 0 && src.chance(1, 4), excl = creat && src.chance(1, 4), app = how != 0 && src.chance(1, 4), nb = src.chance(1, 5); if (trunc) flag |= O_TRUNC; if (app) flag |= O_APPEND; if (nb) flag |= O_NONBLOCK; if (creat) flag |= O_CREAT; if (excl) flag |= O_EXCL;
      int mode = src.flip() ? 0600 : 0640; int fd = creat || src.flip() ? plain::openmode(path.c_str(), flag, mode) : plain::open(path.c_str(), flag); bool want = there ? !excl : creat; src.note("open %s flags %x -> %d", n.c_str(), flag, fd);
      CHECK_MSG((fd >= 0) == want, "opening a file that is %sthere with flags %x gives %d", there ? "" : "not ", flag, fd); if (!want) { CHECK_MSG(fd == -1, "a file not opened gives %d", fd); continue; }
      CHECK_MSG(!f.live.count(fd), "descriptor %d was given twice", fd); if (!there) { w.at[n] = std::make_shared<std::string>(); struct stat st; CHECK(::stat(path.c_str(), &st) == 0); CHECK_MSG(int(st.st_mode & 07777) == (mode & ~022 & 0777), "the new file has the mode %o, not %o", st.st_mode & 07777, mode); } if (trunc) w.at[n]->clear();
      auto o = std::make_shared<Open>(); o->data = w.at[n]; o->rd = how != 1; o->wr = how != 0; o->app = app; o->nb = nb; f.live[fd] = o; continue;
    }
    int fd = f.any(src); Open &o = *f.live[fd];
    switch (op) {
      case 2: case 3: if (op == 2) { // read
        uint32_t n = uint32_t(src.flip() ? src.size(0, 60) : src.size(0, 20000)); std::unique_ptr<char[]> b(new char[n]); uint32_t k = plain::read(fd, b.get(), n); src.note("read %d %u -> %u", fd, n, k); if (!o.rd) { CHECK_MSG(k == kFailed, "reading what is open for writing gives %u", k); break; }
        std::string want = o.pos < o.data->size() ? o.data->substr(o.pos, n) : ""; CHECK_MSG(k == want.size() && memcmp(b.get(), want.data(), k) == 0, "reading %u bytes at %llu gives %u other than %zu", n, (unsigned long long)o.pos, k, want.size()); o.pos += k; moves += k > 0; break;
      } else { // write
        std::string d = content(src, 20000); uint32_t k = plain::write(fd, d.data(), uint32_t(d.size())); src.note("write %d %zu -> %u", fd, d.size(), k); if (!o.wr) { CHECK_MSG(k == kFailed, "writing to what is open for reading gives %u", k); break; } CHECK_MSG(k == d.size(), "writing %zu bytes gives %u", d.size(), k); put(o, d); moves += k > 0; break; }
      case 4: { if (src.chance(1, 8)) { // far away and back
          int64_t far = int64_t(src.bits(42)); CHECK_MSG(plain::lseek(fd, uint64_t(far), SEEK_SET) == far && plain::tell(fd) == far, "moving to %lld leads to %lld", (long long)far, (long long)plain::tell(fd)); CHECK_MSG(plain::lseek(fd, uint64_t(-(far / 2)), SEEK_CUR) == far - far / 2, "moving back from %lld by half leads to %lld", (long long)far, (long long)plain::tell(fd)); char c; if (o.rd && far / 2 > int64_t(o.data->size())) CHECK(plain::read(fd, &c, 1) == 0); CHECK(plain::lseek(fd, o.pos, SEEK_SET) == int64_t(o.pos)); src.note("far %lld", (long long)far); break; }
        int wh = int(src.below(3)); int64_t base = wh == 0 ? 0 : wh == 1 ? int64_t(o.pos) : int64_t(o.data->size()), off = wh == 0 ? int64_t(src.size(0, 30000)) : src.range(-int64_t(src.flip() ? base : 20000), 2000), want = base + off; static const int whence[] = {SEEK_SET, SEEK_CUR, SEEK_END}; int64_t k = plain::lseek(fd, uint64_t(off), whence[wh]); src.note("lseek %d %lld %d -> %lld", fd, (long long)off, wh, (long long)k); CHECK_MSG(k == (want < 0 ? -1 : want), "moving from %lld by %lld gives %lld", (long long)base, (long long)off, (long long)k); if (want >= 0) o.pos = uint64_t(want); break; }
      case 5: { int64_t k = plain::tell(fd); CHECK_MSG(k == int64_t(o.pos), "the position told is %lld, not %llu", (long long)k, (unsigned long long)o.pos); break; }
      case 6: { uint32_t k = plain::available(fd); if (o.pos <= o.data->size()) CHECK_MSG(k == o.data->size() - o.pos, "%u bytes are said to be available, %zu are", k, size_t(o.data->size() - o.pos)); break; }
      case 7: { if (f.live.size() > 8) break; int d = plain::dup(fd); CHECK_MSG(d >= 0 && !f.live.count(d), "descriptor %d duplicated is %d", fd, d); f.live[d] = f.live[fd]; src.note("dup %d -> %d", fd, d); break; }
      case 8: { bool on = src.flip(); CHECK(plain::set_nonblocking(fd, on)); o.nb = on; src.note("nonblocking %d %d", fd, on); break; }
      case 9: { std::string n = src.of(Files::names()), path = w.dir + "/" + n; CHECK(plain::truncate(path.c_str())); if (!w.at.count(n)) w.at[n] = std::make_shared<std::string>(); w.at[n]->clear(); CHECK(!plain::truncate((w.dir + "/no/" + n).c_str())); src.note("truncate %s", n.c_str()); break; }
      case 10: case 11: { plain::close(fd); f.live.erase(fd); src.note("close %d", fd);
        char b[4]; CHECK_MSG(plain::read(fd, b, 4) == kFailed && plain::write(fd, b, 4) == kFailed, "a closed descriptor is read or written"); CHECK(plain::lseek(fd, 0, SEEK_SET) == -1 && plain::tell(fd) == -1 && plain::dup(fd) == -1 && plain::fcntl(fd, F_GETFL) == -1 && plain::available(fd) == 0); CHECK_MSG(!plain::get_nonblocking(fd) && !plain::set_nonblocking(fd, true), "a closed descriptor is said to be nonblocking"); break; }
    }
    for (auto &[d, p] : f.live) CHECK_MSG(plain::get_nonblocking(d) == p->nb, "descriptor %d is said to be %sblocking", d, p->nb ? "" : "non");
    for (auto &[d, p] : f.live) { int fl = plain::fcntlarg(d, F_GETFL, 0); CHECK_MSG(bool(fl & O_APPEND) == p->app && (fl & O_ACCMODE) == (!p->wr ? O_RDONLY : !p->rd ? O_WRONLY : O_RDWR), "the flags of descriptor %d have become %x", d, fl); }
  }
  for (auto &[n, d] : w.at) { std::string got = slurp(w.dir + "/" + n); CHECK_MSG(got == *d, "file %s holds %zu bytes other than the %zu written", n.c_str(), got.size(), d->size()); }
  src.steps(loop.count()); if (moves >= 2) src.nontrivial();
}

// Pipes: what is available, and what would block.
PROPERTY(pipe_history, pbt::Options{.weight = 1}) {
  int p[2]; CHECK(::pipe(p) == 0); std::string q; bool nb = true; CHECK(plain::set_nonblocking(p[0], true)); CHECK(plain::set_nonblocking(p[1], true)); pbt::Src::Loop loop(src, 40); size_t moved = 0;
  while (loop.more()) switch (src.below(4)) {
    case 0: { std::string d = content(src, 3000); uint32_t k = plain::write(p[1], d.data(), uint32_t(d.size())); if (q.size() + d.size() < 4096) CHECK_MSG(k == d.size(), "%zu bytes written to a pipe gives %u", d.size(), k); if (k == kFailed) { CHECK(errno == EAGAIN); break; } CHECK(k <= d.size()); q += d.substr(0, k); moved += k; break; }
    case 1: { uint32_t n = uint32_t(src.size(1, 4000)); std::unique_ptr<char[]> b(new char[n]); if (q.empty() && !nb) break; uint32_t k = plain::read(p[0], b.get(), n); if (q.empty()) { CHECK_MSG(k == kFailed && errno == EAGAIN, "reading an empty pipe gives %u", k); break; } CHECK_MSG(k == std::min<size_t>(n, q.size()) && memcmp(b.get(), q.data(), k) == 0, "reading %u of %zu bytes gives %u", n, q.size(), k); q.erase(0, k); break; }
    case 2: CHECK_MSG(plain::available(p[0]) == q.size(), "%u bytes are said to be available, %zu are", plain::available(p[0]), q.size()); { int n = 0; CHECK(plain::ioctl(p[0], FIONREAD, &n) == 0 && size_t(n) == q.size()); } break;
    case 3: nb = src.flip(); CHECK(plain::set_nonblocking(p[0], nb)); CHECK(plain::get_nonblocking(p[0]) == nb && plain::get_nonblocking(p[1])); break;
  }
  plain::close(p[1]); while (!q.empty()) { char b[4096]; uint32_t k = plain::read(p[0], b, sizeof b); CHECK_MSG(k != kFailed && k > 0 && k <= q.size() && memcmp(b, q.data(), k) == 0, "what was written last cannot be read"); q.erase(0, k); } char c; CHECK_MSG(plain::read(p[0], &c, 1) == 0, "the end of a pipe is not 0"); plain::close(p[0]); CHECK(::fcntl(p[0], F_GETFD) == -1 && ::fcntl(p[1], F_GETFD) == -1); src.steps(loop.count()); if (moved) src.nontrivial();
}

// Appending: everything, in order, after what was there; a slice is a name.
PROPERTY(appended, pbt::Options{.weight = 2, .batch = 100}) {
  std::string name = "app" + std::to_string(getpid()) + "x", whole; ::unlink(name.c_str()); if (src.flip()) { whole = content(src, 500); std::ofstream(name, std::ios::binary) << whole; }
  int lives = 1 + int(src.below(3)); size_t n = 0;
  for (int l = 0; l < lives; ++l) {
    std::string more = name + (src.flip() ? ".more" : "/"); std::unique_ptr<plain::FileAppend> a(src.flip() ? new plain::FileAppend(std::string_view(more).substr(0, name.size())) : new plain::FileAppend(name)); uint64_t bytes = 0; pbt::Src::Loop loop(src, 40);
    while (loop.more()) {
      if (src.chance(1, 4)) { a->flush(); std::string got = slurp(name); CHECK_MSG(got == whole, "after a flush the file holds %zu bytes other than the %zu appended", got.size(), whole.size()); }
      else { std::string d = content(src, src.chance(1, 6) ? 200000 : 2000), around = d + "tail"; a->append(std::string_view(around).substr(0, d.size())); whole += d; bytes += d.size(); ++n; }
      CHECK_MSG(uint64_t(a->written_bytes()) == bytes, "%lld bytes are said to be written, %llu were", (long long)a->written_bytes(), (unsigned long long)bytes);
    }
    a.reset(); std::string got = slurp(name); CHECK_MSG(got == whole, "in the end the file holds %zu bytes other than the %zu appended", got.size(), whole.size());
  }
  ::unlink(name.c_str()); src.steps(n); if (n >= 2) src.nontrivial();
}
