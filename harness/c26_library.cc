// Shared libraries found by name on search paths, and the process helpers.
#include "pbt.h"
#include <algorithm>
#include <csignal>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/engine/kernel.h"
#include "plain/file/library.h"
#include "plain/sys/process.h"
#include "plain/sys/utility.h"

using namespace plain;
using pbt::Src;
namespace fs = std::filesystem;
namespace {
struct Hush { std::streambuf *old; struct Null : std::streambuf { int overflow(int c) override { return c; } } null; Hush() : old(std::cout.rdbuf(&null)) { Logger::set_output([](const std::string_view &) {}); } ~Hush() { std::cout.rdbuf(old); } };

// Library number k says who it is, has a symbol of its own and counts how it was opened.
constexpr int kKinds = 4;
const std::vector<std::string> kOpens = {"a", "b", "ab", "liba"};
std::string library(int k) {
  std::string home = fs::absolute("tpl" + std::to_string(k) + ".so").string();
  if (fs::exists(home)) return home;
  std::string base = home + "." + std::to_string(getpid()), n = std::to_string(k);
  { std::ofstream f(base + ".c");
    f << "static int opened; static void *kern, *par; static const char *by = \"\";\n"
      << "int vp_id(void) { return " << n << "; }\nint vp_opened(void) { return opened; }\nvoid *vp_kern(void) { return kern; }\nvoid *vp_par(void) { return par; }\nconst char *vp_by(void) { return by; }\n"
      << "int vp_only_" << n << " = " << n << ";\nint _vp_under(void) { return 100 + " << n << "; }\n";
    if (k != 3) for (auto &o : kOpens) f << "void plainopen_" << o << "(void *k, void *p) { ++opened; kern = k; par = p; by = \"" << o << "\"; }\n"; }
  std::string cmd = "gcc -shared -fPIC -O1 -o " + base + " " + base + ".c 2>/dev/null";
  if (system(cmd.c_str()) != 0) pbt::inconclusive("the sample library could not be compiled");
  fs::remove(base + ".c"); fs::rename(base, home); return home;
}
struct Dir {
  std::string old, name; std::vector<std::string> sub{"d0/", "d1/", "d2/"};
  Dir() { for (int k = 0; k < kKinds; ++k) library(k); old = fs::current_path().string(); name = old + "/lib" + std::to_string(getpid()); fs::remove_all(name); fs::create_directory(name); tpl = old; for (auto &d : sub) fs::create_directories(name + "/" + d); if (chdir(name.c_str())) {} }
  ~Dir() { if (chdir(old.c_str())) {} fs::remove_all(name); }
  std::string tpl;
};
// What lies at a path: a library 0..3, something that is none (-1), or nothing (-2).
struct World {
  Dir dir; std::map<std::string, int> at;
  std::map<std::string, int> refs; std::set<std::string> global; std::map<std::string, int> opened;
  void put(Src &s) {
    static const std::vector<std::string> names{"a.so", "liba.so", "b.so", "libb.so", "ab.so", "libab.so", "liba.so.1", "a.so.1", "b.so.1.2", "a.sox.so", "liba.sox.so", "a.sox", "liba", "a", "a.so.so", ".so", "lib.so"};
    std::string p = s.of(dir.sub) + s.of(names); if (at.count(p)) return;
    int what = s.chance(1, 5) ? -1 : int(s.below(kKinds)); at[p] = what;
    if (what >= 0) fs::copy_file(dir.tpl + "/tpl" + std::to_string(what) + ".so", p);
    else switch (s.below(4)) { case 0: { std::ofstream f(p); f << "not a library"; break; } case 1: fs::create_directory(p); break; case 2: { std::ofstream f(p); break; } default: fs::create_symlink("nowhere", p); }
    s.note("put %s %d", p.c_str(), what);
  }
  int what(const std::string &p) { auto i = at.find(p); return i == at.end() ? -2 : i->second; }
  static std::string suffixed(const std::string &n) {
    size_t p = n.rfind(".so"); if (p == std::string::npos) return n + ".so";
    if (p + 3 == n.size() || n[p + 3] == '.') return n;
    return n + ".so";
  }
  // Where this name is found below this path ("" = nowhere).
  std::string find(const std::string &path, const std::string &file, bool prefix) {
    if (what(path + file) >= 0) return path + file;
    if (prefix && file.substr(0, 3) != "lib" && what(path + "lib" + file) >= 0) return path + "lib" + file;
    return "";
  }
  void take(const std::string &p, bool glb) { ++refs[p]; if (glb) global.insert(p); }
  void drop(const std::string &p) { if (--refs[p] == 0) { refs.erase(p); global.erase(p); opened.erase(p); } }
  void check(const char *when) {
    for (auto &[p, k] : at) if (k >= 0) {
      void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_NOLOAD); if (h) dlclose(h);
      CHECK_MSG((h != nullptr) == (refs.count(p) > 0), "%s: %s is%s in the process", when, p.c_str(), h ? "" : " not");
    }
  }
  // Which libraries' symbols everybody sees. Looking one up ties its library to
  // the process for good, so a child looks.
  void seen(const char *when) {
    int bits = 0; fflush(nullptr); pid_t p = fork();
    if (p == 0) { for (int k = 0; k < kKinds; ++k) if (dlsym(RTLD_DEFAULT, ("vp_only_" + std::to_string(k)).c_str())) bits |= 1 << k; _exit(bits); }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p || !WIFEXITED(st)) return; bits = WEXITSTATUS(st);
    for (int k = 0; k < kKinds; ++k) {
      bool want = false, is = bits >> k & 1; for (auto &q : global) if (at[q] == k) want = true;
      CHECK_MSG(is == want, "%s: symbols of library %d are%s seen by everybody", when, k, is ? "" : " not");
    }
  }
};
int call(void *f) { return reinterpret_cast<int (*)()>(f)(); }
const std::vector<std::string> kAsk{"a", "b", "ab", "liba", "a.so", "libb.so", "a.so.1", "liba.so.1", "a.sox", "a.so.so", "b.so.1.2", "x", "", "a.s", "lib", "so"};
std::string ask(Src &s) { return s.chance(1, 20) ? std::string(200 + s.below(200), 'n') : s.of(kAsk); }
}  // namespace

// One library object: found where it lies, held once, let go entirely.
PROPERTY(library, {.weight = 3, .max_cases = 40000}) {
  Hush hush; World w; int files = 1 + int(src.below(14)); for (int i = 0; i < files; ++i) w.put(src);
  {
    Library lib; std::string path = "d0/", file, held; lib.set_path(path); bool named = false; Src::Loop l(src, 40); int loads = 0;
    while (l.more()) {
      switch (src.pick({4, 2, 3, 2, 2, 1})) {
        case 0: {
          if (!named) { std::string n = ask(src); lib.set_filename(n); file = World::suffixed(n); named = true; }
          bool pre = src.chance(3, 4), glb = src.chance(1, 3); std::string hit = held.empty() ? w.find(path, file, pre) : held; bool r = lib.load(pre, glb);
          src.note("load %s%s: %d", path.c_str(), file.c_str(), int(r)); CHECK_MSG(r == !hit.empty(), "loading %s from %s%s %s", file.c_str(), path.c_str(), pre ? " with the prefix tried" : "", r ? "worked, but there is no such library" : "failed, although it is there");
          if (held.empty()) {
            if (!hit.empty()) { w.take(hit, glb); held = hit; file = hit.substr(path.size()); if (++loads > 1) src.nontrivial(); CHECK_MSG(lib.errorstr().empty(), "an error is left after loading: %s", lib.errorstr().c_str()); }
            else if (w.what(path + file) == -1 && !fs::is_symlink(path + file)) CHECK_MSG(!lib.errorstr().empty(), "no error is told for a file that is no library");
          }
          break;
        }
        case 1: { std::string n = ask(src); lib.set_filename(n); file = World::suffixed(n); named = true; break; }
        case 2: { bool r = lib.unload(); CHECK(r); if (!held.empty()) { w.drop(held); held.clear(); } src.note("unload"); break; }
        case 3: {
          void *f = lib.resolve("vp_id"); CHECK_MSG((f != nullptr) == !held.empty(), "a symbol of the library was%s found", f ? "" : " not"); if (f) CHECK_MSG(call(f) == w.at[held], "library %d answered, not %d", call(f), w.at[held]);
          void *u = lib.resolve("vp_under"); CHECK_MSG((u != nullptr) == !held.empty() && (!u || call(u) == 100 + w.at[held]), "the underscored symbol was not resolved"); CHECK(lib.resolve("vp_under", false) == nullptr);
          void *m = lib.resolve(src.flip() ? "vp_none" : "vp_only_9"); CHECK_MSG(!m && !lib.errorstr().empty(), "a symbol that is not there was found");
          if (held.empty()) CHECK_MSG(!lib.resolve("malloc"), "a library that is not loaded gave a symbol of the process");
          break;
        }
        case 4: path = src.of(w.dir.sub); lib.set_path(path); break;
        default: w.put(src);
      }
      CHECK_MSG(lib.isloaded() == !held.empty(), "the library says it is%s loaded", lib.isloaded() ? "" : " not");
      if (named) CHECK_MSG(lib.filename() == file, "the file name is %s, not %s", lib.filename().c_str(), file.c_str());
      w.check("meanwhile"); if (src.chance(1, 12)) w.seen("meanwhile"); src.steps(1);
    }
  }
  w.refs.clear(); w.global.clear(); w.check("after the end");
}

// The manager: names, search paths, one load per name, the entry function.
PROPERTY(manager, {.weight = 4, .max_cases = 40000}) {
  Hush hush; World w; int files = 1 + int(src.below(16)); for (int i = 0; i < files; ++i) w.put(src);
  {
    bool usual = src.chance(1, 4); std::string base = w.dir.name + (src.flip() ? "/" : ""); GLOBALS["app.basepath"] = base; if (base.back() != '/') base += '/';
    LibraryManager man; std::vector<std::string> paths; std::map<std::string, std::vector<std::string>> names; std::map<std::string, std::string> have;
    if (usual) {
      auto p = man.get_searchpaths(); bool plug = std::find(p.begin(), p.end(), base + "plugins/") != p.end(), own = std::find(p.begin(), p.end(), base) != p.end();
      CHECK_MSG(plug && own, "the base path and its plugins are not searched");
    }
    man.set_searchpaths({}); CHECK(man.get_searchpaths().empty()); for (auto &d : w.dir.sub) if (src.chance(3, 4)) { paths.push_back(d); } man.set_searchpaths(paths);
    static const std::vector<std::string> onlys{"a", "b", "ab", "liba", "a.so.1", "zz"};
    variable_array_t params; int np = int(src.below(3)); for (int i = 0; i < np; ++i) params.emplace_back(i); int loads = 0;
    Src::Loop l(src, 60);
    while (l.more()) {
      switch (src.pick({8, 4, 3, 2, 1, 2, 2, 2})) {
        case 0: {
          std::string n = src.chance(1, 3) ? src.of(onlys) : ask(src); bool glb = src.chance(1, 3), again = have.count(n); std::string hit = again ? have[n] : "";
          if (!again) { auto list = names[n]; if (list.empty()) list.push_back(n); for (auto &x : list) { for (auto &p : paths) if (!(hit = w.find(p, World::suffixed(x), true)).empty()) break; if (!hit.empty()) break; } }
          bool r = man.load(n, glb, params); src.note("load %s: %d", n.c_str(), int(r));
          CHECK_MSG(r == !hit.empty(), "loading %s %s", n.c_str(), r ? "worked, but it is nowhere on the paths" : ("failed, although it is at " + hit).c_str());
          if (r && !again) {
            have[n] = hit; w.take(hit, glb); if (++loads > 1) src.nontrivial();
            Library *lib = man.get(n); CHECK(lib && lib->isloaded()); CHECK_MSG(call(lib->resolve("vp_id")) == w.at[hit], "%s is library %d, not the first on the paths (%d)", n.c_str(), call(lib->resolve("vp_id")), w.at[hit]);
            std::string stem = n.substr(0, n.find('.')); bool enters = w.at[hit] != 3 && std::find(kOpens.begin(), kOpens.end(), stem) != kOpens.end(); if (enters) ++w.opened[hit];
            if (enters) {
              auto str = reinterpret_cast<const char *(*)()>(lib->resolve("vp_by")); CHECK_MSG(stem == str(), "%s entered as %s", n.c_str(), str());
              auto ptr = reinterpret_cast<void *(*)()>(lib->resolve("vp_par")); CHECK_MSG(ptr() == &params, "the parameters did not reach %s", n.c_str());
              auto ker = reinterpret_cast<void *(*)()>(lib->resolve("vp_kern")); CHECK_MSG(ker() == ENGINE.get(), "the engine did not reach %s", n.c_str());
            }
          }
          break;
        }
        case 1: { std::string n = src.chance(1, 3) || have.empty() ? src.of(onlys) : std::next(have.begin(), long(src.below(have.size())))->first; bool r = man.unload(n); CHECK_MSG(r, "%s could not be unloaded", n.c_str()); if (have.count(n)) { w.drop(have[n]); have.erase(n); } src.note("unload %s", n.c_str()); break; }
        case 2: { std::string n = src.of(onlys); std::vector<std::string> v; for (size_t i = src.below(4); i > 0; --i) v.push_back(ask(src)); man.set_librarynames(n, v); names[n] = v; src.note("%zu names for %s", v.size(), n.c_str()); break; }
        case 3: { std::string n = src.of(onlys); std::vector<std::string> v; for (size_t i = 1 + src.below(2); i > 0; --i) v.push_back(names[n].empty() || src.chance(1, 4) ? ask(src) : names[n][src.below(names[n].size())]); man.remove_librarynames(n, v); auto &t = names[n]; t.erase(std::remove_if(t.begin(), t.end(), [&](auto &x) { return std::find(v.begin(), v.end(), x) != v.end(); }), t.end()); break; }
        case 4: { paths.clear(); for (size_t i = src.below(4); i > 0; --i) { paths.push_back(src.of(w.dir.sub)); } man.set_searchpaths(paths); break; }
        case 5: { std::vector<std::string> v; for (size_t i = 1 + src.below(2); i > 0; --i) v.push_back(src.of(w.dir.sub)); man.add_searchpaths(v); for (auto &x : v) if (std::find(paths.begin(), paths.end(), x) == paths.end()) paths.push_back(x); break; }
        case 6: { std::vector<std::string> v{src.of(w.dir.sub)}; man.remove_searchpaths(v); paths.erase(std::remove(paths.begin(), paths.end(), v[0]), paths.end()); break; }
        default: w.put(src);
      }
      CHECK_MSG(man.get_searchpaths() == paths, "the search paths are not those set");
      for (auto &o : onlys) CHECK_MSG(man.get_librarynames(o) == names[o], "the names of %s are not those set", o.c_str());
      for (auto &o : kAsk) { Library *p = man.get(o); CHECK_MSG((p != nullptr) == (have.count(o) > 0), "%s is%s there", o.c_str(), p ? "" : " not"); if (p) { CHECK(p->isloaded()); CHECK_MSG(call(p->resolve("vp_opened")) == w.opened[have[o]], "the library of %s was entered %d times, not %d", o.c_str(), call(p->resolve("vp_opened")), w.opened[have[o]]); } }
      w.check("meanwhile"); if (src.chance(1, 12)) w.seen("meanwhile"); src.steps(1);
    }
  }
  w.refs.clear(); w.global.clear(); w.check("after the end");
}

// The file with the process id.
PROPERTY(pid_file, {.weight = 1, .max_cases = 20000}) {
  std::string name = "pid" + std::to_string(getpid()) + "x"; fs::remove(name); int32_t want = -1;
  switch (src.below(4)) {
    case 0: CHECK(process::writeid(name.c_str())); want = getpid(); CHECK(process::getid() == getpid()); if (src.flip()) { std::string other = "nodir/" + name; CHECK(!process::writeid(other.c_str())); } src.nontrivial(); break;
    case 1: { int32_t v = int32_t(src.range(0, 999999999)); std::string t = std::string(src.below(3), src.flip() ? ' ' : '\n') + std::to_string(v) + (src.flip() ? "\n" : src.flip() ? " 77" : "x"); { std::ofstream f(name); f << t; } want = v; if (src.flip()) { CHECK(process::writeid(name.c_str())); want = getpid(); } src.nontrivial(); break; }
    case 2: { std::ofstream f(name); std::string t; for (size_t i = src.size(0, 12); i > 0; --i) t += "abc \n.:"[src.below(7)]; f << t; if (!t.empty()) src.nontrivial(); break; }
    default: break;
  }
  int32_t got = process::getid(name.c_str()); fs::remove(name); CHECK_MSG(got == want, "the process id read is %d, not %d", got, want);
}

// The first line a command prints, whatever the room.
PROPERTY(exec_line, {.weight = 1, .max_cases = 400}) {
  std::string text; for (size_t i = src.size(0, 60); i > 0; --i) text += "abc 019%:/_-"[src.below(12)]; std::string more = src.flip() ? "\\nsecond" : "", arg = text; if (src.flip()) more += "\\n";
  size_t size = 1 + (src.flip() ? text.size() : src.size(0, 80)); std::unique_ptr<char[]> r(new char[size]); memset(r.get(), 0, size); std::string cmd = "printf '%s" + more + "' '" + arg + "'"; if (src.chance(1, 3)) { cmd = ": " + std::string(src.size(0, 3000), 'y') + "; " + cmd; src.label("long command"); }
  CHECK(exec(cmd.c_str(), r.get(), size) == 0); std::string want = text + (more.empty() ? "" : "\n"); if (text.size() > 2) src.nontrivial();
  CHECK_MSG(strnlen(r.get(), size) < size && want.substr(0, size - 1) == r.get(), "the first line in %zu bytes is '%s', not '%s'", size, std::string(r.get(), strnlen(r.get(), size)).c_str(), want.c_str());
  // The memory of a process at rest, as the system tells it.
  if (src.chance(1, 8)) {
    pid_t p = fork(); if (p == 0) { for (;;) pause(); } if (p < 0) return;
    auto vm = [&](const char *key) { std::ifstream f("/proc/" + std::to_string(p) + "/status"); std::string k; uint64_t v = 0; while (f >> k) { if (k == key) { f >> v; break; } } return v * 1024; };
    usleep(2000); uint64_t before = vm("VmSize:"); process::info_t info{}; process::get_info(p, info); uint64_t after = vm("VmSize:"), rss = vm("VmRSS:"); kill(p, SIGKILL); waitpid(p, nullptr, 0);
    if (before == after && before) CHECK_MSG(info.VSZ == before && info.id == p && info.RSS <= 2 * rss + (1 << 20) && 2 * info.RSS + (1 << 20) >= rss, "a process is said to have %llu bytes, not %llu (resident %llu, not %llu)", (unsigned long long)info.VSZ, (unsigned long long)before, (unsigned long long)info.RSS, (unsigned long long)rss);
  }
  char big[4200]; memset(big, 1, sizeof big); process::get_filename(big, sizeof big); std::string self = fs::read_symlink("/proc/self/exe").string(); CHECK_MSG(self + ".pid" == big, "the pid file is %s", big);
  size_t room = src.flip() ? self.size() - 3 + src.below(12) : 1 + src.below(self.size() + 8); std::unique_ptr<char[]> rr(new char[room]); process::get_filename(rr.get(), room); CHECK_MSG((self + ".pid").substr(0, room - 1) == rr.get(), "the pid file name in %zu bytes is wrong", room);
}
