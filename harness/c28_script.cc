// Script environments: their ids, who they are, and when they end.
#include "pbt.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "plain/script/interface.h"
#include "plain/script/factory.h"

using pbt::Src;
using namespace plain;
namespace {
struct Env : script::Interface {
  static inline std::set<Env *> alive; static inline Env *last = nullptr; std::string root, work; int made; int released = 0;
  explicit Env(int m) : made(m) { alive.insert(this); last = this; }
  ~Env() override { if (!alive.erase(this)) pbt::fail("an environment ended twice"); }
  bool init() override { return true; } bool bootstrap(const std::string &) override { return true; } void release() override { ++released; }
  bool load(const std::string &) override { return true; } bool reload(const std::string &) override { return true; }
  void set_rootpath(const std::string &p) override { root = p; } void set_workpath(const std::string &p) override { work = p; }
  void register_function(const std::string &, void *) override {} void setglobal(const std::string &, const variable_t &) override {} void getglobal(const std::string &, variable_t &) override {}
  bool exists(const std::string &) override { return false; } bool call(const std::string &) override { return true; } bool call(const std::string &, const variable_array_t &, variable_array_t &) override { return true; }
};
script::Interface *make_a() { return new Env(1); }
script::Interface *make_b() { return new Env(2); }
script::Interface *make_c() { return new Env(3); }
struct World {
  std::unique_ptr<script::Factory> f{new script::Factory}; std::map<script::eid_t, Env *> live; std::set<script::eid_t> seen; size_t extra = 0;
  void added(script::eid_t id, Env *e, const char *how) {
    CHECK_MSG(id != SCRIPT_EID_INVALID, "%s: no id for a new environment with %zu live ones", how, live.size()); CHECK_MSG(!live.count(id), "%s: the id %d of a live environment was given again", how, int(id)); live[id] = e; seen.insert(id);
  }
  void check(const char *when) {
    CHECK_MSG(Env::alive.size() == live.size() + extra, "%s: %zu environments live, %zu were made and not closed", when, Env::alive.size() - extra, live.size());
    for (auto &[id, e] : live) { CHECK_MSG(Env::alive.count(e), "%s: environment %d has ended", when, int(id)); CHECK_MSG(f->getenv(id) == e, "%s: environment %d is another", when, int(id)); }
    for (auto id : seen) if (!live.count(id)) CHECK_MSG(f->getenv(id) == nullptr, "%s: the closed environment %d is found", when, int(id));
    for (int id : {-1, -2, 0, 32767, -32768}) if (!live.count(script::eid_t(id))) CHECK_MSG(f->getenv(script::eid_t(id)) == nullptr, "%s: an environment %d is found that never was", when, id);
  }
};
}  // namespace

PROPERTY(environments, pbt::Options{.weight = 20}) {
  Env::alive.clear(); World w; std::map<uint8_t, int> kinds; for (size_t i = src.below(4); i > 0; --i) { static script::Interface *(*const mk[])() = {make_a, make_b, make_c}; size_t k = src.below(3); uint8_t t = uint8_t(src.flip() ? src.below(4) : src.below(256)); register_env_creator_script(t, mk[k]); kinds[t] = int(k) + 1; }
  // Types other than those were registered by earlier cases of this process; they are not asked for.
  static std::set<uint8_t> ever; for (auto &[t, k] : kinds) ever.insert(t);
  pbt::Src::Loop loop(src, 120); size_t closes = 0, reopened = 0;
  while (loop.more()) {
    switch (src.pick({5, 3, 5, 2})) {
      case 0: { auto e = new Env(0); auto id = w.f->newenv(e); src.note("new %d", int(id)); if (w.seen.count(id)) ++reopened; w.added(id, e, "new"); break; }
      case 1: {
        script::config_t c; c.rootpath = src.ascii(src.size(0, 8)); c.workpath = src.ascii(src.size(0, 8)); uint8_t t = 0; bool known = !kinds.empty() && src.chance(3, 4); if (known) { auto i = kinds.begin(); std::advance(i, long(src.below(kinds.size()))); t = i->first; } else { t = uint8_t(src.below(256)); if (kinds.count(t)) known = true; else if (ever.count(t)) break; } c.type = int8_t(t); Env::last = nullptr;
        auto id = w.f->newenv(c); src.note("new of type %u: %d", unsigned(t), int(id)); if (!known) { CHECK_MSG(id == SCRIPT_EID_INVALID && !Env::last, "an environment of the unknown type %u was made", unsigned(t)); src.label("unknown type"); break; }
        Env *e = Env::last; CHECK_MSG(e, "no environment of type %u was made", unsigned(t)); CHECK_MSG(e->made == kinds[t], "the environment of type %u was made by another creator", unsigned(t)); CHECK_MSG(e->root == c.rootpath && e->work == c.workpath, "the paths given are not those of the environment"); if (w.seen.count(id)) ++reopened; w.added(id, e, "new of a type"); break; }
      case 2: { if (w.live.empty()) break; auto i = w.live.begin(); std::advance(i, long(src.below(w.live.size()))); auto id = i->first; src.note("close %d", int(id)); w.live.erase(i); w.f->closeenv(id); ++closes; break; }
      case 3: { script::eid_t id = src.flip() && !w.seen.empty() ? *std::next(w.seen.begin(), long(src.below(w.seen.size()))) : script::eid_t(src.flip() ? src.range(-3, 40) : src.range(-32768, 32767)); if (w.live.count(id)) break; src.note("close %d, which is not there", int(id)); w.f->closeenv(id); w.seen.insert(id); break; }
    }
    w.check("after a step");
  }
  // Each has its own tasks.
  int ran = 0; std::vector<script::Interface *> all; for (auto &[id, e] : w.live) all.push_back(w.f->getenv(id)); for (auto e : all) e->task_queue()->enqueue([&ran] { ++ran; }); CHECK(ran == 0); for (size_t i = 0; i < all.size(); ++i) { all[i]->task_queue()->work_all(); CHECK_MSG(ran == int(i) + 1, "the tasks of one environment ran with those of another"); }
  w.live.clear(); w.f.reset(); CHECK_MSG(Env::alive.empty(), "%zu environments outlive their factory", Env::alive.size()); src.steps(loop.count()); if (closes >= 2 && reopened) src.nontrivial();
}

// As many as there are ids, and no more.
PROPERTY(many_environments, pbt::Options{.weight = 1, .batch = 1, .hang_s = 120, .max_cases = 6}) {
  Env::alive.clear(); World w; size_t n = src.flip() ? 32767 : 200 + src.below(1000), made = 0; std::vector<script::eid_t> order;
  auto add = [&] { auto e = new Env(0); auto id = w.f->newenv(e); if (id == SCRIPT_EID_INVALID) { delete e; return false; } w.added(id, e, "new"); order.push_back(id); ++made; return true; };
  // Types nobody makes: refused, and their ids are not lost by it.
  auto refused = [&] { script::config_t c; c.type = int8_t(src.range(1, 100)); CHECK_MSG(w.f->newenv(c) == SCRIPT_EID_INVALID, "an environment of the unknown type %d was made", int(c.type)); };
  for (size_t k = src.below(4); k > 0; --k) refused();
  for (size_t i = 0; i < n; ++i) { CHECK_MSG(add(), "no id for environment %zu", i); if (src.chance(1, 5000)) refused(); } w.check("with many"); refused(); if (n == 32767) { CHECK_MSG(!add(), "an environment more than there are ids"); w.check("when full"); src.label("full"); }
  for (int r = 0; r < 3; ++r) { size_t k = 1 + src.below(20); if (src.flip()) refused(); for (size_t i = 0; i < k; ++i) { size_t j = src.below(order.size()); auto id = order[j]; order.erase(order.begin() + long(j)); w.live.erase(id); w.f->closeenv(id); } for (size_t i = 0; i < k; ++i) CHECK_MSG(add(), "no id although %zu were freed", k - i); if (n == 32767) CHECK_MSG(!add(), "an environment more than there are ids"); w.check("after some left and came"); }
  w.live.clear(); w.f.reset(); CHECK_MSG(Env::alive.empty(), "%zu environments outlive their factory", Env::alive.size()); src.steps(made); src.nontrivial();
}
