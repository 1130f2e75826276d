// Script environments: the factory gives out environments under ids.
#include "vp.h"
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include "plain/script/config.h"
#include "plain/script/interface.h"
#include "plain/script/factory.h"
namespace {
using plain::script::eid_t;
std::atomic<int> born, died; std::atomic<bool> gone[32800];
struct Env : plain::script::Interface {
  int id = born++; std::string root, work;
  ~Env() override { gone[id] = true; died++; }
  bool init() override { return true; } bool bootstrap(const std::string &) override { return true; } void release() override {} bool load(const std::string &) override { return true; } bool reload(const std::string &) override { return true; }
  void set_rootpath(const std::string &p) override { root = p; } void set_workpath(const std::string &p) override { work = p; }
  void register_function(const std::string &, void *) override {} void setglobal(const std::string &, const plain::variable_t &) override {} void getglobal(const std::string &, plain::variable_t &) override {} bool exists(const std::string &) override { return false; }
  bool call(const std::string &) override { return true; } bool call(const std::string &, const plain::variable_array_t &, plain::variable_array_t &) override { return true; }
};
Env *last; plain::script::Interface *make() { return last = new Env; } plain::script::Interface *none() { return nullptr; }
struct Model {
  std::map<int, Env *> m;
  void add(eid_t e, Env *p) { vp_check(e != SCRIPT_EID_INVALID && e > 0, "an id was given"); vp_check(!m.count(e), "no two environments have the same id"); m[e] = p; }
  void same(plain::script::Factory &f, int top) { for (int i = -1; i <= top; i++) { auto it = m.find(i); vp_check(f.getenv((eid_t)i) == (it == m.end() ? nullptr : it->second), "the environment of an id, and nothing for an id that is not in use"); } for (auto &[e, p] : m) vp_check(!gone[p->id], "an environment lives until it is closed"); vp_check(born - died == (int)m.size(), "a closed environment is freed"); }
};
}
// any sequence of creating, closing and asking
VP_HARNESS(script_ids) {
  int64_t base = vp_live_allocs(); { plain::script::Factory f; Model m; int n = (int)vp_param("ops", 4), top = n + 1;
    register_env_creator_script(1, make); register_env_creator_script(2, none);
    for (int i = 0; i < n; i++) { int op = (int)vp_pick("op", 0, 4);
      if (op == 0) { auto e = new Env; m.add(f.newenv(e), e); }
      else if (op == 1) { plain::script::config_t c{"r", "w", (int8_t)1}; auto e = f.newenv(c); m.add(e, last); vp_check(last->root == "r" && last->work == "w", "a new environment has the configured paths"); }
      else if (op == 2) { plain::script::config_t c{"r", "w", (int8_t)vp_pick("type", 2, 3)}; vp_check(f.newenv(c) == SCRIPT_EID_INVALID, "no environment of an unknown type"); }
      else if (op == 3) { eid_t e = (eid_t)vp_pick("close", -1, top); f.closeenv(e); if (m.m.count(e)) m.m.erase(e); }
      else { eid_t e = (eid_t)vp_pick("get", -1, top); auto it = m.m.find(e); vp_check(f.getenv(e) == (it == m.m.end() ? nullptr : it->second), "the environment of an id"); }
      m.same(f, top); }
    vp_reach("end"); }
  vp_check(born == died, "the factory frees the environments it still has"); (void)base;
}
// many environments, some closed, then as many again
VP_HARNESS(script_many) {
  { plain::script::Factory f; Model m; int n = (int)vp_param("envs", 5); std::vector<int> ids;
    for (int i = 0; i < n; i++) { auto e = new Env; auto id = f.newenv(e); m.add(id, e); ids.push_back(id); }
    int k = 0; for (int i = 0; i < n; i++) if (vp_pick("close", 0, 1)) { f.closeenv((eid_t)ids[i]); m.m.erase(ids[i]); k++; }
    m.same(f, n + 2); eid_t any = vp_i16("any_id"); auto got = f.getenv(any); plain::script::Interface *want = nullptr; for (auto &[e, p] : m.m) if (any == e) want = p; vp_check(got == want, "the environment of any id");
    eid_t other = vp_i16("unused_id"); for (auto &[e, p] : m.m) vp_assume(other != e); f.closeenv(other); m.same(f, n + 2);
    for (int i = 0; i < k + 2; i++) { auto e = new Env; m.add(f.newenv(e), e); m.same(f, n + 3); } vp_reach("end"); }
  vp_check(born == died, "freed");
}
// two threads create and close their own environments
VP_HARNESS(script_threads) {
  { plain::script::Factory f; register_env_creator_script(1, make); eid_t ids[2][2] = {}; Env *es[2][2] = {}; int kind = (int)vp_pick("kind", 0, 2);
    for (auto &a : es) for (auto &e : a) e = new Env;
    auto work = [&](int t) {
      auto a = f.newenv(es[t][0]); vp_check(f.getenv(a) == es[t][0], "the environment of this id"); if (kind == 1) { f.closeenv(a); a = SCRIPT_EID_INVALID; }
      plain::script::config_t c{"r", "w", (int8_t)3}; if (kind == 2) vp_check(f.newenv(c) == SCRIPT_EID_INVALID, "no such type");
      auto b = f.newenv(es[t][1]); vp_check(f.getenv(b) == es[t][1], "the environment of this id"); ids[t][0] = a; ids[t][1] = b; };
    { std::thread t([&] { work(1); }); work(0); t.join(); }
    Model m; for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) if (ids[t][i] != SCRIPT_EID_INVALID) m.add(ids[t][i], es[t][i]); m.same(f, 6); vp_reach("end"); }
  vp_check(born == died, "freed");
}
// every id is in use
VP_HARNESS(script_full) {
  { plain::script::Factory f; std::vector<char> seen(32768); bool ok = true;
    for (int i = 0; i < 32767; i++) { auto e = f.newenv(new Env); if (e <= 0 || seen[e]) { ok = false; break; } seen[e] = 1; }
    vp_check(ok, "every id is given once");
    vp_check(f.newenv(new Env) == SCRIPT_EID_INVALID && born - died == 32767, "no id when all are in use, and nothing changes");
    int c = (int)vp_pick("closed", 0, 2); eid_t id = c == 0 ? 1 : c == 1 ? 16000 : 32767; f.closeenv(id); vp_check(f.getenv(id) == nullptr, "a closed id is free"); vp_check(f.newenv(new Env) == id, "the one free id is given"); vp_check(f.newenv(new Env) == SCRIPT_EID_INVALID, "full again"); vp_reach("end"); }
  vp_check(born == died, "freed");
}
