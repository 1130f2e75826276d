// Shared libraries: which file is opened, and that everything opened is closed. library.cc is compiled here against a loader in memory.
#include "vp.h"
#include "allstd.h"
#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <filesystem>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "plain/basic/logger.h"
#include "plain/basic/utility.h"
#include "plain/basic/global.h"
#include "plain/basic/singleton.h"
#include "plain/basic/type/variable.h"
#include "plain/file/api.h"
#include "plain/file/config.h"
#include "plain/engine/kernel.h"
namespace {
enum { Absent, Good, Broken, Denied };      // Broken: there, but no library; Denied: cannot be looked up
struct File { std::string path; int state = Absent, open = 0, opens = 0, flags = 0; bool stuck = false; std::vector<std::string> syms; };
std::vector<File> files; char err[] = "dl"; bool looked_denied; int opened, closed, ran; void *ran_arg; int wrong;
File *file(const std::string &p) { for (auto &f : files) if (f.path == p) return &f; return nullptr; }
void *m_dlopen(const char *p, int flags) { auto f = file(p); if (!f || f->state != Good) return nullptr; f->open++; f->opens++; f->flags = flags; opened++; return f; }
int m_dlclose(void *h) { auto f = (File *)h; if (!h || f->open <= 0) { wrong++; return -1; } if (f->stuck) return -1; f->open--; closed++; return 0; }
char *m_dlerror() { return err; }
void opener(plain::Kernel *, void *a) { ran++; ran_arg = a; } void other() {}
void *m_dlsym(void *h, const char *s) { auto f = (File *)h; if (!h || f->open <= 0) { wrong++; return nullptr; } for (auto &x : f->syms) if (x == s) return x.find("plainopen") != std::string::npos ? (void *)opener : (void *)other; return nullptr; }
struct Globals { plain::variable_t base; plain::variable_t &operator[](const std::string &) { return base; } }; Globals globals_model;
struct Engine { plain::Kernel *get() { return nullptr; } }; Engine engine_model;
}
namespace std::m_fs { struct path { std::string s; path(const std::string &x) : s(x) {} path(const char *x) : s(x) {} const char *c_str() const { return s.c_str(); } std::string string() const { return s; } path operator/(const path &o) const { return s + "/" + o.s; } };
  inline bool exists(const path &p, std::error_code &ec) { auto f = ::file(p.s); if (f && f->state == Denied) { ec = std::error_code(13, std::system_category()); return false; } ec.clear(); return f && f->state != Absent; }
  inline bool exists(const path &p) { auto f = ::file(p.s); if (f && f->state == Denied) throw 13; return f && f->state != Absent; } }
#define dlopen m_dlopen
#define dlclose m_dlclose
#define dlerror m_dlerror
#define dlsym m_dlsym
#define filesystem m_fs
#define Library LibraryModel
#define LibraryManager LibraryManagerModel
#undef GLOBALS
#define GLOBALS globals_model
#undef ENGINE
#define ENGINE engine_model
#include "plain/file/library.h"
#include "../src/file/library.cc"
#undef filesystem
namespace {
std::string full(const std::string &n) { auto p = n.rfind(".so"); return p != std::string::npos && (p + 3 == n.size() || n[p + 3] == '.') ? n : n + ".so"; }
int handles() { int n = 0; for (auto &f : files) n += f.open; return n; }
void put(const std::string &p, int st, std::vector<std::string> syms = {}) { File f; f.path = p; f.state = st; f.syms = std::move(syms); files.push_back(std::move(f)); }
}
// the file name of any library name
VP_HARNESS(lib_name) {
  static const char abc[] = ".sox"; int n = (int)vp_pick("length", 1, vp_param("bytes", 7)); std::string s; for (int i = 0; i < n; i++) s += abc[vp_pick("c", 0, 3)];
  plain::LibraryModel l; l.set_filename(s); vp_check(l.filename() == full(s), "the name with its suffix, if it has none"); vp_reach("end");
}
// the same for any bytes
VP_HARNESS(lib_bytes) {
  int n = (int)vp_param("bytes", 5); char b[16] = {}; vp_symbolic(b, n, "name"); for (int i = 0; i < n; i++) vp_assume(b[i]); std::string s(b, n);
  plain::LibraryModel l; l.set_filename(s); vp_check(l.filename() == full(s), "the name with its suffix, if it has none"); vp_reach("end");
}
// one library object: any sequence of loading, resolving and unloading
VP_HARNESS(lib_one) {
  { put("d/x.so", (int)vp_pick("plain", 0, 3), {"f", "_g"}); put("d/libx.so", (int)vp_pick("prefixed", 0, 3), {"f", "_g"}); plain::LibraryModel l; l.set_filename("x"); l.set_path("d/"); File *cur = nullptr;
    for (int i = 0, n = (int)vp_param("ops", 3); i < n; i++) { int op = (int)vp_pick("op", 0, 3);
      if (op == 0) { bool pre = vp_pick("prefix", 0, 1), glb = vp_pick("global", 0, 1), r = l.load(pre, glb); if (!cur) { if (files[0].state == Good && l.filename() == "x.so") cur = &files[0]; else if (files[1].state == Good && (pre || l.filename() == "libx.so")) cur = &files[1]; if (cur) vp_check(((cur->flags & RTLD_GLOBAL) != 0) == glb, "the symbols are global if so asked"); } vp_check(r == (cur != nullptr), "loaded"); }
      else if (op == 1) { bool stuck = cur && vp_pick("stuck", 0, 1); if (cur) cur->stuck = stuck; bool r = l.unload(); vp_check(r == !stuck, "unloaded"); if (cur) cur->stuck = false; if (!stuck) cur = nullptr; }
      else if (op == 2) { auto p = l.resolve("f"); vp_check((p != nullptr) == (cur != nullptr), "a symbol of the library"); p = l.resolve("g"); vp_check((p != nullptr) == (cur != nullptr), "a symbol with an underscore"); vp_check(!l.resolve("g", false), "just the name"); }
      else vp_check(!l.resolve("h"), "no such symbol");
      vp_check(l.isloaded() == (cur != nullptr) && handles() == (cur ? 1 : 0) && (!cur || cur->open == 1) && !wrong, "loaded means one handle is open, of the file that was there"); }
    vp_reach("end"); }
  vp_check(handles() == 0 && !wrong, "closed with the object");
}
// the manager: possible names and search paths, in their order
VP_HARNESS(lib_find) {
  { int np = (int)vp_pick("paths", 1, 2), nn = (int)vp_pick("names", 0, 2), top = (int)vp_param("states", 2); const char *dirs[] = {"a/", "b/"}, *names[] = {"x", "y.so.1"}; plain::variable_array_t params; globals_model.base = std::string("/app");
    plain::LibraryManagerModel m; m.set_searchpaths(np == 1 ? std::vector<std::string>{"a/"} : std::vector<std::string>{"a/", "b/"}); std::vector<std::string> ns; for (int i = 0; i < nn; i++) ns.push_back(names[i]); if (nn) m.set_librarynames("n", ns); else ns.push_back("n");
    bool drop = nn == 2 && vp_pick("drop", 0, 1); if (drop) { m.remove_librarynames("n", {"x"}); ns.erase(ns.begin()); } if (nn) vp_check(m.get_librarynames("n") == ns, "the possible names that are left");
    std::string want; bool open = vp_pick("main", 0, 1); std::vector<std::string> syms{"f"}; if (open) syms.push_back("plainopen_n");
    for (auto &n : ns) for (int d = 0; d < np; d++) for (const char *pre : {"", "lib"}) { int st = (int)vp_pick("file", 0, top); std::string p = std::string(dirs[d]) + pre + full(n); put(p, st, syms); if (st == Good && want.empty()) want = p; }
    bool glb = vp_pick("global", 0, 1), r = m.load("n", glb, params); vp_check(r == !want.empty(), "loaded if one of the files is a library");
    auto l = m.get("n"); vp_check((l != nullptr) == r, "what was loaded can be got"); vp_check(opened - closed == (r ? 1 : 0) && handles() == opened - closed, "just one file stays open"); if (r) { auto f = file(want); vp_check(f && f->open == 1, "the first of the names in the first of the paths"); vp_check(((f->flags & RTLD_GLOBAL) != 0) == glb, "global if so asked"); vp_check(l->resolve("f") && l->isloaded(), "its symbols"); vp_check(m.load("n", glb, params) && opened == 1, "loaded just once"); }
    vp_check(ran == (r && open ? 1 : 0) && (!ran || ran_arg == (void *)&params), "the main function is called once, with the parameters");
    if (vp_pick("unload", 0, 1)) { bool stuck = r && vp_pick("stuck", 0, 1); if (stuck) file(want)->stuck = true; vp_check(m.unload("n") == !stuck, "unloaded, or it was not there"); vp_check((m.get("n") != nullptr) == stuck, "unloaded libraries are gone"); if (stuck) file(want)->stuck = false; else { vp_check(handles() == 0, "closed"); vp_check(m.unload("n"), "nothing to unload"); vp_check(m.load("n", glb, params) == r && handles() == (r ? 1 : 0), "and again"); } }
    vp_reach("end"); }
  vp_check(handles() == 0 && opened == closed && !wrong, "closed with the manager");
}
// search paths
VP_HARNESS(lib_paths) {
  { globals_model.base = std::string("/app"); plain::LibraryManagerModel m; auto has = [&](const char *p) { for (auto &s : m.get_searchpaths()) if (s == p) return true; return false; };
    vp_check(has("./") && has("/app/") && has("/app/plugins/") && has("/usr/lib/"), "the default paths");
    std::vector<std::string> want; if (vp_pick("given", 0, 1)) want = {"a/", "b/", "a/"}; m.set_searchpaths(want); static const char *ps[] = {"a/", "b/", "c/"};
    for (int i = 0, n = (int)vp_param("ops", 4); i < n; i++) { std::string p = ps[vp_pick("path", 0, 2)], q = ps[vp_pick("path2", 0, 2)]; if (vp_pick("op", 0, 1)) { m.add_searchpaths({p, q}); for (auto &x : {p, q}) if (std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x); } else { m.remove_searchpaths({p, q}); for (auto &x : {p, q}) want.erase(std::remove(want.begin(), want.end(), x), want.end()); } vp_check(m.get_searchpaths() == want, "the paths that were added and not removed, in their order, each once"); }
    vp_reach("end"); }
}
// names with the prefix in them are tried with and without it, names that begin with it just as they are
VP_HARNESS(lib_prefix) {
  { static const char *ns[] = {"x", "libx", "glibx", "xlib", "li", "lib", "liblib"}; std::string n = ns[vp_pick("name", 0, 6)]; bool begins = n.compare(0, 3, "lib") == 0; globals_model.base = std::string("/app"); plain::variable_array_t params;
    plain::LibraryManagerModel m; m.set_searchpaths({"a/"}); int plainst = (int)vp_pick("plain", 0, 2), prest = (int)vp_pick("prefixed", 0, 2); std::string p = "a/" + full(n), q = "a/lib" + full(n); put(p, plainst, {"f"}); put(q, prest, {"f"});
    std::string want = plainst == Good ? p : prest == Good && !begins ? q : ""; bool r = m.load(n, false, params); vp_check(r == !want.empty(), "loaded with or without the prefix");
    if (r) vp_check(file(want)->open == 1 && m.get(n) && m.get(n)->resolve("f"), "the file of this name"); vp_check(opened - closed == (r ? 1 : 0) && handles() == opened - closed, "just one file is open"); vp_reach("end"); }
  vp_check(handles() == 0 && opened == closed && !wrong, "closed with the manager");
}
