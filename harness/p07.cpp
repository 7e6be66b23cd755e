// P07: threads that read one open database concurrently each see exactly the stored data, under every schedule.
#include "kv.h"
#include "ctlsched.h"
#include <csignal>
struct Base { unsigned nb; long cp; int hash; unsigned nkeys; size_t kl, small, big; };
static const Base BASES[] = {
  {1, 64, H_DEFAULT, 4, 40, 20, 900},      // one bucket page, one shared data page, everything cached
  {4, 0, H_ID, 6, 100, 60, 1400},          // several buckets, no cache: every access reads the file and evicts
  {2, 2, H_CONST, 6, 300, 30, 700},        // one long overflow chain, two cached pages
  {1, 1, H_HI, 8, 120, 200, 500},          // a split table with data pages shared between buckets, one cached page
};
static const unsigned NOP = 10;
static const char *ON[] = {"get0", "get1", "getN", "getbig", "absent", "getbuf1", "scan", "info", "scan+get", "cursor+get"};
static thread_local int dummy;
struct World { KV *k; std::vector<std::string> ks; std::string uinfo; };
static void onsig(int s) { char b[64]; int n = snprintf(b, sizeof b, "signal %d, schedule ", s); if (write(1, b, n) < 0) {} const char *t = sched_current(); if (write(1, t, strlen(t)) < 0) {} if (write(1, "\n", 1) < 0) {} signal(s, SIG_DFL); raise(s); }
static void doget(World &w, const std::string &key, bool buf) {
  KV &k = *w.k; auto it = k.m.find(key);
  char *kb = (char *)malloc(key.size()); memcpy(kb, key.data(), key.size());
  FFDB_DBT K, V; K.data = kb; K.size = (long)key.size(); V.data = 0; V.size = 0;
  char *own = 0; if (buf) { V.size = 2000; own = (char *)malloc(2000); V.data = own; }
  int rc = k.db->get(k.db, &K, &V, 0);
  if (it == k.m.end()) { if (rc != FFDB_NOT_FOUND) sched_fail("phantom", "get of an absent key returned " + std::to_string(rc)); }
  else if (rc != 0) sched_fail("lost-key", "get of a stored key returned " + std::to_string(rc));
  else {
    if ((size_t)V.size != it->second.size() || memcmp(V.data, it->second.data(), V.size)) sched_fail("wrong-data", "get returned other bytes than those stored");
    if (!buf) free(V.data);
  }
  if (own) free(own);
  free(kb);
}
static void doscan(World &w) {
  KV &k = *w.k; ffdb_cursor_t *cu = 0;
  if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) { sched_fail("cursor-refused", "cursor() failed"); return; }
  size_t n = 0; std::set<std::string> seen;
  for (;; n++) {
    if (n > k.m.size()) { sched_fail("cursor-endless", "cursor delivers too many entries"); break; }
    FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
    int rc = cu->get(cu, &K, &V, n ? FFDB_NEXT : FFDB_FIRST);
    if (rc == FFDB_NOT_FOUND) break;
    if (rc != 0) { sched_fail("cursor-error", "cursor returned " + std::to_string(rc)); break; }
    std::string a((char *)K.data, K.size); auto it = k.m.find(a);
    if (it == k.m.end() || !seen.insert(a).second) { sched_fail("cursor-phantom", "cursor delivered a wrong or repeated key"); break; }
    if ((size_t)V.size != it->second.size() || memcmp(V.data, it->second.data(), V.size)) { sched_fail("cursor-wrong-data", "cursor delivered other bytes"); break; }
    free(K.data); free(V.data);
  }
  if (!sched_failed() && seen.size() != k.m.size()) sched_fail("cursor-missed", "cursor missed entries");
  cu->close(cu);
}
static void doinfo(World &w) {
  KV &k = *w.k; unsigned len = 64; unsigned char b[64];
  if (ffdb_get_user_info(k.db, b, &len) != 0 || len != w.uinfo.size() || memcmp(b, w.uinfo.data(), len)) sched_fail("uinfo", "user information differs");
  ffdb_config_info_t ci; memset(&ci, 0, sizeof ci);
  if (ffdb_get_config(k.db, 1, &ci) != 0 || ci.mtime != 77) sched_fail("config", "configuration information differs");
}
// a cursor stays open at some entry while its thread reads other keys; back: in the other direction
static void docursor(World &w, bool back, size_t steps, std::vector<size_t> gets) {
  KV &k = *w.k; ffdb_cursor_t *cu = 0;
  if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) { sched_fail("cursor-refused", "cursor() failed"); return; }
  for (size_t n = 0; n < steps && !sched_failed(); n++) {
    FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
    int rc = cu->get(cu, &K, &V, back ? FFDB_PREV : FFDB_NEXT);
    if (rc != 0) { sched_fail("cursor-error", "cursor returned " + std::to_string(rc)); break; }
    std::string a((char *)K.data, K.size); auto it = k.m.find(a);
    if (it == k.m.end() || (size_t)V.size != it->second.size() || memcmp(V.data, it->second.data(), V.size)) { sched_fail("cursor-wrong-data", "cursor delivered other bytes"); break; }
    free(K.data); free(V.data);
    for (size_t g : gets) if (!sched_failed()) doget(w, w.ks[g % w.ks.size()], false);
  }
  cu->close(cu);
}
static void op(World &w, unsigned o) {
  switch (o) {
    case 0: doget(w, w.ks[0], false); break;
    case 1: doget(w, w.ks[1], false); break;
    case 2: doget(w, w.ks[w.ks.size() - 2], false); break;
    case 3: doget(w, w.ks.back(), false); break;
    case 4: doget(w, "no such key", false); break;
    case 5: doget(w, w.ks[1], true); break;
    case 6: doscan(w); break;
    case 7: doinfo(w); break;
    case 8: docursor(w, false, 2, {w.ks.size() - 1, 1}); break;
    case 9: docursor(w, true, 2, {0}); break;
  }
}
static bool build(KV &k, World &w, const Base &b) {
  if (!k.create()) return false;
  for (unsigned j = 0; j < b.nkeys; j++) {
    std::string key = mkkey(j, b.kl);
    if (!k.put(key, mkval(j, 0, j + 1 == b.nkeys ? b.big : b.small + j))) return false;
    w.ks.push_back(key);
  }
  w.uinfo = "information"; if (!k.setuinfo(w.uinfo)) return false;
  std::vector<ffdb_config_info_t> v(k.cfg.nc); memset(v.data(), 0, v.size() * sizeof v[0]);
  for (unsigned i = 0; i < k.cfg.nc; i++) { v[i].index = i; v[i].config = i; v[i].mtime = 76 + i; }
  ffdb_all_config_info_t a; a.numconfigs = k.cfg.nc; a.allconfigs = v.data();
  if (ffdb_set_all_configs(k.db, &a) != 0) { k.c.f("setup", "set_all_configs"); return false; }
  return k.close();
}
static void explore(Ctx &c, const Base &b, std::vector<std::vector<unsigned>> prog, int P, int SP) {
  Cfg g; g.nb = b.nb; g.hash = b.hash; g.nc = 2; g.cachepages = 64;
  KV k(c, g); World w; w.k = &k;
  if (!build(k, w, b)) return;
  k.cfg.cachepages = b.cp ? b.cp : 1;
  std::string what;
  for (size_t t = 0; t < prog.size(); t++) { what += " T" + std::to_string(t + 1) + ":"; for (unsigned o : prog[t]) { what += " "; what += ON[o]; } }
  c.t("base: %s, %u keys;%s; at most %d preemptions, %d spurious wakeups", k.cfg.str().c_str(), b.nkeys, what.c_str(), P, SP);
  if (c.live) { signal(SIGABRT, onsig); signal(SIGSEGV, onsig); }
  SchedBounds sb; sb.preempt = P; sb.spurious = SP;
  std::vector<std::function<void()>> bodies;
  for (auto &p : prog) bodies.push_back([&w, p] { for (unsigned o : p) { op(w, o); if (sched_failed()) return; } });
  SchedResult r = sched_explore(sb,
    [&] { k.db = k.rawopen(O_RDONLY); if (!k.db) sched_fail("open-refused", "open failed"); },
    bodies,
    [&] { for (auto &key : w.ks) doget(w, key, false); int rc = k.db->close(k.db); k.db = 0; if (rc != 0) sched_fail("close-failed", "close returned " + std::to_string(rc)); });
  c.transitions += r.points;
  c.t("%llu schedules, %llu scheduling points, %zu scheduler states", (unsigned long long)r.schedules, (unsigned long long)r.points, r.states.size());
  uint64_t base = h64(what.data(), what.size(), 99 + (&b - BASES));
  for (uint64_t s : r.states) c.states.push_back(mix(base, s));
  c.executions = r.schedules;
  c.outcome = mix(r.schedules, base); c.nontrivial = r.schedules > 1;
  if (!r.fail.empty()) { c.t("schedule %s", r.schedule.c_str()); c.f(r.klass.c_str(), "%s [%s] schedule %s", r.fail.c_str(), what.c_str(), r.schedule.c_str()); }
}
static void fam(Suite &s, const char *name, std::vector<unsigned> shape, unsigned nbase, int P, int SP, std::vector<unsigned> alpha) {
  Family f; f.name = name; unsigned tot = 0; for (unsigned x : shape) tot += x;
  uint64_t n = nbase; for (unsigned i = 0; i < tot; i++) n *= alpha.size();
  f.count = n; f.timeout = 60;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); const Base &b = BASES[r.take(nbase)];
    std::vector<std::vector<unsigned>> prog;
    for (unsigned x : shape) { std::vector<unsigned> p; for (unsigned j = 0; j < x; j++) p.push_back(alpha[r.take(alpha.size())]); prog.push_back(p); }
    explore(c, b, prog, P, SP);
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P07", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    std::vector<unsigned> all = {0, 1, 2, 3, 4, 5, 6, 7}, few = {0, 2, 3}, mid = {0, 2, 3, 4};
    std::vector<unsigned> gets = {0, 1, 2, 3, 4, 5, 7};
    fam(s, "two-readers", {2, 1}, 4, T ? 3 : 2, 0, gets);
    fam(s, "two-readers-spurious", {1, 1}, 4, T ? 3 : 2, T ? 2 : 1, gets);
    fam(s, "reader-and-cursor", {1, 1}, 4, T ? 2 : 1, T ? 1 : 0, all);
    fam(s, "gets-under-a-cursor", {1, 1}, 4, T ? 2 : 1, 0, {0, 3, 4, 6, 8, 9});
    fam(s, "three-readers", {1, 1, 1}, 4, T ? 2 : 1, 0, T ? gets : mid);
    fam(s, "three-readers-spurious", {1, 1, 1}, 4, 1, 1, few);
    if (T) { fam(s, "two-readers-long", {3, 2}, 4, 2, 0, few); fam(s, "four-readers", {1, 1, 1, 1}, 4, 1, 0, few); fam(s, "two-threads-all", {2, 1}, 4, 1, 0, all); }
  });
}
