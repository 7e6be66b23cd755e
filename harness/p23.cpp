// P23: databases open at the same time in one process do not influence one another.
#ifndef THREADS
#include "kv.h"
#include <memory>
// several handles used in turn by one thread
static const Cfg mk(unsigned bs, unsigned nb, long cp, int re, int ha, unsigned nc) { Cfg g; g.bsize = bs; g.nb = nb; g.cachepages = cp; g.rearr = re; g.hash = ha; g.nc = nc; return g; }
static const Cfg CF[] = {mk(512, 1, 6, 0, H_DEFAULT, 1), mk(1024, 4, 8, 1, H_CONST, 3), mk(512, 2, 64, 1, H_ID, 2)};
static const unsigned NOP = 9;
static bool op(KV &k, unsigned who, unsigned o, int d) {
  auto P = [&](unsigned id, size_t kl, size_t vl) { std::string key = mkkey(id, kl); auto it = k.m.find(key); if (it != k.m.end() && it->second.size() < vl) vl = it->second.size(); return k.put(key, mkval(id + 1000 * who, d, vl)); };
  switch (o) {
    case 0: return P(1, 20, 30);                                                   // the same keys everywhere, other values
    case 1: for (int i = 0; i < 6; i++) if (!P(10 + i, 150, 200 * i)) return false; return true;
    case 2: return k.checkall();
    case 3: return k.scan(d & 1 ? 2 : 0);
    case 4: return k.sync();
    case 5: return k.reopen();
    case 6: return k.setuinfo("handle " + std::to_string(who) + " step " + std::to_string(d));
    case 7: return P(2, 400, 1500) && k.absent("nothing");
    case 8: return k.reopen(O_RDONLY) && k.checkall() && k.reopen();
  }
  return true;
}
static void fam(Suite &s, const char *name, unsigned nh, unsigned depth, bool samefile) {
  Family f; f.name = name; f.count = 1; for (unsigned d = 0; d < depth; d++) f.count *= NOP * nh;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); std::vector<std::unique_ptr<KV>> k;
    for (unsigned h = 0; h < nh; h++) { k.emplace_back(new KV(c, CF[h], ("h" + std::to_string(h) + ".db").c_str())); if (!k[h]->create()) return; }
    for (unsigned d = 0; d < depth; d++) { unsigned w = r.take(nh), o = r.take(NOP); c.t("handle %u:", w); if (!op(*k[w], w, o, d)) return; }
    for (unsigned h = 0; h < nh; h++) { if (!k[h]->checkall() || !k[h]->checkuinfo() || !k[h]->scan(1)) return; k[h]->state(); }
    for (unsigned h = 0; h < nh; h++) { if (!k[h]->close()) return; for (unsigned x = h + 1; x < nh; x++) if (!k[x]->checkall()) return; }
    for (unsigned h = 0; h < nh; h++) { if (!k[h]->open(O_RDONLY) || !k[h]->checkall() || !k[h]->checkuinfo()) return; if (!k[h]->m.empty()) c.nontrivial = true; }
    for (unsigned h = 0; h < nh; h++) if (!k[h]->close()) return;
  };
  (void)samefile; s.fams.push_back(f);
}
// any number of readers of one file: handles, opened and closed in any order, see what it holds
static void readers(Suite &s, bool T) {
  Family f; f.name = "handles-on-one-file"; f.count = 1; for (int d = 0; d < (T ? 5 : 4); d++) f.count *= 12;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); KV base(c, CF[1], "one.db"); if (!base.create()) return;
    for (unsigned j = 0; j < 9; j++) if (!base.put(mkkey(j, 100 + 40 * (j % 3)), mkval(j, 0, j * 90))) return;
    if (!base.setuinfo("shared") || !base.close()) return;
    KV *k[3]; bool open[3] = {false, false, false}; KV k0(c, CF[1], "one.db"), k1(c, CF[1], "one.db"), k2(c, CF[1], "one.db"); k[0] = &k0; k[1] = &k1; k[2] = &k2;
    for (int h = 0; h < 3; h++) { k[h]->m = base.m; k[h]->cfg.cachepages = h == 0 ? 6 : h == 1 ? 64 : 0; k[h]->uinfo = "shared"; k[h]->uset = true; }
    for (int d = 0; d < (T ? 5 : 4); d++) {
      unsigned w = r.take(3), o = r.take(4);
      if (!open[w] || o == 0) { if (open[w]) { if (!k[w]->close()) return; open[w] = false; } else { if (!k[w]->open(O_RDONLY)) return; open[w] = true; } continue; }
      if (o == 1 ? !k[w]->checkall() : o == 2 ? !k[w]->scan(0) : !k[w]->checkuinfo()) return;
    }
    for (int h = 0; h < 3; h++) if (open[h]) { if (!k[h]->checkall() || !k[h]->scan(2) || !k[h]->close()) return; }
    base.state(); c.nontrivial = true;
  };
  s.fams.push_back(f);
}
#include <memory>
int main(int a, char **v) {
  return mc_main(a, v, "P23", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    fam(s, "two-databases", 2, T ? 4 : 3, false);
    fam(s, "three-databases", 3, T ? 3 : 2, false);
    readers(s, T);
  });
}
#else
// threads, each with a database of its own: every schedule within the bound, races included
#include "typed.h"
#include "kv.h"
#include "ctlsched.h"
struct Th { std::string path, log; unsigned who; Cfg g; };
static bool fail(const char *cls, const std::string &m) { sched_fail(cls, m); return false; }
static FFDB_DB *opn(Th &t, int fl) {
  FFDB_HASHINFO in; memset(&in, 0, sizeof in); in.bsize = t.g.bsize; in.nbuckets = t.g.nb; in.cachesize = t.g.cachepages * t.g.bsize; in.rearrangepages = t.g.rearr; in.userinfolen = 40; in.numconfigs = 1;
  FFDB_DB *db = ffdb_dbopen(t.path.c_str(), fl, 0644, &in); if (!db) fail("open-refused", "open failed"); return db;
}
static bool put(FFDB_DB *db, const std::string &k, const std::string &v) { FFDB_DBT K, V; K.data = (void *)k.data(); K.size = k.size(); V.data = (void *)v.data(); V.size = v.size(); return db->put(db, &K, &V, 0) == 0 || fail("put", "put failed"); }
static bool get(FFDB_DB *db, const std::string &k, const std::string &v) {
  FFDB_DBT K, V; K.data = (void *)k.data(); K.size = k.size(); V.data = 0; V.size = 0;
  if (db->get(db, &K, &V, 0) != 0) return fail("get", "a stored key is not found");
  bool ok = (size_t)V.size == v.size() && memcmp(V.data, v.data(), v.size()) == 0; free(V.data); return ok || fail("wrong-data", "other data than this thread stored");
}
static bool body(Th &t, unsigned prog) {
  std::string k1 = mkkey(1, 30), k2 = mkkey(2, 200), v1 = mkval(t.who, 1, 40), v2 = mkval(t.who, 2, 700);
  if (prog == 4) {    // a typed store
    ConfDataStoreDB<StringKey, UserData> s; s.setPageSize(512); s.setNumberBuckets(1); s.setCacheSize(4096); s.setMaxUserInfoLen(20); s.setMaxNumberConfigs(1);
    if (s.open(t.path, O_RDWR | O_CREAT | O_TRUNC, 0644)) return fail("open-refused", "typed open failed");
    UserData d; if (s.insert(StringKey("key"), UserData("of " + std::to_string(t.who))) || s.get(StringKey("key"), d) || (std::string)d != "of " + std::to_string(t.who)) return fail("wrong-data", "typed get");
    return s.close() == 0 || fail("close-failed", "typed close");
  }
  FFDB_DB *db = opn(t, O_RDWR | O_CREAT | O_TRUNC); if (!db) return false;
  if (!put(db, k1, v1)) return false;
  if (prog & 1) if (!put(db, k2, v2) || !get(db, k2, v2)) return false;
  if (prog & 2) { if (db->sync(db, 0) != 0) return fail("sync", "sync failed"); std::string u = "thread " + std::to_string(t.who); if (ffdb_set_user_info(db, (unsigned char *)u.data(), u.size())) return fail("uinfo", "set"); }
  if (!get(db, k1, v1)) return false;
  if (db->close(db) != 0) return fail("close-failed", "close failed");
  if (prog == 3) { db = opn(t, O_RDONLY); if (!db || !get(db, k1, v1) || !get(db, k2, v2)) return false; if (db->close(db) != 0) return fail("close-failed", "close failed"); }
  return true;
}
int main(int a, char **v) {
  return mc_main(a, v, "P23", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    for (int nt = 2; nt <= 3; nt++) {
      Family f; f.name = nt == 2 ? "two-threads" : "three-threads"; f.isolate = true; f.timeout = 200; unsigned np = nt == 2 ? 5 : T ? 5 : 3;
      f.count = 1; for (int i = 0; i < nt; i++) f.count *= np;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); std::vector<Th> th(nt); std::vector<unsigned> pr; std::string what;
        for (int t = 0; t < nt; t++) { unsigned p = r.take(np); if (np == 3) p = p == 0 ? 0 : p == 1 ? 3 : 4; pr.push_back(p); th[t].path = c.dir + "/t" + std::to_string(t) + ".db"; th[t].who = t; th[t].g.cachepages = 6 + t; th[t].g.nb = 1 + t; th[t].g.rearr = t & 1; what += " " + std::to_string(p); }
        std::vector<std::function<void()>> bodies; for (int t = 0; t < nt; t++) bodies.push_back([&th, &pr, t] { body(th[t], pr[t]); });
        SchedBounds sb; sb.preempt = nt == 2 ? (T ? 2 : 1) : 1; if (!T && nt == 3) sb.preempt = 0; sb.maxsched = T ? 40000 : 3000;
        SchedResult q = sched_explore(sb, [] {}, bodies, [] {});
        c.transitions += q.points; c.executions = q.schedules; c.nontrivial = q.schedules > 1; uint64_t h = h64(what.data(), what.size()); for (uint64_t x : q.states) c.states.push_back(mix(h, x)); c.outcome = mix(h, q.schedules);
        c.t("programs%s: %llu schedules%s", what.c_str(), (unsigned long long)q.schedules, q.capped ? " (capped)" : "");
        if (!q.fail.empty()) c.f(q.klass.c_str(), "%s [programs%s] schedule %s", q.fail.c_str(), what.c_str(), q.schedule.c_str());
      };
      s.fams.push_back(f);
    }
  });
}
#endif
