// P04: after a successful sync the file on disk is a complete database, at every point until the next change.
#include "kv.h"
static bool copyfile(const std::string &a, const std::string &b) {
  int i = ::open(a.c_str(), O_RDONLY), o = ::open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  char buf[65536]; ssize_t n; bool ok = i >= 0 && o >= 0;
  while (ok && (n = ::read(i, buf, sizeof buf)) > 0) ok = ::write(o, buf, n) == n;
  ::close(i); ::close(o); return ok;
}
// the process "dies": what is on disk now is opened elsewhere
static bool image(KV &k, int mode) {
  std::string img = k.path + ".img";
  if (!copyfile(k.path, img)) { k.c.f("harness", "copy"); return false; }
  KV n(k.c, k.cfg, "t.db.img");
  n.m = k.m; n.uinfo = k.uinfo; n.uset = k.uset;
  k.c.t("-- power cut; open what is on disk (%s)", mode ? "read/write" : "read only");
  if (!n.open(mode ? O_RDWR : O_RDONLY)) return false;
  bool ok = n.checkall() && n.scan(0) && n.absent(mkkey(4242, 20)) && (!n.uset || n.checkuinfo());
  if (ok && mode) { ok = n.put(mkkey(4242, 20), mkval(1, 1, 600)) && n.checkall(); }
  if (ok) ok = n.close();
  return ok;
}
static const unsigned NOP = 12;
static bool op(KV &k, unsigned o, int d, bool &synced) {
  std::string key = mkkey(o % 4 * 2, 200);
  if (o < 4) { synced = false; return k.put(key, mkval(o, d, 40)); }
  if (o < 8) { synced = false; return k.put(key, mkval(o, d, 700)); }
  switch (o) {
    case 8: synced = false; for (int i = 0; i < 6; i++) if (!k.put(mkkey(50 + 10 * d + i, 100), mkval(i, d, 250))) return false; return true;
    case 9: synced = false; return k.setuinfo("info" + std::to_string(d));
    case 10: synced = true; return k.sync();
    case 11: return k.checkall() && k.absent(mkkey(31337, 60)) && k.scan(0);
  }
  return true;
}
static const struct { unsigned nb; long cp; int hash, re; } CF[] = {{1, 6, H_ID, 0}, {2, 100, H_DEFAULT, 1}, {4, 8, H_CONST, 1}, {1, 64, H_HI, 0}};
static void fam(Suite &s, const char *name, unsigned depth, unsigned nc, int pre) {
  Family f; f.name = name;
  uint64_t n = nc * 2; for (unsigned i = 0; i < depth; i++) n *= NOP;
  f.count = n;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < depth; d++) ops[d] = r.take(NOP);
    auto &q = CF[r.take(nc)]; int mode = r.take(2);
    Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.re;
    KV k(c, g); if (!k.create()) return;
    for (int j = 0; j < pre; j++) if (!k.put(mkkey(1000 + j, 120), mkval(j, 0, 60 * (j % 9)))) return;
    if (pre && !k.reopen()) return;
    if (!k.setuinfo("base")) return;
    bool synced = false;
    for (unsigned d = 0; d < depth; d++) {
      if (!op(k, ops[d], d, synced)) return;
      k.state();
      if (synced) { c.nontrivial = true; if (!image(k, mode)) return; }
    }
    if (!synced) { if (!k.sync() || !image(k, mode)) return; }
    if (!k.checkall()) return;
    if (!k.close()) return;
    if (!image(k, mode)) return;
  };
  s.fams.push_back(f);
}
// the same with a cursor left open across puts, syncs and the close of the handle
static bool curop(KV &k, unsigned o, int d, bool &synced, ffdb_cursor_t *&cu, bool &stale) {
  if (o < 3 && cu) stale = true;             // the table changed under the cursor: from here it may only be closed
  if (o >= 5 && o <= 7 && stale) return true;
  auto step = [&](unsigned fl) {
    if (!cu && k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) { k.c.f("cursor-refused", "cursor"); return false; }
    FFDB_DBT K, V; K.data = V.data = 0; K.size = V.size = 0; k.c.transitions++;
    int rc = cu->get(cu, &K, &V, fl); k.c.t("cursor step = %d", rc);
    if (rc == 0) {
      std::string kk((char *)K.data, K.size), vv((char *)V.data, V.size); free(K.data); free(V.data);
      auto it = k.m.find(kk); if (it == k.m.end() || it->second != vv) { k.c.f("cursor-phantom", "a cursor delivered a pair that is not stored"); return false; }
    } else if (rc != FFDB_NOT_FOUND) { k.c.f("cursor-error", "cursor returned %d", rc); return false; }
    return true; };
  switch (o) {
    case 0: synced = false; return k.put(mkkey(2, 200), mkval(1, d, 30));
    case 1: synced = false; return k.put(mkkey(4 + d, 200), mkval(1, d, 700));
    case 2: synced = false; for (int i = 0; i < 7; i++) if (!k.put(mkkey(50 + 10 * d + i, 100), mkval(i, d, 250))) return false; return true;
    case 3: synced = true; return k.sync();
    case 4: return k.checkall() && k.absent(mkkey(31337, 60));
    case 5: return step(FFDB_NEXT);
    case 6: return step(FFDB_NEXT) && step(FFDB_NEXT) && step(FFDB_NEXT);
    case 7: return step(FFDB_LAST);
    case 8: if (cu) { k.c.t("cursor close"); cu->close(cu); cu = 0; stale = false; } return true;
  }
  return true;
}
static void curfam(Suite &s, unsigned depth, int pre) {
  Family f; f.name = pre ? "open-cursor-from-12-keys" : "open-cursor"; uint64_t n = 4 * 2; for (unsigned i = 0; i < depth; i++) n *= 9;
  f.count = n;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < depth; d++) ops[d] = r.take(9);
    auto &q = CF[r.take(4)]; int endcur = r.take(2);
    Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.re;
    KV k(c, g); if (!k.create()) return;
    for (int j = 0; j < pre; j++) if (!k.put(mkkey(1000 + j, 120), mkval(j, 0, 60 * (j % 9)))) return;
    bool synced = false, stale = false; ffdb_cursor_t *cu = 0;
    for (unsigned d = 0; d < depth; d++) {
      if (!curop(k, ops[d], d, synced, cu, stale)) return;
      k.state();
      if (synced) { c.nontrivial = true; if (!image(k, 0)) return; }
    }
    if (!k.sync() || !image(k, 1) || !k.checkall()) return;
    if (endcur && cu) { cu->close(cu); cu = 0; if (!k.checkall() || !k.scan(0)) return; }
    if (!k.put(mkkey(77, 30), mkval(7, 7, 300))) return;
    if (cu) c.t("close with an open cursor");
    if (!k.close()) return;
    if (!image(k, 0)) return;
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P04", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    fam(s, "ops3", 3, 4, 0);
    fam(s, "ops3-from-12-keys", 3, 4, 12);
    curfam(s, T ? 5 : 4, 0); curfam(s, T ? 5 : 3, 12);
    if (T) { fam(s, "ops4", 4, 4, 0); fam(s, "ops4-from-12-keys", 4, 4, 12); }
    { Family f; f.name = "sync-after-each-growth-step";
      f.count = 4 * 3 * 3 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); auto &q = CF[r.take(4)]; static const size_t vs[] = {10, 300, 1500}; size_t vl = vs[r.take(3)]; static const size_t ks[] = {10, 150, 400}; size_t kl = ks[r.take(3)]; int mode = r.take(2);
        Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.re;
        KV k(c, g); if (!k.create()) return;
        for (int j = 0; j < (T ? 60 : 25); j++) {
          if (!k.put(mkkey(j, kl), mkval(j, 0, vl)) || !k.sync() || !image(k, mode)) return;
          k.state();
        }
        c.nontrivial = true; k.close();
      };
      s.fams.push_back(f); }
  });
}
