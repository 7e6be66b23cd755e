// P12: what is refused changes nothing: read-only handles never alter the file, refused operations leave no trace.
#include "kv.h"
static std::string slurp(const std::string &p) {
  std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static bool base(KV &k, unsigned h) {
  for (unsigned j = 0; j < h * 6; j++) if (!k.put(mkkey(j, 100 + 30 * (j % 4)), mkval(j, 0, (j * 173) % 1100))) return false;
  std::vector<ffdb_config_info_t> v(k.cfg.nc); memset(v.data(), 0, v.size() * sizeof v[0]);
  for (unsigned i = 0; i < k.cfg.nc; i++) { v[i].index = i; v[i].config = i; }
  ffdb_all_config_info_t a; a.numconfigs = k.cfg.nc; a.allconfigs = v.data();
  if (ffdb_set_all_configs(k.db, &a) != 0) { k.c.f("configs", "set"); return false; }
  return k.setuinfo("the info");
}
static const struct { unsigned nb; int hash, re; } CF[] = {{1, H_DEFAULT, 1}, {2, H_ID, 0}, {4, H_CONST, 1}};
static bool expectfail(Ctx &c, const char *what, int rc) { if (rc == 0) { c.f("accepted-read-only", "%s through a read-only handle returned success", what); return false; } return true; }
// one operation on a read-only handle
static bool roop(KV &k, unsigned o) {
  std::string ex = k.m.empty() ? "nokey" : k.m.begin()->first;
  switch (o) {
    case 0: return k.put("new key", "data");
    case 1: return k.put(ex, "");
    case 2: return k.put(ex, "abc", true);
    case 3: { Buf b("other"); return expectfail(k.c, "set_user_info", ffdb_set_user_info(k.db, (unsigned char *)b.p, 5)); }
    case 4: { ffdb_config_info_t c; memset(&c, 0, sizeof c); c.mtime = 5; return expectfail(k.c, "set_config", ffdb_set_config(k.db, &c)); }
    case 5: { std::vector<ffdb_config_info_t> v(k.cfg.nc); memset(v.data(), 7, v.size() * sizeof v[0]); ffdb_all_config_info_t a; a.numconfigs = k.cfg.nc; a.allconfigs = v.data();
              return expectfail(k.c, "set_all_configs", ffdb_set_all_configs(k.db, &a)); }
    case 6: { k.c.t("sync"); k.db->sync(k.db, 0); return true; }
    case 7: return k.checkall() && k.checkuinfo();
    case 8: return k.scan(0);
    case 9: return k.reopen(O_RDONLY);
    case 10: return k.put(mkkey(3, 600), "too long key");
  }
  return true;
}
int main(int a, char **v) {
  return mc_main(a, v, "P12", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { Family f; f.name = "read-only";
      unsigned D = T ? 4 : 3; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= 11;
      f.count = n * 4 * 3 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(11);
        unsigned h = r.take(4); auto &q = CF[r.take(3)]; int re2 = r.take(2);
        Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = 8; g.nc = 3;
        KV k(c, g); if (!k.create() || !base(k, h) || !k.close()) return;
        std::string before = slurp(k.path);
        k.cfg.rearr = re2;
        if (!k.open(O_RDONLY)) return;
        for (unsigned d = 0; d < D; d++) { if (!roop(k, ops[d])) return; }
        if (!k.checkall() || !k.checkuinfo()) return;
        if (!k.close()) return;
        if (slurp(k.path) != before) { c.f("file-changed", "a read-only handle changed the file"); return; }
        if (!k.open(O_RDWR) || !k.checkall() || !k.checkuinfo()) return;
        k.state(); c.nontrivial = h > 0; k.close();
      };
      s.fams.push_back(f); }
    { // refused operations on a writable handle, repeated often enough to exhaust a small cache if they leaked
      Family f; f.name = "refused";
      unsigned D = T ? 4 : 3; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= 10;
      f.count = n * 3 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(10);
        auto &q = CF[r.take(3)]; unsigned h = 1 + r.take(2);
        Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = 6; g.nc = 3;
        KV k(c, g); if (!k.create() || !base(k, h)) return;
        if (h > 1 && !k.reopen()) return;
        std::vector<std::string> ks; for (auto &e : k.m) ks.push_back(e.first);
        for (int rep = 0; rep < 8; rep++) for (unsigned d = 0; d < D; d++) {
          bool ok = true; int rc; const std::string &x = ks[(d + rep) % ks.size()];
          switch (ops[d]) {
            case 0: ok = k.put(x, mkval(1, 1, k.m[x].size() + 1)); break;                 // would grow
            case 1: ok = k.put(x, mkval(1, 1, k.m[x].size() + 5000)); break;
            case 2: ok = k.put(x, mkval(1, 1, k.m[x].size()), true); break;                // NOOVERWRITE
            case 3: ok = k.putflag(x, mkval(1, 1, k.m[x].size()), FFDB_APPEND, rc); if (ok && rc == 0) { c.f("bad-flag", "unknown flag accepted"); ok = false; } break;
            case 4: ok = k.put(mkkey(70 + d, k.maxkey() + 1), "v"); break;
            case 5: ok = k.put(mkkey(70 + d, 5000), "v"); break;
            case 6: { unsigned n = 65; unsigned char b[65] = {1}; if (ffdb_set_user_info(k.db, b, n) == 0) { c.f("uinfo-result", "too long user info accepted"); ok = false; } break; }
            case 7: { ffdb_config_info_t z; memset(&z, 0, sizeof z); z.index = 3; z.config = 3; if (ffdb_set_config(k.db, &z) == 0) { c.f("config-result", "bad index accepted"); ok = false; } break; }
            case 8: { ffdb_cursor_t *cu = 0; if (k.db->cursor(k.db, &cu, 12345) == 0) { c.f("cursor-type", "unknown cursor type accepted"); ok = false; } break; }
            case 9: { ffdb_cursor_t *cu = 0; FFDB_DBT K, V; K.data = V.data = 0; K.size = V.size = 0; if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) { c.f("cursor-refused", "cursor"); ok = false; break; }
                      if (cu->get(cu, &K, &V, FFDB_SET) == 0) { c.f("cursor-flag", "unknown cursor flag accepted"); ok = false; } cu->close(cu); break; }
          }
          c.transitions++;
          if (!ok) return;
        }
        if (!k.checkall() || !k.checkuinfo() || !k.scan(0)) return;
        if (!k.put("after", "works") || !k.reopen(O_RDONLY) || !k.checkall() || !k.checkuinfo() || !k.scan(0)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f); }
  });
}
