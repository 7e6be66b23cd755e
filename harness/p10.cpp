// P10: user information and configuration records are kept exactly, independent of the stored keys.
#include "kv.h"
typedef std::vector<ffdb_config_info_t> CV;
static ffdb_config_info_t mk(int i, int ver) {
  ffdb_config_info_t c; memset(&c, 0, sizeof c); c.config = 3 * i + 11; c.index = i; c.inserted = ver & 1; c.type = i ^ 0x55; c.mtime = 1000 * ver + i;
  int n = ver % 3 == 2 ? 128 : 20; for (int k = 0; k < n; k++) c.fname[k] = (char)('a' + (k + i + ver) % 26);
  return c;
}
struct Meta {
  KV &k; CV cur; bool set = false;
  Meta(KV &k_) : k(k_) {}
  bool setall(int ver, int n = -1) {
    k.c.transitions++;
    if (n < 0) n = k.cfg.nc;
    CV v; for (int i = 0; i < n; i++) v.push_back(mk(i, ver));
    ffdb_all_config_info_t a; a.numconfigs = n; a.allconfigs = v.data();
    int rc = ffdb_set_all_configs(k.db, &a); bool ok = n == (int)k.cfg.nc;
    k.c.t("set_all_configs(%d records, v%d) = %d", n, ver, rc);
    if ((rc == 0) != ok) { k.c.f("configs-result", "set_all_configs(%d of %u) returned %d", n, k.cfg.nc, rc); return false; }
    if (ok) { cur = v; set = true; }
    return true;
  }
  bool setone(int i, int ver) {
    k.c.transitions++;
    ffdb_config_info_t c = mk(i, ver); int rc = ffdb_set_config(k.db, &c);
    bool ok = set && i >= 0 && i < (int)k.cfg.nc;
    k.c.t("set_config(%d, v%d) = %d", i, ver, rc);
    if ((rc == 0) != ok) { k.c.f("config-result", "set_config(index %d of %u) returned %d", i, k.cfg.nc, rc); return false; }
    if (ok) cur[i] = c;
    return true;
  }
  bool check() {
    k.c.transitions++;
    if (ffdb_num_configs(k.db) != k.cfg.nc) { k.c.f("num-configs", "%u configurations, expected %u", ffdb_num_configs(k.db), k.cfg.nc); return false; }
    ffdb_all_config_info_t a; a.allconfigs = 0;
    if (ffdb_get_all_configs(k.db, &a) != 0) { k.c.f("configs-get", "get_all_configs failed"); return false; }
    bool ok = a.numconfigs == (int)k.cfg.nc;
    ffdb_config_info_t z; memset(&z, 0, sizeof z);
    for (unsigned i = 0; ok && i < k.cfg.nc; i++) if (memcmp(&a.allconfigs[i], set ? &cur[i] : &z, sizeof z)) { ok = false; k.c.f("configs-data", "configuration %u of %u differs", i, k.cfg.nc); }
    free(a.allconfigs);
    if (!ok) { k.c.f("configs-data", "number of configurations"); return false; }
    for (unsigned i = 0; set && i < k.cfg.nc; i++) {
      ffdb_config_info_t c; memset(&c, 0xee, sizeof c); int rc = ffdb_get_config(k.db, cur[i].config, &c);
      if (rc != 0 || memcmp(&c, &cur[i], sizeof c)) { k.c.f("config-get", "get_config(%d) returned %d or another record", cur[i].config, rc); return false; }
    }
    ffdb_config_info_t c; memset(&c, 0, sizeof c);
    if (ffdb_get_config(k.db, 999999, &c) == 0) { k.c.f("config-phantom", "get_config of an unknown configuration succeeded"); return false; }
    return true;
  }
};
static const unsigned UIL[] = {1, 4, 100, 451, 452, 479, 480, 481, 484, 485, 963, 964, 965, 1000, 2000};
int main(int a, char **v) {
  return mc_main(a, v, "P10", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { // every length for every capacity around the page boundaries
      Family f; f.name = "userinfo-lengths";
      f.count = 0; static std::vector<std::pair<unsigned, unsigned>> L; L.clear();
      for (unsigned u : UIL) for (unsigned n = 0; n <= u + 2; n++) { if (!T && u >= 963 && n < u - 40 && n % 7) continue; L.push_back({u, n}); }
      f.count = L.size() * 2;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); auto p = L[r.take((unsigned)L.size())]; int nb = r.take(2) ? 4 : 1;
        Cfg g; g.uil = p.first; g.nb = nb; g.nc = 4; g.cachepages = 6;
        KV k(c, g); Meta M(k); if (!k.create()) return;
        if (!k.checkuinfo() || !M.check()) return;                     // nothing stored yet: empty
        if (!k.put("key1", mkval(1, 1, 300)) || !M.setall(1)) return;
        if (!k.setuinfo(mkval(8, 1, p.first)) || !k.checkuinfo()) return;   // full capacity first
        if (!k.setuinfo(mkval(9, 2, p.second)) || !k.checkuinfo()) return;
        for (int j = 0; j < 5; j++) if (!k.put(mkkey(j, 180), mkval(j, 0, 500))) return;
        if (!k.checkuinfo() || !M.check() || !k.checkall()) return;
        // a caller buffer one byte short is refused, an exact one suffices
        if (k.uinfo.size()) {
          unsigned n = (unsigned)k.uinfo.size() - 1; unsigned char *b = (unsigned char *)malloc(n ? n : 1);
          int rc = ffdb_get_user_info(k.db, b, &n); free(b);
          if (rc == 0) { c.f("uinfo-short", "get_user_info into a short buffer succeeded"); return; }
          n = (unsigned)k.uinfo.size(); b = (unsigned char *)malloc(n); rc = ffdb_get_user_info(k.db, b, &n);
          bool ok = rc == 0 && n == k.uinfo.size() && !memcmp(b, k.uinfo.data(), n); free(b);
          if (!ok) { c.f("uinfo-data", "get_user_info into an exact buffer"); return; }
        }
        if (!k.reopen(O_RDONLY) || !k.checkuinfo() || !M.check() || !k.checkall()) return;
        k.state(); c.nontrivial = p.second > 0; k.close();
      };
      s.fams.push_back(f);
    }
    { // every number of configurations, every one of them updated
      Family f; f.name = "config-counts";
      unsigned N = T ? 64 : 24;
      f.count = N * 3 * 3;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Cfg g; g.nc = 1 + r.take(N); unsigned bsx = r.take(3); (void)bsx; int ver = r.take(3);
        g.bsize = bsx == 0 ? 512 : bsx == 1 ? 1024 : 2048; g.cachepages = 6; g.uil = 600;
        KV k(c, g); Meta M(k); if (!k.create() || !M.check()) return;
        if (!k.setuinfo("u") || !M.setone(0, ver)) return;
        if (!M.setall(ver) || !M.check()) return;
        for (unsigned j = 0; j < g.nc; j++) { if (!M.setone(j, ver + 1)) return; if (!M.check()) return; }
        if (!M.setone(-1, 0) || !M.setone((int)g.nc, 0) || !M.setone((int)g.nc + 3, 0)) return;
        if (!M.setall(5, (int)g.nc + 1) || !M.setall(5, (int)g.nc - 1)) return;
        for (int j = 0; j < 8; j++) if (!k.put(mkkey(j, 170), mkval(j, 0, 90))) return;
        if (!M.check() || !k.checkuinfo()) return;
        if (!k.reopen() || !M.check() || !k.checkuinfo() || !k.checkall()) return;
        if (!M.setone((int)g.nc - 1, 8) || !k.reopen(O_RDONLY) || !M.check() || !k.checkall()) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // declared capacities around and beyond what the file can describe: refused, or kept to the last byte and record
      Family f; f.name = "declared-capacities"; f.timeout = 200;
      static std::vector<std::pair<unsigned, unsigned>> L; L.clear();   // user information, configurations (page size 512: 484 bytes or 3 records to a page)
      for (unsigned n : {60000u, 65532u, 65533u, 65534u, 65535u, 65536u, 65537u, 70000u}) { L.push_back({484 * n - 4, 1}); L.push_back({64, 3 * n}); }
      for (unsigned n : {65534u, 65535u, 65536u}) { L.push_back({484 * n - 3, 1}); L.push_back({64, 3 * n + 1}); }
      for (unsigned u : {0xffffffffu, 0xfffffffeu, 0xfffffffdu, 0xfffffffcu, 0xfffffffbu, 0xfffffff0u, 0x80000000u, 0x7fffffffu}) { L.push_back({u, 1}); L.push_back({64, u}); }
      L.push_back({484 * 32767 - 4, 3 * 32768}); L.push_back({484 * 40000 - 4, 3 * 40000}); L.push_back({484 * 65533 - 4, 3 * 10});
      f.count = L.size();
      f.run = [](uint64_t i, Ctx &c) {
        Cfg g; g.uil = L[i].first; g.nc = L[i].second; g.cachepages = 300000;
        c.t("capacity %u bytes, %u configurations", g.uil, g.nc);
        KV k(c, g); Meta M(k); FFDB_DB *d = k.rawopen(O_RDWR | O_CREAT | O_TRUNC); c.transitions++;
        uint64_t pages = 1 + ((uint64_t)g.uil + 4 + 483) / 484 + ((uint64_t)g.nc + 2) / 3;
        if (!d) {
          if (pages <= 60100) { c.f("refused", "%u bytes and %u configurations refused", g.uil, g.nc); return; }
          c.outcome = 7; c.nontrivial = true; return;
        }
        k.db = d; k.oflags = O_RDWR;
        std::string u = mkval(3, 1, std::min(g.uil, 40000000u)); unsigned nc = std::min(g.nc, 300000u);
        auto chk = [&]() {
          c.transitions++;
          unsigned char *b = (unsigned char *)malloc(u.size()); unsigned len = (unsigned)u.size(); int rc = ffdb_get_user_info(k.db, b, &len);
          bool ok = rc == 0 && len == u.size() && !memcmp(b, u.data(), len); free(b);
          if (!ok) { c.f("uinfo-data", "%zu bytes of user information in a capacity of %u: returned %d, %u bytes", u.size(), g.uil, rc, len); return false; }
          if (ffdb_num_configs(k.db) != g.nc) { c.f("num-configs", "%u configurations, expected %u", ffdb_num_configs(k.db), g.nc); return false; }
          if (g.nc <= 300000) {
            ffdb_all_config_info_t a; a.allconfigs = 0;
            if (ffdb_get_all_configs(k.db, &a) != 0 || a.numconfigs != (int)g.nc) { c.f("configs-get", "get_all_configs"); return false; }
            for (unsigned j = 0; ok && j < g.nc; j++) { ffdb_config_info_t x = mk(j, 1); ok = !memcmp(&a.allconfigs[j], &x, sizeof x); }
            free(a.allconfigs); if (!ok) { c.f("configs-data", "one of %u configurations differs", g.nc); return false; }
          }
          return k.checkall();
        };
        for (int j = 0; j < 4; j++) if (!k.put(mkkey(j, 200), mkval(j, 0, 700 * j))) return;
        Buf b(u); if (ffdb_set_user_info(k.db, (unsigned char *)b.p, (unsigned)b.n) != 0) { c.f("uinfo-result", "%zu bytes refused in a capacity of %u", u.size(), g.uil); return; }
        { CV v; for (unsigned j = 0; j < nc; j++) v.push_back(mk(j, 1)); ffdb_all_config_info_t x; x.numconfigs = nc; x.allconfigs = v.data();
          if (nc == g.nc && ffdb_set_all_configs(k.db, &x) != 0) { c.f("configs-result", "%u configurations refused", nc); return; } }
        for (int j = 4; j < 12; j++) if (!k.put(mkkey(j, 200), mkval(j, 0, 700))) return;
        if (!chk() || !k.reopen(O_RDONLY) || !chk()) return;
        c.nontrivial = true; c.outcome = i + 10; c.states.push_back(i); k.close(); unlink(k.path.c_str());
      };
      s.fams.push_back(f);
    }
    { // all operation sequences
      Family f; f.name = "op-sequences";
      unsigned D = T ? 5 : 4; const unsigned NO = 10; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= NO;
      f.count = n * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(NO); int re = r.take(2);
        Cfg g; g.nc = 4; g.uil = 500; g.cachepages = 6; g.rearr = re;
        KV k(c, g); Meta M(k); if (!k.create()) return;
        for (unsigned d = 0; d < D; d++) {
          bool ok = true;
          switch (ops[d]) {
            case 0: ok = M.setall(d); break;
            case 1: ok = M.setone(0, d); break;
            case 2: ok = M.setone(3, d); break;
            case 3: ok = k.setuinfo(mkval(1, d, 500)); break;
            case 4: ok = k.setuinfo(mkval(2, d, 3)); break;
            case 5: ok = k.setuinfo(mkval(2, d, 501)); break;
            case 6: ok = k.reopen(); break;
            case 7: ok = k.sync(); break;
            case 8: for (int j = 0; j < 3 && ok; j++) ok = k.put(mkkey(d * 8 + j, 220), mkval(j, d, 600)); break;
            case 9: ok = M.setall(d, 3); break;
          }
          if (!ok || !M.check() || !k.checkuinfo()) return;
          k.state();
        }
        if (!k.checkall() || !k.reopen(O_RDONLY) || !M.check() || !k.checkuinfo() || !k.checkall()) return;
        c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
  });
}
