// P09: files of the other byte order and of format version 5 are read and extended like native ones.
#include "kv.h"
#include "fmt.h"
static bool history(KV &k, unsigned h) {
  auto P = [&](int id, size_t kl, size_t vl, int ver) { return k.c.failed() ? false : k.put(mkkey(id, kl), mkval(id, ver, vl)); };
  switch (h) {
    case 0: break;
    case 1: P(1, 10, 5, 0); break;
    case 2: for (int i = 0; i < 6; i++) P(i, 200, 30, 0); break;
    case 3: for (int i = 0; i < 4; i++) P(i, 40, 1200 + i, 0); break;
    case 4: for (int i = 0; i < 30; i++) P(i, 100, i * 11, 0); break;
    case 5: for (int i = 0; i < 12; i++) { P(i, 60, 300, 0); } for (int i = 0; i < 12; i += 2) P(i, 60, 100, 1); break;
    case 6: for (int i = 0; i < 70; i++) P(i * 3, 130 + i % 30, 60, 0); break;      // splits release overflow pages
    case 7: for (int i = 0; i < 5; i++) P(i, 456, 0, 0); P(9, 4, 5000, 0); break;
    case 8: for (int i = 0; i < 25; i++) P(i, 20, i % 4, 0); break;                 // many tiny items per data page
  }
  return !k.c.failed();
}
static const unsigned NH = 9;
struct CF { unsigned nb; int hash, re; long cp; };
static const CF CFS[] = {{1, H_DEFAULT, 0, 64}, {2, H_ID, 1, 8}, {4, H_CONST, 1, 64}, {1, H_HI, 1, 12}};
static ffdb_config_info_t mkcfg(int i, int ver) {
  ffdb_config_info_t c; memset(&c, 0, sizeof c); c.config = 10 * i + 7; c.index = i; c.inserted = ver & 1; c.type = 0x01020304; c.mtime = 100000 + ver;
  snprintf(c.fname, sizeof c.fname, "config_%d_%d", i, ver); return c;
}
static bool setcfgs(KV &k, int ver) {
  std::vector<ffdb_config_info_t> v; for (unsigned i = 0; i < k.cfg.nc; i++) v.push_back(mkcfg(i, ver));
  ffdb_all_config_info_t a; a.numconfigs = (int)v.size(); a.allconfigs = v.data();
  if (ffdb_set_all_configs(k.db, &a) != 0) { k.c.f("configs", "set_all_configs failed"); return false; }
  return true;
}
static bool chkcfgs(KV &k, int ver) {
  ffdb_all_config_info_t a; if (ffdb_get_all_configs(k.db, &a) != 0) { k.c.f("configs", "get_all_configs failed"); return false; }
  bool ok = a.numconfigs == (int)k.cfg.nc;
  for (unsigned i = 0; ok && i < k.cfg.nc; i++) { ffdb_config_info_t w = mkcfg(i, ver); ok = !memcmp(&w, &a.allconfigs[i], sizeof w); }
  free(a.allconfigs);
  if (!ok) k.c.f("configs", "configuration information differs");
  return ok;
}
int main(int a, char **v) {
  return mc_main(a, v, "P09", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { Family f; f.name = "foreign-files";
      // history x config x {foreign order, version 5, both} x follow-up history x rearrange of follower x reader mode
      f.count = NH * 4 * 3 * NH * 2 * 2 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned h = r.take(NH); const CF &q = CFS[r.take(4)]; unsigned kind = r.take(3); unsigned h2 = r.take(NH); int re2 = r.take(2); int ui = r.take(2), sy = r.take(2);
        Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = q.cp; g.uil = ui ? 700 : 64; g.nc = ui ? 7 : 1;
        KV k(c, g); if (!k.create()) return;
        if (!k.setuinfo(mkval(5, h, ui ? 650 : 11)) || !setcfgs(k, 1)) return;
        if (!history(k, h)) return;
        if (!k.close()) return;
        Img im; std::map<std::string, std::string> got;
        if (!im.load(k.path)) { c.f("harness", "load"); return; }
        if (!im.read(got)) { c.f("format", "the file written is not in the documented format: %s", im.err.c_str()); return; }
        if (got != k.m) { c.f("format-content", "independent reader finds %zu of %zu entries", got.size(), k.m.size()); return; }
        if (kind != 0 && !im.to_version5()) { c.f("format", "status flags"); return; }
        if (kind != 1) im.swap_order();
        bool big = im.big(); uint32_t ver = im.version();
        if (!im.save(k.path)) { c.f("harness", "save"); return; }
        c.t("file converted: byte order %s, version %u", big ? "big" : "little", ver);
        if (!k.open(O_RDONLY) || !k.checkall() || !k.scan(0) || !k.absent(mkkey(777, 30)) || !k.checkuinfo() || !chkcfgs(k, 1) || !k.close()) return;
        k.cfg.rearr = re2;
        if (!k.open(O_RDWR) || !k.checkall()) return;
        // extend with fresh keys, replace some
        for (int j = 0; j < (int)(h2 * 5); j++) if (!k.put(mkkey(1000 + j, 60 + 17 * (j % 8)), mkval(j, 3, (j * 131) % 900))) return;
        if (k.m.size() && !k.put(k.m.begin()->first, mkval(9, 9, k.m.begin()->second.size()))) return;
        if (h2 & 1) { if (!k.setuinfo(mkval(6, h2, 20)) || !setcfgs(k, 2)) return; }
        if (sy && !k.sync()) return;
        if (!k.checkall() || !k.scan(2)) return;
        if (!k.close()) return;
        // still of the same order and version, still in the documented format
        if (!im.load(k.path)) { c.f("harness", "load"); return; }
        if (im.big() != big || im.version() != ver) { c.f("order-changed", "byte order or version of the file changed"); return; }
        if (!im.read(got)) { c.f("format", "the extended file is not in the documented format: %s", im.err.c_str()); return; }
        if (got != k.m) { c.f("format-content", "independent reader finds %zu of %zu entries after extension", got.size(), k.m.size()); return; }
        if (!k.open(O_RDONLY) || !k.checkall() || !k.scan(0) || !k.checkuinfo() || !chkcfgs(k, h2 & 1 ? 2 : 1) || !k.close()) return;
        // converting it back gives the same content natively
        if (kind == 0) {
          im.swap_order(); if (!im.save(k.path)) return;
          if (!k.open(O_RDWR) || !k.checkall() || !k.scan(0) || !k.checkuinfo() || !k.put(mkkey(5555, 40), "x") || !k.close()) return;
        }
        k.state(); c.nontrivial = h > 0;
      };
      s.fams.push_back(f); }
    { Family f; f.name = "other-page-sizes";
      static const unsigned bs[] = {1024, 4096, 16384};
      f.count = 3 * 4 * 3 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Cfg g; g.bsize = bs[r.take(3)]; const CF &q = CFS[r.take(4)]; unsigned kind = r.take(3); g.rearr = r.take(2); g.hash = q.hash; g.nb = q.nb; g.cachepages = 40; g.nc = 9; g.uil = 4000;
        KV k(c, g); if (!k.create()) return;
        int N = T ? 1500 : 300;
        if (!k.setuinfo(mkval(5, 1, 3999)) || !setcfgs(k, 1)) return;
        for (int j = 0; j < N; j++) if (!k.put(mkkey(j, 10 + j % 200), mkval(j, 0, (j * 37) % 600))) return;
        if (!k.close()) return;
        Img im; if (!im.load(k.path)) return;
        if (kind != 0 && !im.to_version5()) { c.f("format", "status flags"); return; }
        if (kind != 1) im.swap_order();
        im.save(k.path);
        if (!k.open(O_RDWR) || !k.checkall() || !k.checkuinfo() || !chkcfgs(k, 1)) return;
        for (int j = 0; j < N; j++) if (!k.put(mkkey(100000 + j, 10 + j % 200), mkval(j, 0, (j * 41) % 600))) return;
        if (!k.checkall() || !k.close() || !k.open(O_RDONLY) || !k.checkall() || !k.scan(0)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f); }
  });
}
