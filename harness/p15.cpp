// P15: the file format is fixed: an independent reader finds exactly the stored pairs after every history,
// and files written long ago open and can be extended.
#include "golden.h"
#include "fmt.h"
static unsigned (*hf(int h))(const void *, unsigned) {
  return h == H_DEFAULT ? fmt_fnv : h == H_ID ? kv_hash_id : h == H_CONST ? kv_hash_const : kv_hash_hi;
}
typedef std::vector<ffdb_config_info_t> CV;
static bool setcfg(KV &k, const CV &cf) {
  CV t = cf; ffdb_all_config_info_t a; a.numconfigs = (int)t.size(); a.allconfigs = t.data();
  k.c.transitions++;
  if (ffdb_set_all_configs(k.db, &a) != 0) { k.c.f("configs", "set_all_configs failed"); return false; }
  return true;
}
// the file as it lies on disk, read without the library
static bool image(KV &k, const CV *cf, const char *when, uint32_t version = 6) {
  Ctx &c = k.c; Img im; im.hash = hf(k.cfg.hash);
  if (!im.load(k.path)) { c.f("no-file", "%s: no file", when); return false; }
  c.t("independent reader, %s, %zu bytes", when, im.b.size());
  std::map<std::string, std::string> m; std::string u; std::vector<std::string> r;
  if (!im.header_ok()) { c.f("format-header", "%s: header", when); return false; }
  if (im.version() != version || im.h32(8) != 1234 || im.bsize() != k.cfg.bsize) { c.f("format-header", "%s: version %u order %u page size %u", when, im.version(), im.h32(8), im.bsize()); return false; }
  if (im.h32(64) != hf(k.cfg.hash)("%$sniglet^&", 12)) { c.f("format-hash", "%s: hash identification %x", when, im.h32(64)); return false; }
  if (!im.read(m)) { c.f("format", "%s: %s", when, im.err.c_str()); return false; }
  if (m != k.m) { c.f("format-content", "%s: the file holds %zu pairs, not the %zu stored", when, m.size(), k.m.size()); return false; }
  if (k.uset) { if (!im.userinfo(u) || u != k.uinfo) { c.f("format-info", "%s: user information %s", when, im.err.c_str()); return false; } }
  if (im.h32(48) != k.cfg.uil || im.h32(60) != k.cfg.nc) { c.f("format-header", "%s: information length %u configurations %u", when, im.h32(48), im.h32(60)); return false; }
  if (cf) {
    if (!im.configs(r) || r.size() != cf->size()) { c.f("format-configs", "%s: %s (%zu of %zu)", when, im.err.c_str(), r.size(), cf->size()); return false; }
    for (size_t i = 0; i < r.size(); i++) if (memcmp(r[i].data(), &(*cf)[i], 20) || strcmp(r[i].data() + 20, (*cf)[i].fname)) { c.f("format-configs", "%s: configuration %zu", when, i); return false; }
  }
  return true;
}
static bool op(KV &k, unsigned o, unsigned p, CV &cf, bool &hascf) {
  std::vector<std::string> ks; for (auto &e : k.m) ks.push_back(e.first);
  switch (o) {
    case 0: return k.put(mkkey(60 + p, 9), mkval(1, p, 3));
    case 1: for (unsigned j = 0; j < 7; j++) if (!k.put(mkkey(100 * (p + 1) + j, 90), mkval(j, p, 40 * j))) return false; return true;
    case 2: return k.put(mkkey(80 + p, 50), mkval(2, p, 3 * k.cfg.bsize + 17));
    case 3: for (auto &x : ks) if (!k.put(x, mkval(3, p, k.m[x].size() / 2))) return false; return true;
    case 4: return k.setuinfo(mkval(9, p, (p * 29) % (k.cfg.uil + 1)));
    case 5: cf.clear(); for (unsigned i = 0; i < k.cfg.nc; i++) cf.push_back(gold_cfg(p, i)); hascf = true; return setcfg(k, cf);
    case 6: return k.sync() && image(k, hascf ? &cf : 0, "after sync");
    case 7: { if (!k.close() || !image(k, hascf ? &cf : 0, "after close")) return false; k.cfg.rearr ^= 1; return k.open(O_RDWR); }
    case 8: for (unsigned j = 0; j < 25; j++) if (!k.put(mkkey(1000 * (p + 1) + j * 4, 60), mkval(j, p, 5))) return false; return true;
    case 9: return k.put(mkkey(40 + p, k.maxkey()), mkval(4, p, 0)) && k.put(mkkey(50 + p, k.maxkey() - 1 - p), mkval(4, p, 1));
  }
  return true;
}
static const struct { unsigned bs, nb; int hash, re; unsigned uil, nc; } CF[] = {{512, 1, H_DEFAULT, 0, 64, 2}, {512, 4, H_DEFAULT, 1, 1000, 7}, {1024, 2, H_ID, 1, 64, 13}, {512, 8, H_CONST, 0, 5, 1}};
int main(int a, char **v) {
  return mc_main(a, v, "P15", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { Family f; f.name = "histories"; unsigned D = T ? 5 : 4; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= 10;
      f.count = n * 4;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(10);
        auto &q = CF[r.take(4)]; Cfg g; g.bsize = q.bs; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.uil = q.uil; g.nc = q.nc; g.cachepages = 12;
        CV cf; bool has = false;
        KV k(c, g); if (!k.create()) return;
        for (unsigned d = 0; d < D; d++) { if (!op(k, ops[d], d, cf, has)) return; k.state(); }
        if (!k.close() || !image(k, has ? &cf : 0, "after close")) return;
        c.nontrivial = !k.m.empty(); c.outcome = mix(c.outcome, k.m.size());
      };
      s.fams.push_back(f); }
    { Family f; f.name = "growth";   // every table size
      f.count = 4 * 2 * 4 * (T ? 400 : 120);
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); auto &q = CF[r.take(4)]; int re = r.take(2); int ca = r.take(2), tg = r.take(2); unsigned n = r.v; if (q.hash == H_CONST && n > 60) n = n % 60;
        Cfg g; g.bsize = q.bs; g.nb = q.nb; g.hash = q.hash; g.rearr = re; g.uil = q.uil; g.nc = q.nc; g.cachepages = ca ? 12 : 0;
        KV k(c, g); if (!k.create()) return;
        for (unsigned j = 0; j < n; j++) if (!k.put(mkkey(j, 20 + (j * 31) % 100), mkval(j, 0, (j * 97) % 700))) return;
        k.state(); if (!k.close() || !image(k, 0, "after close")) return;
        k.cfg.rearr ^= tg; k.cfg.cachepages = ca ? 6 : 200;
        if (!k.open(O_RDWR) || !k.put("one more", "value") || !k.sync() || !image(k, 0, "after sync")) return;
        if (!k.put("another", mkval(3, 3, 2000)) || !k.close() || !image(k, 0, "after a second session")) return;
        c.nontrivial = n > 0; c.outcome = n + 1;
      };
      s.fams.push_back(f); }
    { Family f; f.name = "reference-files";
      f.count = NGOLD * 2 * 5 * 3;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned g = r.take(NGOLD); int re = r.take(2); unsigned add = r.take(5); unsigned ca = r.take(3);
        c.t("reference file %s", GOLD[g].file);
        KV k(c, gold_conf(g)); k.cfg.rearr = re; k.cfg.cachepages = ca == 0 ? 0 : ca == 1 ? 8 : 400;
        Img im; if (!im.load(std::string(HARNESS_DIR) + "/golden/" + GOLD[g].file) || !im.save(k.path)) { c.f("setup", "no reference file"); return; }
        for (unsigned j = 0; j < GOLD[g].nkeys; j++) k.m[gold_key(g, j)] = gold_val(g, j);
        k.uinfo = gold_info(g); k.uset = true;
        CV cf; for (unsigned j = 0; j < GOLD[g].nc; j++) cf.push_back(gold_cfg(g, j));
        auto verify = [&]() {
          if (!k.checkall() || !k.scan(0) || !k.scan(2) || !k.checkuinfo() || !k.absent("absent")) return false;
          ffdb_all_config_info_t al; memset(&al, 0, sizeof al);
          if (ffdb_num_configs(k.db) != GOLD[g].nc || ffdb_get_all_configs(k.db, &al) != 0 || al.numconfigs != (int)GOLD[g].nc) { c.f("configs", "get_all_configs"); return false; }
          bool ok = true;
          for (unsigned j = 0; j < GOLD[g].nc; j++) if (memcmp(&al.allconfigs[j], &cf[j], 20) || strcmp(al.allconfigs[j].fname, cf[j].fname)) { c.f("configs", "configuration %u of the reference file", j); ok = false; break; }
          free(al.allconfigs); return ok; };
        if (!k.open(O_RDONLY) || !verify() || !k.close()) return;
        if (!image(k, &cf, "after reading")) return;
        if (!k.open(O_RDWR) || !verify()) return;
        std::string big = GOLD[g].nkeys ? gold_key(g, 0) : "";
        if (add == 1) { for (unsigned j = 0; j < 30; j++) if (!k.put(mkkey(7000 + j, 80), mkval(j, 0, j * 20))) return; }
        if (add == 2) { for (unsigned j = 0; j < GOLD[g].nkeys; j += 2) { std::string x = gold_key(g, j); if (!k.put(x, mkval(5, 5, k.m[x].size()))) return; } }
        if (add == 3) { if (!k.setuinfo("new info") ) return; cf[0].mtime = 99; if (!setcfg(k, cf)) return; }
        if (add == 4) { for (unsigned j = 0; j < 120; j++) if (!k.put(mkkey(9000 + j * 2, 60), mkval(j, 0, 3))) return; }
        if (!verify() || !k.close() || !image(k, &cf, "after writing")) return;
        if (!k.open(O_RDONLY) || !verify() || !k.close()) return;
        k.state(); c.nontrivial = true; c.outcome = mix(g, add);
      };
      s.fams.push_back(f); }
  });
}
