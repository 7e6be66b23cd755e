// P06: page size, bucket count, cache size and rearrangement never change what is stored.
#include "kv.h"
static const unsigned BS[] = {512, 600, 1024, 4096, 8192, 65536};
static const unsigned NB[] = {0, 1, 2, 3, 4, 8, 31, 64};
static const long CP[] = {0, 6, 8, 20, 500};
static void hist(KV &k, int h, int part) {
  auto P = [&](int id, size_t kl, size_t vl, int ver) { return k.c.failed() ? false : k.put(mkkey(id, kl), mkval(id, ver, vl)); };
  switch (h) {
    case 0: for (int i = 0; i < 25; i++) P(i + 100 * part, 30, 40, 0); break;
    case 1: for (int i = 0; i < 12; i++) P(i + 50 * part, 200, 700 * (i % 3), 0); break;
    case 2: for (int i = 0; i < 60; i++) P((i * 7) % 41, 8 + i % 41, 600 - i, part); break;
    case 3: for (int i = 0; i < 5; i++) P(i, 400, 9000, part); break;
    case 4: for (int i = 0; i < 40; i++) { P(i * 4 + part, 100, i * 20, 0); if (i % 8 == 7) k.sync(); } break;
    case 5: P(1, 4, 0, part); P(2, 450, 1, part); break;
  }
}
static Cfg tune(unsigned b, unsigned n, unsigned c, int re) {
  Cfg g; g.bsize = BS[b]; g.nb = NB[n]; g.cachepages = CP[c]; g.rearr = re; return g;
}
int main(int a, char **v) {
  return mc_main(a, v, "P06", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { // every history under every tuning: all agree with the one reference map
      Family f; f.name = "tunings";
      f.count = 6 * 8 * 5 * 2 * 6 * 2;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned b = r.take(6), n = r.take(8), cp = r.take(5); int re = r.take(2), h = r.take(6), ha = r.take(2);
        Cfg g = tune(b, n, cp, re); g.hash = ha ? H_CONST : H_DEFAULT;
        KV k(c, g); if (!k.create()) return;
        hist(k, h, 0); if (c.failed() || !k.checkall()) return;
        if (!k.reopen()) return;
        hist(k, h, 1); if (c.failed() || !k.checkall() || !k.scan(0)) return;
        if (!k.reopen(O_RDONLY) || !k.checkall() || !k.scan(0)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // a file may be reopened with any other tuning; the hints of the opener never matter for content
      Family f; f.name = "retune-between-sessions";
      f.count = (uint64_t)(6 * 5 * 2) * (6 * 4 * 5 * 2) * (T ? 6 : 2);
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i);
        unsigned b0 = r.take(6), c0 = r.take(5); int re0 = r.take(2);
        unsigned b1 = r.take(6), n1 = r.take(4) * 2, c1 = r.take(5); int re1 = r.take(2);
        int h = T ? r.take(6) : (r.take(2) ? 4 : 1);
        KV k(c, tune(b0, b1 % 3 + 1, c0, re0)); if (!k.create()) return;
        hist(k, h, 0); if (c.failed() || !k.close()) return;
        Cfg saved = k.cfg, g = tune(b1, n1, c1, re1);
        if (BS[b0] > BS[b1] && g.cachepages) g.cachepages *= BS[b0] / BS[b1] + 1;   // cache is given in bytes
        k.cfg = g; if (!k.open(O_RDWR)) return;
        k.cfg.bsize = saved.bsize;          // key limit belongs to the file
        if (!k.checkall()) return;
        hist(k, h, 1); if (c.failed() || !k.checkall() || !k.scan(0)) return;
        k.cfg = g; if (!k.reopen(O_RDONLY) || !k.checkall() || !k.scan(2)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // files of several gigabytes (sparse): page addresses beyond 2^31 and 2^32, pages up to the largest
      Family f; f.name = "large-files";
      static const unsigned LB[] = {512, 1024, 4096, 65536, 131072, 262144, 524288, 1048576};
      f.count = 8 * 4 * 2 * 2 * 4;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned bs = LB[r.take(8)]; uint64_t span = (uint64_t)1 << (31 + r.take(4)); int re = r.take(2); int cp = r.take(2) ? 6 : 24; int h = r.take(4);
        Cfg g; g.bsize = bs; g.nb = (unsigned)(span / bs); g.cachepages = cp; g.rearr = re; 
        KV k(c, g); if (!k.create()) return;
        hist(k, h, 0); if (c.failed() || !k.checkall()) return;
        if (!k.reopen() || !k.checkall()) return;
        hist(k, h, 1); if (c.failed() || !k.checkall()) return;
        if (!k.reopen(O_RDONLY) || !k.checkall()) return;
        struct stat st; if (stat(k.path.c_str(), &st) == 0 && st.st_size > (off_t)span) c.nontrivial = true;
        k.state(); k.close(); unlink(k.path.c_str());
      };
      s.fams.push_back(f);
    }
    { // requests at and beyond the largest table: refused, or honoured completely
      Family f; f.name = "extreme-requests";
      static std::vector<std::pair<unsigned, unsigned>> L; L.clear();   // buckets, page size
      for (unsigned p : {16, 20, 24, 28, 29, 30, 31}) for (int d : {-1, 0, 1}) L.push_back({(1u << p) + d, 512});
      L.push_back({0xffffffffu, 512}); L.push_back({0xfffffffeu, 4096}); L.push_back({0xc0000000u, 512});
      for (unsigned p : {0, 1, 8, 9, 12, 16, 17, 18, 19, 20, 21, 24, 30, 31}) for (int d : {-1, 0, 1}) if ((1u << p) + d) L.push_back({1, (1u << p) + d});
      L.push_back({1, 0xffffffffu}); L.push_back({1, 0x80000200u}); L.push_back({4, 0xc0000000u});
      f.count = L.size() * 2;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); auto p = L[r.take((unsigned)L.size())]; int re = r.take(2);
        Cfg g; g.nb = p.first; g.bsize = p.second; g.rearr = re; g.cachepages = g.bsize > 1 << 20 ? 1 : 24;
        c.t("%u buckets, page size %u", p.first, p.second);
        KV k(c, g); FFDB_DB *d = k.rawopen(O_RDWR | O_CREAT | O_TRUNC); c.transitions++;
        if (!d) {
          if (p.first <= 1u << 20 && p.second >= 512 && p.second <= 65536) { c.f("refused", "%u buckets of %u bytes refused", p.first, p.second); return; }
          c.outcome = 7; c.nontrivial = true; unlink(k.path.c_str()); return;
        }
        k.db = d; k.oflags = O_RDWR; unsigned bs = 512; while (bs < p.second && bs < 1u << 30) bs <<= 1; k.cfg.bsize = bs;
        for (int h : {0, 1}) { hist(k, h, 0); if (c.failed() || !k.checkall()) return; }
        if (p.first < 1 << 17 && !k.scan(0)) return;
        if (!k.reopen() || !k.checkall()) return;
        hist(k, 0, 1); if (c.failed() || !k.checkall()) return;
        if (!k.reopen(O_RDONLY) || !k.checkall()) return;
        k.state(); c.nontrivial = true; k.close(); unlink(k.path.c_str());
      };
      s.fams.push_back(f);
    }
    { // every cache size from the smallest usable to far beyond the file
      Family f; f.name = "cache-sizes";
      f.count = 64 * 4 * 2 * 2;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); int cp = 4 + r.take(64); int h = r.take(4); int re = r.take(2); int nb = r.take(2) ? 8 : 1;
        Cfg g; g.cachepages = cp; g.rearr = re; g.nb = nb;
        KV k(c, g); if (!k.create()) return;
        hist(k, h, 0); if (c.failed() || !k.checkall()) return;
        hist(k, (h + 1) % 5, 2); if (c.failed() || !k.checkall()) return;
        if (!k.reopen() || !k.checkall() || !k.scan(0)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
  });
}
