// P03: no key is lost, duplicated or changed as the table grows.
#include "kv.h"
static const unsigned NB[] = {1, 2, 8, 5};
static const long CP[] = {6, 8, 16, 100};
static const size_t VS[] = {0, 1, 20, 100, 430, 455, 470, 480, 500, 1000, 3000};
int main(int a, char **v) {
  return mc_main(a, v, "P03", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    {
      Family f; f.name = "grow";
      static const int NS[] = {1, 3, 9, 17, 40, 80, 160, 300};
      f.count = 4 * 4 * 2 * 3 * 11 * 8 * (T ? 2 : 1);
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Cfg g;
        g.nb = NB[r.take(4)]; g.cachepages = CP[r.take(4)]; g.rearr = r.take(2); g.hash = r.take(3);
        size_t vs = VS[r.take(11)]; int N = NS[r.take(8)]; int two = T ? r.take(2) : (int)(i & 1);
        KV k(c, g); if (!k.create()) return;
        for (int j = 0; j < N; j++) {
          if (two && j == N / 2) { if (!k.reopen()) return; }
          if (!k.put(mkkey(j, 4 + j % 5), mkval(j, 0, vs))) return;
        }
        if (!k.checkall()) return;
        if (!k.reopen(O_RDONLY)) return;
        if (!k.checkall() || !k.scan(0) || !k.get("zzz")) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // after every single insertion all earlier keys are still there: the growth step that loses one is found at once
      Family f; f.name = "grow-check-each-step";
      static const size_t KL[] = {8, 60, 140, 200, 240, 456};
      static const size_t VL[] = {0, 30, 500, 2000};
      f.count = 4 * 3 * 4 * 6 * 4 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Cfg g;
        static const int hs[] = {H_DEFAULT, H_CONST, H_ID, H_HI};
        g.hash = hs[r.take(4)]; g.nb = NB[r.take(3)]; g.cachepages = CP[r.take(4)];
        size_t kl = KL[r.take(6)], vl = VL[r.take(4)]; int ord = r.take(2);
        KV k(c, g); if (!k.create()) return;
        int N = T ? 90 : 40;
        for (int j = 0; j < N; j++) {
          int id = ord ? (j * 37) % 256 : j;
          if (!k.put(mkkey(id, kl), mkval(id, 0, vl + (j % 4)))) return;
          if (!k.checkall()) return;
          k.state();
        }
        if (!k.scan(0) || !k.scan(2)) return;
        c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // every arrival order of six keys that fall into buckets which split
      Family f; f.name = "arrival-orders";
      f.count = 720 * 2 * 3 * 3;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned p = r.take(720); Cfg g; static const int hs[] = {H_ID, H_HI, H_DEFAULT};
        g.nb = r.take(2) + 1; g.hash = hs[r.take(3)]; g.cachepages = 8; size_t kl = r.take(3) == 0 ? 200 : (i & 1) ? 440 : 130;
        static const int ids[] = {0, 1, 2, 3, 4, 6};
        std::vector<int> a(ids, ids + 6), o;
        for (int n = 6; n > 0; n--) { unsigned q = p % n; p /= n; o.push_back(a[q]); a.erase(a.begin() + q); }
        KV k(c, g); if (!k.create()) return;
        for (int id : o) { if (!k.put(mkkey(id, kl), mkval(id, 0, 90 * id))) return; k.state(); if (!k.checkall()) return; }
        if (!k.reopen() || !k.checkall()) return;
        for (int id : o) if (!k.put(mkkey(id + 8, kl), mkval(id, 1, 50 * id))) return;
        if (!k.checkall() || !k.scan(0)) return;
        c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // long tables: several doublings, all page sizes
      Family f; f.name = "many-keys"; f.timeout = 120;
      static const unsigned bs[] = {512, 1024, 4096};
      f.count = 3 * 3 * 2 * 2 * 3;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Cfg g; g.bsize = bs[r.take(3)]; static const unsigned nb[] = {1, 2, 64}; g.nb = nb[r.take(3)]; g.rearr = r.take(2);
        g.cachepages = r.take(2) ? 1000 : 16; size_t vl = r.take(3) * 150;
        KV k(c, g); if (!k.create()) return;
        int N = T ? 20000 : 3000;
        for (int j = 0; j < N; j++) if (!k.put(mkkey(j, 4 + j % 40), mkval(j, 0, vl ? j % vl : 8))) return;
        if (!k.checkall()) return;
        if (!k.reopen() || !k.checkall() || !k.scan(0)) return;
        for (int j = 0; j < 500; j++) if (!k.put(mkkey(N + j, 30), mkval(j, 1, 100))) return;
        if (!k.reopen(O_RDONLY) || !k.checkall() || !k.scan(2)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // long keys: every split frees overflow pages, the lists of free pages fill up and need further pages
      Family f; f.name = "long-keys"; f.timeout = 120;
      static const size_t KL[] = {100, 150, 151, 220, 300, 456};
      f.count = 6 * 4 * 3 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Cfg g; size_t kl = KL[r.take(6)]; static const int hs[] = {H_DEFAULT, H_ID, H_HI, H_DEFAULT}; unsigned hk = r.take(4);
        g.hash = hs[hk]; g.nb = hk == 3 ? 16 : 1; static const long cp[] = {16, 200, 3000}; g.cachepages = cp[r.take(3)]; g.rearr = r.take(2);
        KV k(c, g); if (!k.create()) return;
        int N = T ? 20000 : 6000; if (g.hash == H_HI) N = T ? 4000 : 1200;
        for (int j = 0; j < N; j++) if (!k.put(mkkey(j, kl), mkval(j, 0, j % 9))) return;
        if (!k.checkall() || !k.scan(0)) return;
        if (!k.reopen() || !k.checkall()) return;
        for (int j = 0; j < 400; j++) if (!k.put(mkkey(N + j, kl), mkval(j, 1, 10))) return;
        if (!k.reopen(O_RDONLY) || !k.checkall() || !k.scan(2)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
  });
}
