// P01: within one session the database behaves as a map, for every operation sequence.
#include "kv.h"
// Keys of 200 bytes: two fit on a 512 byte page, so the third colliding key overflows, which expands the table.
static std::string K(int i, size_t n = 200) { return mkkey(i, n); }
static const int KID[] = {0, 1, 2, 4, 3, 8, 5, 16};

struct Conf { unsigned nb; long cp; int hash; int rearr; };
static const Conf CONF[] = {
  {1, 64, H_ID, 0}, {1, 6, H_CONST, 1}, {2, 64, H_HI, 1}, {1, 6, H_DEFAULT, 0}, {4, 8, H_ID, 1}, {2, 6, H_CONST, 0},
};
// one operation of the alphabet
static const int NK = 3;
static bool op(KV &k, unsigned o) {
  if (o < NK * 4) {
    int key = KID[o % NK]; int what = o / NK;
    switch (what) {
      case 0: return k.put(K(key), mkval(key, k.c.transitions & 7, 700));       // spans data pages
      case 1: return k.put(K(key), mkval(key, 100 + (k.c.transitions & 7), 24));
      case 2: return k.put(K(key), mkval(key, 300, 24), true);
      default: return k.put(K(key), std::string());                            // empty value
    }
  }
  switch (o - NK * 4) {
    case 0: return k.sync();
    case 1: return k.put(K(4), mkval(4, k.c.transitions & 3, 3000));
    case 2: return k.put(mkkey(77, k.maxkey() + 1), "x");                      // refused: too long
    case 3: { int rc; if (!k.putflag(K(1), "zz", FFDB_APPEND, rc)) return false;
              if (rc != -1) { k.c.f("bad-flag", "put with an unknown flag returned %d", rc); return false; } return true; }
  }
  return true;
}
static const unsigned NOPS = NK * 4 + 4;
static bool check(KV &k) {
  k.state();
  if (!k.checkall()) return false;
  for (int i : KID) if (!k.m.count(K(i))) if (!k.absent(K(i))) return false;
  return k.absent(mkkey(77, 40)) && k.absent(K(0).substr(0, 199)) && k.absent(K(0) + "x");
}
static void seq(Suite &s, const char *name, unsigned depth, unsigned nconf, int prefix) {
  Family f; f.name = name;
  uint64_t n = 1; for (unsigned d = 0; d < depth; d++) n *= NOPS;
  f.count = n * nconf;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i);
    const Conf &q = CONF[r.take(nconf)];
    Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.rearr;
    KV k(c, g);
    if (!k.create()) return;
    // prefix: number of extra keys present before the explored operations
    for (int j = 0; j < prefix; j++) if (!k.put(mkkey(100 + j, 200), mkval(100 + j, 0, 40 + 97 * (j % 7)))) return;
    if (prefix && !k.reopen()) return;
    bool ok = true;
    for (unsigned d = 0; d < depth && ok; d++) ok = op(k, r.take(NOPS)) && check(k);
    if (!ok) return;
    if (!k.scan(0)) return;
    if (!k.close()) return;
    c.nontrivial = k.m.size() > 0;
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P01", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    seq(s, "ops3-from-empty", 3, 6, 0);
    seq(s, "ops3-from-7-keys", 3, 6, 7);
    seq(s, "ops4-from-empty", 4, T ? 6 : 2, 0);
    if (T) { seq(s, "ops4-from-3-keys", 4, 6, 3); seq(s, "ops4-from-7-keys", 4, 4, 7); seq(s, "ops5-from-empty", 5, 2, 0); }
    { // every value length up to three pages for two neighbouring items, small and large page
      Family f; f.name = "value-lengths";
      static const unsigned second[] = {0, 1, 3, 100, 455, 456, 457, 480, 1000};
      unsigned L = T ? 2300 : 1200;
      f.count = (uint64_t)L * 9 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned n = r.take(L), m = second[r.take(9)]; int re = r.take(2);
        Cfg g; g.nb = 2; g.rearr = re; g.cachepages = 8;
        KV k(c, g); if (!k.create()) return;
        if (!k.put("aaaa", mkval(1, 0, n)) || !k.put("bbbb", mkval(2, 0, m)) || !k.put("cccc", mkval(3, 0, n)) || !k.put("dddd", mkval(4, 0, 33))) return;
        if (!k.checkall()) return;
        if (n && !k.put("aaaa", mkval(1, 1, n - 1))) return;       // shrink
        if (!k.put("aaaa", mkval(1, 2, n))) return;               // growing again is refused, equal size accepted
        if (m && !k.put("bbbb", mkval(2, 1, m))) return;
        if (!k.checkall()) return;
        if (re && (!k.reopen() || !k.checkall())) return;
        k.state(); c.nontrivial = n > 0;
        k.close();
      };
      s.fams.push_back(f);
    }
    { // every key length the page admits, in groups that fill a page exactly or miss by a few bytes
      Family f; f.name = "key-lengths";
      f.count = 470ull * 3 * 3;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned n = r.take(470), h = r.take(3); int mix_ = r.take(3);
        Cfg g; g.hash = h; g.cachepages = 16;
        KV k(c, g); if (!k.create()) return;
        for (int j = 0; j < 14; j++) {
          size_t len = mix_ == 0 ? n : mix_ == 1 ? (j & 1 ? n : 40) : (j % 3 ? 100 : n);
          if (len < 1) len = 1;
          if (len < 4) len = 4 + len;
          if (!k.put(mkkey(j * 3 + 1, len), mkval(j, 0, 20 + j))) return;
        }
        if (!k.checkall() || !k.scan(0)) return;
        k.state(); c.nontrivial = k.m.size() > 1;
        k.close();
      };
      s.fams.push_back(f);
    }
    { // keys are told apart by every byte and by their length: pairs that differ in one byte at one position, prefix pairs
      Family f; f.name = "key-identity";
      static const unsigned LEN[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 220, 255, 256, 257, 300, 400, 455, 456, 500, 600, 1000, 2000, 3900};
      static const unsigned NL = sizeof LEN / sizeof *LEN;
      static const int HS[] = {H_CONST, H_DEFAULT, H_ID};
      f.count = NL * 3 * 4 * 2;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned n = LEN[r.take(NL)]; Cfg g; g.hash = HS[r.take(3)]; unsigned pat = r.take(4); int rev = r.take(2);
        g.bsize = n <= 456 ? 512 : 4096; g.cachepages = 40; g.nb = 2;
        KV k(c, g); if (!k.create()) return;
        // base keys of four kinds: text, all zero, all 0xff, a run of bytes with embedded zeros
        std::string b(n, 0);
        for (unsigned j = 0; j < n; j++) b[j] = pat == 0 ? 'a' + j % 26 : pat == 1 ? 0 : pat == 2 ? (char)0xff : (char)(j % 3 ? j : 0);
        std::vector<std::string> all; std::set<std::string> have;
        auto add = [&](const std::string &x) { if (!x.empty() && have.insert(x).second) all.push_back(x); };
        add(b);
        // all positions for short keys, both ends and every eighth part for long ones
        for (unsigned p = 0; p < n; p++) {
          if (n > 70 && p > 3 && p + 4 < n && p % (n / 16) > 1 && p % 64 > 1 && p % 64 < 63) continue;
          static const unsigned char X[] = {1, 0x20, 0x80};
          std::string x = b; x[p] = (char)(x[p] ^ X[p % 3]); add(x);
        }
        for (unsigned d = 1; d <= 4 && d < n; d++) add(b.substr(0, n - d));
        for (unsigned d = 1; d < 4; d++) if (n + d <= k.maxkey()) { add(b + std::string(d, 0)); add(b + std::string(d, 'x')); }
        if (n > 1) add(b.substr(1));
        if (rev) std::vector<std::string>(all.rbegin(), all.rend()).swap(all);
        // none is there before it is stored, each keeps its own value
        for (unsigned j = 0; j < all.size(); j++) {
          if (!k.absent(all[j]) || !k.put(all[j], mkval(j, 0, 10 + j % 7)) || !k.get(all[j]) || !k.get(all[0])) return;
        }
        if (!k.checkall()) return;
        for (unsigned j = 0; j < all.size(); j += 3) if (!k.put(all[j], mkval(j, 1, 9))) return;   // replaces its own value only
        if (!k.checkall() || !k.scan(0) || !k.reopen() || !k.checkall()) return;
        k.state(); c.nontrivial = k.m.size() > 1; k.close();
      };
      s.fams.push_back(f);
    }
  });
}
