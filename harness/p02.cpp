// P02: everything stored is there after close and reopen, for every multi-session history.
#include "kv.h"
// A session: (rearrange on/off) x (cache small/large) x one body
static const unsigned NBODY = 12;
static bool body(KV &k, unsigned b, int sess) {
  auto key = [](int i, size_t n = 150) { return mkkey(i, n); };
  switch (b) {
    case 0: return true;                                                   // open and close only
    case 1: return k.put(key(1), mkval(1, sess, 30));
    case 2: return k.put(key(1), mkval(1, sess, 900)) && k.put(key(2), mkval(2, sess, 2));
    case 3: for (int i = 0; i < 3; i++) if (!k.put(key(16 * sess + i), mkval(i, sess, 100))) return false; return true;
    case 4: for (int i = 0; i < 9; i++) if (!k.put(key(100 * sess + i), mkval(i, sess, 10))) return false; return true;
    case 5: for (int i = 0; i < 17; i++) if (!k.put(key(1000 * (sess + 1) + i * 4), mkval(i, sess, 300 + i))) return false; return true;
    case 6: { std::vector<std::string> ks; for (auto &e : k.m) ks.push_back(e.first);   // replace everything, same size
              for (auto &x : ks) if (!k.put(x, mkval(x.size(), 50 + sess, k.m[x].size()))) return false; return true; }
    case 7: { std::vector<std::string> ks; for (auto &e : k.m) ks.push_back(e.first);   // shrink every second value
              int n = 0; for (auto &x : ks) if (n++ & 1) if (!k.put(x, mkval(x.size(), 60 + sess, k.m[x].size() / 2))) return false; return true; }
    case 8: { for (int i = 0; i < 5; i++) { if (!k.put(key(500 + 8 * sess + i, 60), mkval(i, sess, 460 + i))) return false; if (!k.sync()) return false; } return true; }
    case 9: return k.setuinfo("session " + std::to_string(sess)) && k.put(key(7), mkval(7, sess, 1), true);
    case 10: return k.put(key(40 + sess, k.maxkey()), mkval(40, sess, 5000)) && k.put(key(50 + sess, 20), mkval(9, sess, 0));
    case 11: return k.checkall() && k.scan(0) && k.put(key(3 + sess), mkval(3, sess, 77)) && k.scan(2);
  }
  return true;
}
struct Base { unsigned bs, nb; int hash; };
static const Base BASE[] = {{512, 1, H_DEFAULT}, {512, 2, H_ID}, {512, 8, H_CONST}, {1024, 1, H_HI}, {512, 4, H_DEFAULT}};
static bool verify(KV &k) {
  if (!k.open(O_RDONLY)) return false;
  bool ok = k.checkall() && k.scan(0) && k.scan(2) && k.absent(mkkey(99999, 33)) && (!k.uset || k.checkuinfo());
  return ok && k.close();
}
static void sessions(Suite &s, const char *name, unsigned S, unsigned nbase, unsigned ncache) {
  Family f; f.name = name;
  uint64_t n = nbase; for (unsigned i = 0; i < S; i++) n *= NBODY * 2 * ncache;
  f.count = n;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i);
    unsigned bodies[6], re[6], ca[6];
    for (unsigned x = 0; x < S; x++) bodies[x] = r.take(NBODY);
    for (unsigned x = 0; x < S; x++) re[x] = r.take(2);
    for (unsigned x = 0; x < S; x++) ca[x] = ncache > 1 ? r.take(2) : 0;
    const Base &b = BASE[r.take(nbase)];
    Cfg g; g.bsize = b.bs; g.nb = b.nb; g.hash = b.hash;
    KV k(c, g);
    for (unsigned x = 0; x < S; x++) {
      k.cfg.rearr = re[x]; k.cfg.cachepages = ca[x] ? 200 : 8;
      if (!(x == 0 ? k.create() : k.open(O_RDWR))) return;
      if (x && !k.checkall()) return;
      c.t("session %u body %u", x, bodies[x]);
      if (!body(k, bodies[x], x)) return;
      k.state();
      if (!k.close()) return;
      if (!verify(k)) return;
    }
    c.outcome = mix(c.outcome, k.m.size());
    c.nontrivial = k.m.size() > 0;
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P02", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    sessions(s, "two-sessions", 2, 5, 2);
    sessions(s, "three-sessions", 3, T ? 5 : 2, T ? 2 : 1);
    if (T) sessions(s, "four-sessions", 4, 1, 1);
    { // the same table grown to N keys, reopened read/write every STEP keys
      Family f; f.name = "reopen-every-step";
      static const int steps[] = {1, 2, 3, 5, 7, 16};
      f.count = 6 * 5 * 2 * 4 * 3;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); int st = steps[r.take(6)]; const Base &b = BASE[r.take(5)]; int re = r.take(2); unsigned vk = r.take(4); int toggle = r.take(3);
        static const size_t vs[] = {5, 120, 470, 1300};
        Cfg g; g.bsize = b.bs; g.nb = b.nb; g.hash = b.hash; g.rearr = re; g.cachepages = 12;
        KV k(c, g); if (!k.create()) return;
        for (int j = 0; j < 60; j++) {
          if (j && j % st == 0) {
            if (toggle == 1) k.cfg.rearr ^= 1;
            if (!k.close()) return;
            if (toggle == 2 && !verify(k)) return;
            if (!k.open(O_RDWR)) return;
          }
          if (!k.put(mkkey(j * 5 + 1, 60 + (j * 13) % 120), mkval(j, 0, vs[vk] + j % 3))) return;
        }
        if (!k.checkall() || !k.close() || !verify(k)) return;
        k.state(); c.nontrivial = true;
      };
      s.fams.push_back(f);
    }
  });
}
