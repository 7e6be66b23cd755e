// P05: a cursor delivers every key exactly once, in either direction, however it is interleaved.
#include "kv.h"
#include <thread>
static const struct { unsigned nb; long cp; int hash, re; } CF[] = {{1, 16, H_ID, 0}, {2, 100, H_DEFAULT, 1}, {8, 16, H_CONST, 0}, {16, 64, H_HI, 1}, {1, 12, H_DEFAULT, 0}, {32, 100, H_CONST, 1}};
static bool fill(KV &k, int N, size_t kl, size_t vl) {
  for (int j = 0; j < N; j++) if (!k.put(mkkey(j * 3, kl + j % 3), mkval(j, 0, vl + j % 5))) return false;
  return true;
}
// nothing is left behind by cursors that are closed: another thread gets at every entry (it would wait for ever otherwise) and writing works
static bool unlocked(KV &k) {
  bool ok = false;
  k.c.t("another thread reads everything");
  std::thread t([&] { ok = k.checkall() && k.scan(0) && k.scan(2); }); t.join();
  return ok;
}
struct Cur {
  KV &k; ffdb_cursor_t *cu = 0; std::vector<std::string> seen;
  Cur(KV &k_) : k(k_) { if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) k.c.f("cursor-refused", "cursor() failed"); }
  // returns 1 delivered, 0 end, -1 failed
  int step(unsigned fl, std::string *key = 0) {
    k.c.transitions++;
    FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
    int rc = cu->get(cu, &K, &V, fl);
    if (rc == FFDB_NOT_FOUND) return 0;
    if (rc != 0) { k.c.f("cursor-error", "cursor returned %d", rc); return -1; }
    std::string a((char *)K.data, K.size), v((char *)V.data, V.size); free(K.data); free(V.data);
    auto it = k.m.find(a);
    if (it == k.m.end()) { k.c.f("cursor-phantom", "cursor delivered a key never stored"); return -1; }
    if (v != it->second) { k.c.f("cursor-wrong-data", "cursor delivered wrong data"); return -1; }
    seen.push_back(a); if (key) *key = a;
    return 1;
  }
  void close() { if (cu) cu->close(cu); cu = 0; }
};
int main(int a, char **v) {
  return mc_main(a, v, "P05", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { // every table size, config, value shape, scan mode; fresh handle and reopened
      Family f; f.name = "scan-all-sizes";
      unsigned NN = T ? 120 : 40;
      f.count = (uint64_t)NN * 6 * 6 * 3 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); int N = r.take(NN); auto &q = CF[r.take(6)]; int mode = r.take(6); unsigned sh = r.take(3); int ro = r.take(2);
        static const size_t kl[] = {20, 150, 400}, vl[] = {10, 500, 1200};
        Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.re;
        KV k(c, g); if (!k.create() || !fill(k, N, kl[sh], vl[sh])) return;
        if (ro && !k.reopen(O_RDONLY)) return;
        k.state(); c.nontrivial = N > 1;
        if (!k.scan(mode) || !k.scan((mode + 2) % 6)) return;
        k.close();
      };
      s.fams.push_back(f);
    }
    { // every walk of F/L/N/P steps up to a depth over a table with several pages per bucket:
      // positions agree with the order one full forward scan reports
      Family f; f.name = "walks";
      unsigned D = T ? 9 : 6; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= 4;
      f.count = n * 4 * 3;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned st[12]; for (unsigned d = 0; d < D; d++) st[d] = r.take(4);
        auto &q = CF[r.take(4)]; unsigned nk = r.take(3); static const int NS[] = {0, 3, 7};
        Cfg g; g.nb = q.nb; g.cachepages = 32; g.hash = q.hash;
        KV k(c, g); if (!k.create() || !fill(k, NS[nk], 200, 30)) return;
        std::vector<std::string> order;
        { Cur f(k); int x = 1; while ((x = f.step(FFDB_NEXT)) == 1) if (f.seen.size() > k.m.size()) { c.f("cursor-endless", "too many"); return; } if (x < 0) return; order = f.seen; f.close(); }
        if (order.size() != k.m.size()) { c.f("cursor-missed", "%zu of %zu", order.size(), k.m.size()); return; }
        Cur w(k); long n = order.size(), pos = -2;   // -2: not positioned; n: after the end; -1: before the start
        static const unsigned fl[] = {FFDB_NEXT, FFDB_PREV, FFDB_FIRST, FFDB_LAST};
        for (unsigned d = 0; d < D; d++) {
          unsigned o = st[d]; long want;
          if (n == 0) want = -1;
          else if (o == 2 || (o == 0 && pos == -2)) want = 0;
          else if (o == 3 || (o == 1 && pos == -2)) want = n - 1;
          else if (o == 0) want = pos + 1;
          else want = pos - 1;
          std::string got; int x = w.step(fl[o], &got);
          static const char *nm[] = {"NEXT", "PREV", "FIRST", "LAST"};
          c.t("%s -> %s", nm[o], x == 1 ? "key" : x == 0 ? "end" : "error");
          if (x < 0) break;
          bool in = want >= 0 && want < n;
          if (x == 0 && in) { c.f("cursor-early-end", "step %u (%s) ended although entry %ld of %ld follows", d, nm[o], want, n); break; }
          if (x == 1 && !in) { c.f("cursor-past-end", "step %u (%s) delivered an entry past the end", d, nm[o]); break; }
          if (x == 1 && got != order[want]) { c.f("cursor-order", "step %u (%s) delivered another entry than number %ld", d, nm[o], want); break; }
          if (!in) break;     // behaviour after stepping off the end is the subject of the family below
          pos = want;
        }
        w.close(); k.state(); c.nontrivial = n > 1;
        if (c.failed() || !unlocked(k)) return;
        k.close();
      };
      s.fams.push_back(f);
    }
    { // at the end: stays ended, table stays usable, cursor can be closed, a new cursor sees everything
      Family f; f.name = "at-the-end";
      f.count = 6 * 8 * 2 * 4;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); auto &q = CF[r.take(6)]; int N = r.take(8) * 3; int back = r.take(2); int extra = r.take(4);
        Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash;
        KV k(c, g); if (!k.create() || !fill(k, N, 150, 20)) return;
        Cur w(k); unsigned fl = back ? FFDB_PREV : FFDB_NEXT; int x;
        while ((x = w.step(fl)) == 1) if ((int)w.seen.size() > N) { c.f("cursor-endless", "cursor does not end"); return; }
        if (x < 0) return;
        if ((int)w.seen.size() != N) { c.f("cursor-missed", "%zu of %d", w.seen.size(), N); return; }
        for (int e = 0; e < extra; e++) if ((x = w.step(fl)) != 0) { if (x == 1) c.f("cursor-past-end", "cursor delivers again after its end"); return; }
        if (!k.checkall()) return;
        w.close();
        if (!unlocked(k)) return;
        if (!k.put(mkkey(9999, 150), mkval(1, 1, 50)) || !k.scan(back ? 2 : 0) || !k.checkall()) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
    { // two cursors advanced in every interleaving pattern, each sees everything
      Family f; f.name = "two-cursors";
      unsigned L = T ? 14 : 10;
      f.count = (1ull << L) * 3 * 4;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned pat = r.take(1u << L); auto &q = CF[r.take(3)]; unsigned dir = r.take(4);
        Cfg g; g.nb = q.nb; g.cachepages = 64; g.hash = q.hash;
        KV k(c, g); if (!k.create() || !fill(k, 8, 150, 20)) return;
        Cur A(k), B(k); unsigned fa = dir & 1 ? FFDB_PREV : FFDB_NEXT, fb = dir & 2 ? FFDB_PREV : FFDB_NEXT;
        bool ea = false, eb = false; unsigned t = 0;
        while (!ea || !eb) {
          bool useA = t < L ? (pat >> t) & 1 : !ea; t++;
          if (useA) { if (ea) continue; int x = A.step(fa); if (x < 0) return; if (!x) ea = true; if (A.seen.size() > 8) { c.f("cursor-endless", "A"); return; } }
          else { if (eb) { if (t > L) break; continue; } int x = B.step(fb); if (x < 0) return; if (!x) eb = true; if (B.seen.size() > 8) { c.f("cursor-endless", "B"); return; } }
        }
        std::set<std::string> sa(A.seen.begin(), A.seen.end()), sb(B.seen.begin(), B.seen.end());
        if (sa.size() != 8 || A.seen.size() != 8) c.f("cursor-missed", "cursor A delivered %zu (%zu distinct) of 8", A.seen.size(), sa.size());
        if (sb.size() != 8 || B.seen.size() != 8) c.f("cursor-missed", "cursor B delivered %zu (%zu distinct) of 8", B.seen.size(), sb.size());
        A.close(); B.close(); c.nontrivial = true; k.state();
        c.outcome = pat;
        if (c.failed() || !unlocked(k)) return;
        k.close();
      };
      s.fams.push_back(f);
    }
    { // the caller's own buffers for key and value: used when they are large enough, refused without a stray byte when not
      Family f; f.name = "caller-buffers";
      f.count = 6 * 4 * 6 * 6 * 2 * 3;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); auto &q = CF[r.take(6)]; static const int NS[] = {1, 4, 9, 23}; int N = NS[r.take(4)]; unsigned kb = r.take(6), vb = r.take(6); int back = r.take(2); unsigned sh = r.take(3);
        static const size_t kl[] = {5, 40, 150}, vl[] = {0, 30, 900};
        Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.re;
        KV k(c, g); if (!k.create() || !fill(k, N, kl[sh], vl[sh])) return;
        // buffer kinds: 0 library allocates, 1 exact size of the largest, 2 one byte more, 3 much larger, 4 one byte less than the largest, 5 no value asked / one byte key buffer
        auto size = [](unsigned kind, size_t mx) -> long { return kind == 0 ? 0 : kind == 1 ? mx : kind == 2 ? mx + 1 : kind == 3 ? mx + 700 : kind == 4 ? (mx > 1 ? mx - 1 : 0) : 1; };
        size_t mk = kl[sh] + (N > 2 ? 2 : N - 1), mv = vl[sh] + (N > 4 ? 4 : N - 1);
        long ks = size(kb, mk), vs = vb == 5 ? 0 : size(vb, mv);
        ffdb_cursor_t *cu = 0; if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) { c.f("cursor-refused", "cursor() failed"); return; }
        std::set<std::string> seen; int refused = 0, steps = 0; bool ended = false;
        while (!ended) {
          if (++steps > N + 2) { c.f("cursor-endless", "cursor does not end"); return; }
          c.transitions++;
          char *kp = ks ? (char *)malloc(ks) : 0, *vp = vs ? (char *)malloc(vs) : 0;
          if (kp) memset(kp, 0x5a, ks);
          if (vp) memset(vp, 0x5a, vs);
          FFDB_DBT K, V; K.data = kp; K.size = ks; V.data = vp; V.size = vs;
          int rc = cu->get(cu, &K, vb == 5 ? 0 : &V, back ? FFDB_PREV : FFDB_NEXT);
          c.t("step with key buffer %ld value buffer %ld = %d", ks, vs, rc);
          if (rc == FFDB_NOT_FOUND) ended = true;
          else if (rc == 0) {
            if (kp && K.data != kp) { c.f("buffer-replaced", "the caller's key buffer was not used"); return; }
            if (vp && V.data != vp) { c.f("buffer-replaced", "the caller's value buffer was not used"); return; }
            std::string a((char *)K.data, K.size); auto it = k.m.find(a);
            if (it == k.m.end()) { c.f("cursor-phantom", "cursor delivered a key never stored into a key buffer of %ld bytes", ks); return; }
            if (vb != 5 && ((size_t)V.size != it->second.size() || (V.size && memcmp(V.data, it->second.data(), V.size)))) { c.f("cursor-wrong-data", "cursor delivered %ld wrong bytes into a buffer of %ld, stored are %zu", (long)V.size, vs, it->second.size()); return; }
            if (!seen.insert(a).second) { c.f("cursor-duplicate", "a key was delivered twice"); return; }
            for (long j = K.size; kp && j < ks; j++) if (kp[j] != 0x5a) { c.f("buffer-overrun", "bytes behind the key were changed"); return; }
            for (long j = V.size; vp && vb != 5 && j < vs; j++) if (vp[j] != 0x5a) { c.f("buffer-overrun", "bytes behind the value were changed"); return; }
            if (!kp) free(K.data);
            if (!vp && vb != 5) free(V.data);
          } else {
            refused++;
            if (!kp && K.data) free(K.data);
          }
          free(kp); free(vp);
        }
        // exactly the entries that do not fit are refused
        int want = 0;
        for (auto &e : k.m) if ((ks && e.first.size() > (size_t)ks) || (vs && e.second.size() > (size_t)vs)) want++;
        if (refused != want) { c.f("cursor-refusals", "%d of %d entries refused with a key buffer of %ld and a value buffer of %ld bytes, %d do not fit", refused, N, ks, vs, want); return; }
        if ((int)seen.size() != N - want) { c.f("cursor-missed", "%zu of %d entries", seen.size(), N - want); return; }
        cu->close(cu);
        if (!unlocked(k)) return;
        k.state(); c.nontrivial = N > 1; c.outcome = mix(refused, seen.size()); k.close();
      };
      s.fams.push_back(f);
    }
    { // cursor abandoned after j steps: closing it leaves the table fully usable
      Family f; f.name = "abandoned";
      f.count = 12 * 4 * 2 * 2;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); int steps = r.take(12); auto &q = CF[r.take(4)]; int back = r.take(2), re = r.take(2);
        Cfg g; g.nb = q.nb; g.cachepages = 6; g.hash = q.hash; g.rearr = re;
        KV k(c, g); if (!k.create() || !fill(k, 10, 150, 300)) return;
        for (int rep = 0; rep < 12; rep++) {   // a leaked page would exhaust this small cache
          Cur w(k); for (int j = 0; j < steps; j++) { int x = w.step(back ? FFDB_PREV : FFDB_NEXT); if (x < 0) return; if (!x) break; }
          w.close();
          if (!unlocked(k)) return;
          if (!k.put(mkkey(1000 + rep, 120), mkval(rep, 0, 40))) return;
          if (!k.checkall()) return;
        }
        if (!k.scan(0) || !k.reopen() || !k.checkall() || !k.scan(2)) return;
        k.state(); c.nontrivial = true; k.close();
      };
      s.fams.push_back(f);
    }
  });
}
