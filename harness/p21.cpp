// P21: a process or machine that dies at any moment never makes the database invent data.
// Every write of a session is recorded; the file is rebuilt as it would be found after a crash at every point (all prefixes of
// the writes, the last one whole or torn) and after a loss of power (subsets of the writes since the last sync), and read.
#include "kv.h"
#include <csetjmp>
#include <ctime>
struct W { off_t off; std::string data; bool trunc; };
static bool rec; static std::vector<W> LOG;
static jmp_buf out; static volatile bool armed; static int ended;
extern "C" {
void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));
void __wrap_exit(int c) { if (armed) { ended = 1000 + c; longjmp(out, 1); } __real_exit(c); }
void __wrap_abort(void) { if (armed) { ended = 2000; longjmp(out, 1); } __real_abort(); }
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) { if (armed) { ended = 2000; longjmp(out, 1); } __real___assert_fail(a, f, l, g); }
ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t); ssize_t __real_pwrite64(int, const void *, size_t, off_t);
int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t);
static void note(off_t o, const void *b, ssize_t n) { if (rec && n > 0) LOG.push_back({o, std::string((const char *)b, n), false}); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { off_t o = rec ? lseek(fd, 0, SEEK_CUR) : 0; ssize_t r = __real_write(fd, b, n); note(o, b, r); return r; }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { ssize_t r = __real_pwrite(fd, b, n, o); note(o, b, r); return r; }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { ssize_t r = __real_pwrite64(fd, b, n, o); note(o, b, r); return r; }
int __wrap_ftruncate(int fd, off_t o) { int r = __real_ftruncate(fd, o); if (rec && r == 0) LOG.push_back({o, "", true}); return r; }
int __wrap_ftruncate64(int fd, off_t o) { int r = __real_ftruncate64(fd, o); if (rec && r == 0) LOG.push_back({o, "", true}); return r; }
}
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static int lowfd() { int f = ::open("/dev/null", O_RDONLY); ::close(f); return f; }
static void closefds(int from) { for (int i = from; i < from + 8; i++) ::close(i); }
static void applyw(std::string &f, const W &w, size_t upto = (size_t)-1) {
  if (w.trunc) { f.resize(w.off, 0); return; }
  size_t n = w.data.size() < upto ? w.data.size() : upto;
  if (f.size() < (size_t)w.off + n) f.resize(w.off + n, 0);
  f.replace(w.off, n, w.data, 0, n);
}
typedef std::map<std::string, std::set<std::string>> Hist;
// reads the image; any answer has to be one that was true at some time
static const char *readall(Ctx &c, const Cfg &g, const std::string &path, const Hist &h, const std::set<std::string> &infos, const char *what, bool rw) {
  volatile int low = lowfd(); const char *volatile res = "read";
  ended = 0; armed = true; c.transitions++;
  KV k(c, g); k.path = path;
  if (setjmp(out) == 0) {
    FFDB_DB *db = k.rawopen(rw ? O_RDWR : O_RDONLY);
    if (!db) res = "refused";
    else {
      for (auto &e : h) {
        FFDB_DBT K, V; K.data = (void *)e.first.data(); K.size = e.first.size(); V.data = 0; V.size = 0;
        int rc = db->get(db, &K, &V, 0);
        if (rc < 0) { res = "reported"; break; }
        if (rc == FFDB_NOT_FOUND) continue;
        std::string v((char *)V.data, V.size); free(V.data);
        if (!e.second.count(v)) { c.f("invented-data", "%s: get returned %zu bytes that were never stored under this key", what, v.size()); res = "x"; break; }
      }
      if (res[0] != 'x') {
        ffdb_cursor_t *cu = 0; size_t n = 0;
        if (db->cursor(db, &cu, FFDB_KEY_CURSOR) == 0) {
          for (;; n++) {
            if (n > 4000) { c.f("endless", "%s: a traversal does not end", what); res = "x"; break; }
            FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
            int rc = cu->get(cu, &K, &V, FFDB_NEXT);
            if (rc == FFDB_NOT_FOUND) break;
            if (rc != 0) { res = "reported"; break; }
            std::string a((char *)K.data, K.size), v((char *)V.data, V.size); free(K.data); free(V.data);
            auto it = h.find(a);
            if (it == h.end()) { c.f("invented-key", "%s: a traversal delivers a key that was never stored", what); res = "x"; break; }
            if (!it->second.count(v)) { c.f("invented-data", "%s: a traversal delivers bytes never stored under their key", what); res = "x"; break; }
          }
          cu->close(cu);
        }
        unsigned n2 = g.uil; std::string b(g.uil, 0);
        if (res[0] != 'x' && ffdb_get_user_info(db, (unsigned char *)&b[0], &n2) == 0) {
          b.resize(n2 <= g.uil ? n2 : g.uil);
          if (!infos.count(b)) { c.f("invented-info", "%s: user information of %u bytes that was never set", what, n2); res = "x"; }
        }
      }
      db->close(db);
    }
  } else res = "ended";
  armed = false; closefds(low);
  return res;
}
// one step of a session
static bool op(KV &k, unsigned o, int d, Hist &h, std::set<std::string> &infos) {
  auto put = [&](unsigned id, size_t kl, size_t vl, unsigned ver) {
    std::string key = mkkey(id, kl), v = mkval(id, ver, vl);
    auto it = k.m.find(key); if (it != k.m.end() && vl > it->second.size()) { vl = it->second.size(); v = mkval(id, ver, vl); }
    h[key].insert(v); return k.put(key, v);
  };
  switch (o) {
    case 0: return put(d * 2, 200, 40, d);
    case 1: return put(d * 2 + 1, 200, 900, d);
    case 2: for (int i = 0; i < 5; i++) if (!put(50 + 10 * d + i, 120, 200, d)) return false; return true;
    case 3: { std::vector<std::string> ks; for (auto &e : k.m) ks.push_back(e.first); int n = 0;         // replace what is there
      for (auto &x : ks) { if (n++ % 2) continue; size_t vl = k.m[x].size(); std::string v = mkval(77, 10 + d, vl - (vl > 3 ? n % 3 : 0)); h[x].insert(v); if (!k.put(x, v)) return false; } return true; }
    case 4: return k.sync();
    case 5: { std::string u = "info" + std::to_string(d) + std::string(d * 9, 'i'); infos.insert(u); return k.setuinfo(u); }
    case 6: return k.reopen();
    case 7: for (int i = 0; i < 3; i++) if (!put(200 + 8 * i + d, 440, 20, d)) return false; return true;
  }
  return true;
}
static const unsigned NOP = 8;
static const struct { unsigned nb; long cp; int hash, re; } CF[] = {{1, 6, H_ID, 0}, {2, 6, H_DEFAULT, 1}, {1, 100, H_DEFAULT, 0}, {4, 8, H_CONST, 1}, {1, 8, H_HI, 1}};
static void fam(Suite &s, const char *name, unsigned depth, unsigned nc, int pre, bool power, unsigned maxsub) {
  Family f; f.name = name; f.timeout = 120;
  uint64_t n = nc; for (unsigned i = 0; i < depth; i++) n *= NOP;
  f.count = n;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < depth; d++) ops[d] = r.take(NOP);
    auto &q = CF[r.take(nc)];
    Cfg g; g.nb = q.nb; g.cachepages = q.cp; g.hash = q.hash; g.rearr = q.re;
    Hist h; std::set<std::string> infos; infos.insert("");
    KV k(c, g); LOG.clear(); rec = pre == 0; std::string base;
    if (!k.create()) { rec = false; return; }
    if (pre) {
      for (int j = 0; j < pre; j++) { std::string key = mkkey(1000 + j, 120), v = mkval(j, 0, 60 * (j % 9)); h[key].insert(v); if (!k.put(key, v)) return; }
      infos.insert("base"); if (!k.setuinfo("base") || !k.close()) return;
      base = slurp(k.path); rec = true;
      if (!k.open(O_RDWR)) { rec = false; return; }
    }
    size_t lastsync = 0, from = 0;   // crash points before the last step are those of the sequence that ends in step 0 instead
    // writes up to here are on the platter for the power-loss images
    for (unsigned d = 0; d < depth; d++) { if (d + 1 == depth && ops[d] != 0) from = LOG.size(); if (!op(k, ops[d], d, h, infos)) { rec = false; return; } if (ops[d] == 4 || ops[d] == 6) lastsync = LOG.size(); k.state(); }
    bool ok = k.close(); rec = false;
    if (!ok) return;
    std::string img = k.path + ".img"; c.executions = 0;
    std::string cur = base; uint64_t oc = 0;
    auto look = [&](const std::string &im, const char *fmt, size_t a, size_t b, bool rw) {
      char what[120]; snprintf(what, sizeof what, fmt, a, b);
      spit(img, im); const char *x = readall(c, g, img, h, infos, what, rw); c.executions++;
      c.t("%s: %s", what, x); oc = mix(oc, h64(x, strlen(x)));
      return !c.failed();
    };
    if (!power) {
      for (size_t w = 0; w < LOG.size(); w++) {
        if (w < from) { applyw(cur, LOG[w]); continue; }
        if (!look(cur, "crash before write %zu of %zu", w, LOG.size(), false)) return;
        if (!LOG[w].trunc) {
          size_t L = LOG[w].data.size();
          for (size_t cut : {(size_t)1, (size_t)28, L / 4, L / 2, L - 4, L - 1}) {
            if (cut == 0 || cut >= L) continue;
            std::string t = cur; applyw(t, LOG[w], cut); 
            if (!look(t, "write %zu torn after %zu bytes", w, cut, false)) return;
          }
        }
        applyw(cur, LOG[w]);
      }
      look(cur, "after all %zu writes", LOG.size(), 0, false);
    } else {
      // at every crash point the last `maxsub` writes may each have reached the disk or not
      for (size_t e = from + 1; e <= LOG.size(); e++) {
        size_t b = e > maxsub ? e - maxsub : 0; if (b < lastsync && e > lastsync) b = lastsync;
        std::string at = base; for (size_t w = 0; w < b; w++) applyw(at, LOG[w]);
        unsigned m = e - b;
        for (unsigned sub = 0; sub + 1 < (1u << m); sub++) {
          if (!(sub >> (m - 1) & 1)) continue;     // without the last write this is the crash point before it
          std::string t = at; for (unsigned x = 0; x < m; x++) if (sub >> x & 1) applyw(t, LOG[b + x]);
          if (!look(t, "power lost after write %zu, kept subset %zu of the last ones", e, sub, false)) return;
        }
      }
    }
    c.outcome = oc; c.nontrivial = LOG.size() > 1;
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P21", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    fam(s, "crash-from-empty", T ? 4 : 3, 5, 0, false, 0);
    fam(s, "crash-from-14-keys", T ? 4 : 3, 5, 14, false, 0);
    fam(s, "crash-from-60-keys", 2, 5, 60, false, 0);
    fam(s, "power-from-empty", 2, 5, 0, true, T ? 8 : 5);
    fam(s, "power-from-14-keys", T ? 3 : 2, 5, 14, true, T ? 6 : 4);
  });
}
