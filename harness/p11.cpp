// P11: a failing device never causes silent loss: every read or write error, at every point of a session, is reported
// or has no effect on what is stored.
#include "kv.h"
#include <csetjmp>
static jmp_buf out; static bool armed; static int ended;
static bool inject; static long ncall, target; static int kind; static bool persistent; static bool hit; static const char *hitcall;
extern "C" {
void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));
void __wrap_exit(int c) { if (armed) { ended = 1000 + c; longjmp(out, 1); } __real_exit(c); }
void __wrap_abort(void) { if (armed) { ended = 2000; longjmp(out, 1); } __real_abort(); }
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) { if (armed) { ended = 2000; longjmp(out, 1); } __real___assert_fail(a, f, l, g); }
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_pread64(int, void *, size_t, off_t); ssize_t __real_pwrite64(int, const void *, size_t, off_t);
off_t __real_lseek(int, off_t, int); off_t __real_lseek64(int, off_t, int);
int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t); int __real_fsync(int); int __real_fdatasync(int);
// kinds: 0 error on read/seek, 1 short read, 2 error on write/truncate (EIO), 3 short write, 4 device full from here on
static bool fault(bool wr, const char *name) {
  if (!inject || wr != (kind >= 2)) return false;
  long n = ncall++;
  if (n == target || (persistent && n > target)) { if (!hit) hitcall = name; hit = true; return true; }
  return false;
}
static ssize_t frd(const char *nm, size_t n, bool &f) { f = fault(false, nm); if (!f) return 0; if (kind == 1) return (ssize_t)(n / 2); errno = EIO; return -1; }
ssize_t __wrap_read(int fd, void *b, size_t n) { bool f; ssize_t r = frd("read", n, f); if (!f) return __real_read(fd, b, n); return r > 0 ? __real_read(fd, b, r) : r; }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { bool f; ssize_t r = frd("pread", n, f); if (!f) return __real_pread(fd, b, n, o); return r > 0 ? __real_pread(fd, b, r, o) : r; }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { bool f; ssize_t r = frd("pread", n, f); if (!f) return __real_pread64(fd, b, n, o); return r > 0 ? __real_pread64(fd, b, r, o) : r; }
static ssize_t fwr(const char *nm, size_t n, bool &f) { f = fault(true, nm); if (!f) return 0; if (kind == 3) return (ssize_t)(n / 2); errno = kind == 4 ? ENOSPC : EIO; return -1; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { bool f; ssize_t r = fwr("write", n, f); if (!f) return __real_write(fd, b, n); return r > 0 ? __real_write(fd, b, r) : r; }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { bool f; ssize_t r = fwr("pwrite", n, f); if (!f) return __real_pwrite(fd, b, n, o); return r > 0 ? __real_pwrite(fd, b, r, o) : r; }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { bool f; ssize_t r = fwr("pwrite", n, f); if (!f) return __real_pwrite64(fd, b, n, o); return r > 0 ? __real_pwrite64(fd, b, r, o) : r; }
// a seek fails like the transfer it belongs to
static bool fsk() { if (kind != 0) return false; if (fault(false, "lseek")) { errno = EIO; return true; } return false; }
off_t __wrap_lseek(int f, off_t o, int w) { return fsk() ? -1 : __real_lseek(f, o, w); }
off_t __wrap_lseek64(int f, off_t o, int w) { return fsk() ? -1 : __real_lseek64(f, o, w); }
static bool ftr() { if (kind != 2 && kind != 4) return false; if (fault(true, "truncate")) { errno = kind == 4 ? ENOSPC : EIO; return true; } return false; }
int __wrap_ftruncate(int f, off_t o) { return ftr() ? -1 : __real_ftruncate(f, o); }
int __wrap_ftruncate64(int f, off_t o) { return ftr() ? -1 : __real_ftruncate64(f, o); }
int __wrap_fsync(int f) { return ftr() ? -1 : __real_fsync(f); }
int __wrap_fdatasync(int f) { return ftr() ? -1 : __real_fdatasync(f); }
}
static int lowfd() { int f = ::open("/dev/null", O_RDONLY); ::close(f); return f; }
static void closefds(int from) { for (int i = from; i < from + 8; i++) ::close(i); }

typedef std::map<std::string, std::set<std::string>> Hist;   // every value ever given to a key
struct Op { int kind; unsigned k; size_t v; };               // 0 put 1 get-all 2 scan 3 sync 4 uinfo set 5 uinfo get 6 replace 7 configs set 8 configs get
struct Scen { const char *name; unsigned nb; long cp; int hash, re; unsigned pre; bool ro; std::vector<Op> ops; };
static std::vector<Scen> scens() {
  std::vector<Scen> s;
  auto puts = [](std::vector<Op> &o, unsigned a, unsigned b, size_t v) { for (unsigned i = a; i < b; i++) o.push_back({0, i, v + (i * 31) % 90}); };
  { Scen x{"create-small", 1, 64, H_DEFAULT, 0, 0, false, {}}; puts(x.ops, 0, 3, 40); s.push_back(x); }
  { Scen x{"create-growing", 1, 2, H_DEFAULT, 0, 0, false, {}}; puts(x.ops, 0, 12, 100); x.ops.push_back({3, 0, 0}); puts(x.ops, 12, 16, 300); x.ops.push_back({6, 3, 50}); x.ops.push_back({1, 0, 0}); s.push_back(x); }
  { Scen x{"append", 1, 3, H_DEFAULT, 0, 8, false, {}}; puts(x.ops, 8, 16, 120); s.push_back(x); }
  { Scen x{"append-rearrange", 1, 3, H_ID, 1, 8, false, {}}; puts(x.ops, 8, 16, 120); x.ops.push_back({3, 0, 0}); s.push_back(x); }
  { Scen x{"overflow-chain", 2, 2, H_CONST, 0, 3, false, {}}; puts(x.ops, 3, 9, 60); x.ops.push_back({1, 0, 0}); s.push_back(x); }
  { Scen x{"big-values", 2, 2, H_DEFAULT, 1, 2, false, {}}; puts(x.ops, 2, 5, 1500); x.ops.push_back({4, 0, 0}); x.ops.push_back({6, 2, 1400}); x.ops.push_back({7, 0, 0}); s.push_back(x); }
  { Scen x{"replace-only", 1, 2, H_DEFAULT, 0, 10, false, {}}; for (unsigned i = 0; i < 10; i += 2) x.ops.push_back({6, i, 50}); s.push_back(x); }
  { Scen x{"read", 1, 2, H_DEFAULT, 0, 10, true, {{1, 0, 0}, {2, 0, 0}, {5, 0, 0}, {8, 0, 0}, {1, 0, 0}}}; s.push_back(x); }
  { Scen x{"read-chain", 2, 1, H_CONST, 0, 8, true, {{2, 0, 0}, {1, 0, 0}, {5, 0, 0}, {8, 0, 0}}}; s.push_back(x); }
  { Scen x{"read-write-session", 4, 1, H_ID, 0, 6, false, {{1, 0, 0}, {0, 20, 200}, {2, 0, 0}, {0, 21, 20}, {5, 0, 0}, {3, 0, 0}, {4, 0, 0}, {3, 0, 0}, {1, 0, 0}}}; s.push_back(x); }
  return s;
}
static const std::vector<Scen> SC = scens();
static const unsigned KL = 90;
static bool setconfigs(FFDB_DB *db, int mt) {
  ffdb_config_info_t v[2]; memset(v, 0, sizeof v); for (int i = 0; i < 2; i++) { v[i].index = v[i].config = i; v[i].mtime = mt + i; }
  ffdb_all_config_info_t a; a.numconfigs = 2; a.allconfigs = v; return ffdb_set_all_configs(db, &a) == 0;
}
// state of the faulty session, kept outside of it because it may be left by a jump
static KV *gk; static Hist hist; static std::set<std::string> unsure; static bool reported, broken, uun, cun; /* broken: an operation that writes has reported the failure */ static int mt; static std::string uold; static FFDB_DB *gdb;
// the file as it is when a sync reports success after the fault, with what has to be in it
struct Snap { std::string bytes, uinfo; std::map<std::string, std::string> m; int mt; };
static std::vector<Snap> snaps;
static std::string slurp(const std::string &p) { std::string s; int f = ::open(p.c_str(), O_RDONLY); char b[65536]; ssize_t n; while ((n = __real_read(f, b, sizeof b)) > 0) s.append(b, n); ::close(f); return s; }
static void spit(const std::string &p, const std::string &s) { int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (__real_write(f, s.data(), s.size()) < 0) {} ::close(f); }
static void synced() { if (hit && !broken && unsure.empty() && !uun && !cun && snaps.size() < 3) snaps.push_back({slurp(gk->path), gk->uinfo, gk->m, mt}); }
static void session(const Scen &s, Ctx &c) {
  KV &k = *gk;
  gdb = k.rawopen(s.ro ? O_RDONLY : s.pre ? O_RDWR : O_RDWR | O_CREAT | O_TRUNC);
  if (!gdb) { reported = true; if (!s.pre) broken = true; c.t("open refused"); return; }
  for (auto &o : s.ops) {
    c.transitions++;
    switch (o.kind) {
      case 0: case 6: {
        std::string key = mkkey(o.k, KL), val = mkval(o.k, o.kind == 6 ? 5 : 1, o.v);
        FFDB_DBT K, V; K.data = (void *)key.data(); K.size = key.size(); V.data = (void *)val.data(); V.size = val.size();
        hist[key].insert(val);
        unsure.insert(key);
        int rc = gdb->put(gdb, &K, &V, 0);
        c.t("put(key %u, %zu bytes) = %d", o.k, o.v, rc);
        if (rc == 0) { k.m[key] = val; unsure.erase(key); } else reported = broken = true;
        break; }
      case 1: {
        for (auto &e : k.m) {
          if (unsure.count(e.first)) continue;
          FFDB_DBT K, V; K.data = (void *)e.first.data(); K.size = e.first.size(); V.data = 0; V.size = 0;
          int rc = gdb->get(gdb, &K, &V, 0);
          if (rc < 0) { reported = true; c.t("get reports %d", rc);
            if (persistent || kind > 1 || broken) continue;
            V.data = 0; V.size = 0; rc = gdb->get(gdb, &K, &V, 0);        // the fault was a passing one: the same read works now
            if (rc != 0) { c.f("no-recovery", "after one failed read the same get returns %d although the device works", rc); return; } }
          if (broken && rc != 0) continue;
          if (rc == FFDB_NOT_FOUND) { c.f("silent-loss", "get reports a stored key as not there when %s fails", hitcall ? hitcall : "nothing"); return; }
          if ((size_t)V.size != e.second.size() || memcmp(V.data, e.second.data(), V.size)) { if (broken && hist[e.first].count(std::string((char *)V.data, V.size))) { free(V.data); continue; } c.f("silent-corruption", "get returns bytes never stored when %s fails", hitcall ? hitcall : "nothing"); return; }
          free(V.data);
        }
        break; }
      case 2: {
        ffdb_cursor_t *cu = 0; if (gdb->cursor(gdb, &cu, FFDB_KEY_CURSOR) != 0) { reported = true; break; }
        std::set<std::string> seen; bool bad = false; size_t n = 0;
        for (;; n++) {
          if (n > (broken ? 5000 : k.m.size() + unsure.size() + 3)) { c.f("cursor-endless", "cursor does not end"); return; }
          FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
          int rc = cu->get(cu, &K, &V, n ? FFDB_NEXT : FFDB_FIRST);
          if (rc == FFDB_NOT_FOUND) break;
          if (rc != 0) { reported = true; bad = true; c.t("cursor reports %d", rc); break; }
          std::string a((char *)K.data, K.size), v((char *)V.data, V.size); free(K.data); free(V.data);
          if (!hist.count(a) || !hist[a].count(v)) { c.f("silent-corruption", "cursor delivers something never stored"); return; }
          if (!broken && !unsure.count(a) && k.m[a] != v) { c.f("silent-corruption", "cursor delivers an old value"); return; }
          if (!seen.insert(a).second && !broken) { c.f("cursor-duplicate", "cursor delivers a key twice"); return; }
        }
        if (!bad && !broken) for (auto &e : k.m) if (!seen.count(e.first) && !unsure.count(e.first)) { c.f("silent-loss", "cursor ends without one of the stored keys when %s fails", hitcall ? hitcall : "nothing"); return; }
        cu->close(cu);
        break; }
      case 3: { int rc = gdb->sync(gdb, 0); c.t("sync = %d", rc); if (rc == 0) { synced(); break; } reported = true; if (broken) break; if (persistent) { broken = true; break; }
                // the fault was a passing one: a second sync either reports it again or has written everything
                rc = gdb->sync(gdb, 0); c.t("sync again = %d", rc); if (rc != 0) broken = true; else synced(); break; }
      case 4: { std::string u = "new info"; uold = k.uinfo; uun = true; int rc = ffdb_set_user_info(gdb, (unsigned char *)u.data(), u.size()); c.t("set_user_info = %d", rc); if (rc == 0) { k.uinfo = u; uun = false; } else reported = broken = true; break; }
      case 5: { unsigned n = k.cfg.uil; unsigned char b[64]; int rc = ffdb_get_user_info(gdb, b, &n); if (rc != 0) { reported = true; break; }
                if (!uun && (n != k.uinfo.size() || memcmp(b, k.uinfo.data(), n))) { c.f("silent-uinfo", "user information differs when %s fails", hitcall ? hitcall : "nothing"); return; } break; }
      case 7: { cun = true; if (setconfigs(gdb, 50)) { mt = 50; cun = false; } else reported = broken = true; break; }
      case 8: { ffdb_config_info_t ci; memset(&ci, 0, sizeof ci); if (ffdb_get_config(gdb, 1, &ci) != 0) { reported = true; break; }
                if (!cun && ci.mtime != mt + 1) { c.f("silent-config", "configuration information differs when %s fails", hitcall ? hitcall : "nothing"); return; } break; }
    }
    if (c.failed()) return;
  }
  FFDB_DB *d = gdb; gdb = 0;
  int rc = d->close(d); c.t("close = %d", rc);
  if (rc != 0) reported = broken = true;
}
// what is on disk: strict = nothing that writes has reported the failure, so everything acknowledged is there
static void ondisk(Ctx &c, KV &k, const Scen &s, std::map<std::string, std::string> m, std::string uinfo, int mtime, bool strictly, long tgt, int kd, const char *when) {
  volatile int low = lowfd();
  ended = 0; armed = true;
  k.cfg.cachepages = 64;
  volatile bool strict = strictly;
  if (setjmp(out) == 0) {
    FFDB_DB *db = k.rawopen(O_RDONLY);
    if (!db) { armed = false; if (strict) c.f("silent-damage", "no operation reported the failing %s (call %ld), but %s the file does not open", hitcall, tgt, when); closefds(low); return; }
    for (auto &h : hist) {
      FFDB_DBT K, V; K.data = (void *)h.first.data(); K.size = h.first.size(); V.data = 0; V.size = 0;
      int rc = db->get(db, &K, &V, 0); c.transitions++;
      bool stored = m.count(h.first);
      if (strict) {
        if (!stored) { if (rc == 0) { c.f("phantom", "refused key is stored"); break; } continue; }
        if (rc != 0) { c.f("silent-loss", "no operation reported the failing %s (call %ld, kind %d), but a stored key is gone %s (%d)", hitcall, tgt, kd, when, rc); break; }
        if (std::string((char *)V.data, V.size) != m[h.first]) { c.f("silent-corruption", "no operation reported the failing %s (call %ld), but a value differs %s", hitcall, tgt, when); break; }
      } else if (rc == 0 && !h.second.count(std::string((char *)V.data, V.size))) { c.f("wrong-bytes", "after a reported failure of %s (call %ld) the reopened file returns bytes never stored", hitcall, tgt); break; }
      if (rc == 0) free(V.data);
    }
    if (!c.failed() && strict) {
      unsigned n = 64; unsigned char b[64];
      if (ffdb_get_user_info(db, b, &n) != 0 || n != uinfo.size() || memcmp(b, uinfo.data(), n)) c.f("silent-uinfo", "no operation reported the failing %s (call %ld), but user information differs %s", hitcall, tgt, when);
      ffdb_config_info_t ci; memset(&ci, 0, sizeof ci);
      if (s.pre && !c.failed() && (ffdb_get_config(db, 1, &ci) != 0 || ci.mtime != mtime + 1)) c.f("silent-config", "no operation reported the failing %s (call %ld), but configuration information differs %s", hitcall, tgt, when);
    }
    db->close(db);
  } else {
    armed = false;
    if (strict) c.f("silent-damage", "no operation reported the failing %s (call %ld), but %s reading the file ends the process", hitcall, tgt, when);
  }
  armed = false; closefds(low);
}
static void runfault(Ctx &c, const Scen &s, long tgt, int kd, bool pers) {
  c.executions = 0;
  Cfg g; g.nb = s.nb; g.hash = s.hash; g.rearr = s.re; g.nc = 2; g.cachepages = 64;
  KV k(c, g); gk = &k; hist.clear(); unsure.clear(); reported = broken = uun = cun = false; mt = 30; gdb = 0; snaps.clear();
  c.t("scenario %s", s.name);
  if (s.pre) {
    if (!k.create()) return;
    for (unsigned j = 0; j < s.pre; j++) { std::string val = mkval(j, 0, 60 + (j * 53) % 200); if (!k.put(mkkey(j, KL), val)) return; hist[mkkey(j, KL)].insert(val); }
    if (!k.setuinfo("first info") || !setconfigs(k.db, 30) || !k.close()) return;
  }
  std::map<std::string, std::string> before = k.m; std::string ubefore = k.uinfo;
  k.cfg.cachepages = s.cp;
  volatile int low = lowfd(); const char *volatile how = "";
  ncall = 0; target = tgt; kind = kd; persistent = pers; hit = false; hitcall = 0; ended = 0;
  armed = true; inject = true;
  if (setjmp(out) == 0) session(s, c); else { how = ended == 2000 ? "abort" : "exit"; reported = broken = true; }
  armed = false; inject = false;
  if (!hit) { if (c.failed()) return; if (reported) c.f("setup", "scenario fails without a fault"); closefds(low); return; }
  c.executions = 1; c.nontrivial = true;
  c.t("fault: %s call number %ld fails (%s); %s %s", hitcall, tgt, pers ? "and all later ones" : "once", reported ? "reported" : "not reported", how);
  c.outcome = mix(reported, h64(how, strlen(how)) + kd);
  if (c.failed()) return;
  closefds(low);
  ondisk(c, k, s, k.m, k.uinfo, mt, !broken, tgt, kd, "after reopen");
  std::string real = k.path;
  for (auto &z : snaps) { if (c.failed()) return; k.path = real + "s"; spit(k.path, z.bytes); ondisk(c, k, s, z.m, z.uinfo, z.mt, true, tgt, kd, "after the sync"); ::unlink(k.path.c_str()); k.path = real; }
  uint64_t st = h64(s.name, strlen(s.name)); c.states.push_back(mix(mix(st, tgt), kd * 4 + reported * 2 + pers));
}
int main(int a, char **v) {
  return mc_main(a, v, "P11", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough"; unsigned MAXIO = T ? 1200 : 600;
    static const struct { const char *n; int k; bool p; } FK[] = {{"read-error", 0, false}, {"read-error-lasting", 0, true}, {"short-read", 1, false}, {"write-error", 2, false}, {"write-error-lasting", 2, true}, {"short-write", 3, false}, {"device-full", 4, true}};
    // every sequence of operations in the bound, with every call failing in every way
    static const struct { unsigned nb; long cp; int hash, re; unsigned pre; } HC[] = {{1, 2, H_DEFAULT, 0, 7}, {1, 3, H_ID, 1, 7}, {2, 2, H_CONST, 0, 5}, {1, 2, H_DEFAULT, 1, 0}};
    static const unsigned HO = 10;
    for (int deep = 0; deep < 2; deep++) for (auto &q : FK) {
      unsigned DP = T ? 3 + deep : 2 + deep; uint64_t n = 1; for (unsigned d = 0; d < DP; d++) n *= HO;
      if (deep && (q.k == 1 || q.p)) continue;      // longer histories with a single read or write failing
      Family f; f.name = std::string(deep ? "longer-histories-" : "histories-") + q.n; f.count = n * (deep ? 2 : 4); f.timeout = 120;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); Scen x; x.ro = false; x.name = "history"; unsigned np = 20;
        auto &h = HC[r.take(deep ? 2 : 4)]; x.nb = h.nb; x.cp = h.cp; x.hash = h.hash; x.re = h.re; x.pre = h.pre;
        for (unsigned d = 0; d < DP; d++) switch (r.take(HO)) {
          case 0: x.ops.push_back({0, np++, 30}); break;
          case 1: x.ops.push_back({0, np++, 1100}); break;
          case 2: for (int j = 0; j < 5; j++) x.ops.push_back({0, np++, 150}); break;
          case 3: x.ops.push_back({6, h.pre ? 1u : 99u, 40}); x.ops.push_back({6, h.pre ? 4u : 98u, 20}); break;
          case 4: x.ops.push_back({1, 0, 0}); break;
          case 5: x.ops.push_back({2, 0, 0}); break;
          case 6: x.ops.push_back({3, 0, 0}); break;
          case 7: x.ops.push_back({4, 0, 0}); break;
          case 8: x.ops.push_back({7, 0, 0}); break;
          case 9: x.ops.push_back({5, 0, 0}); if (h.pre) x.ops.push_back({8, 0, 0}); break; }
        uint64_t ex = 0;
        for (long t = 0; t < 5000; t++) { runfault(c, x, t, q.k, q.p); if (c.failed() || !hit) break; ex++; c.trace.clear(); }
        c.executions = ex; for (auto &z : c.states) z = mix(z, i); };
      s.fams.push_back(f);
    }
    for (auto &q : FK) {
      Family f; f.name = q.n; f.count = (uint64_t)SC.size() * MAXIO;
      f.run = [=](uint64_t i, Ctx &c) { Radix r(i); long t = r.take(MAXIO); runfault(c, SC[r.take(SC.size())], t, q.k, q.p); };
      s.fams.push_back(f);
    }
  });
}
