// P14: a handle gives back everything it took: memory, descriptors and pages, on success and on refusal.
#include "kv.h"
#include "fmt.h"
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <setjmp.h>
static jmp_buf out; static volatile bool armed;   // a loud end of the process is an answer too; nothing is left to give back
extern "C" {
void __real_exit(int); void __wrap_exit(int c) { if (armed) longjmp(out, 1); __real_exit(c); }
void __real_abort(void); void __wrap_abort(void) { if (armed) longjmp(out, 1); __real_abort(); }
void __real___assert_fail(const char *, const char *, unsigned, const char *);
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) { if (armed) longjmp(out, 1); __real___assert_fail(a, f, l, g); }
}
// one call of the device fails: 0 read or seek, 1 short read, 2 write or cut, 3 short write
static bool inject, hit; static long ncall, target; static int kind;
static bool fault(bool wr) { if (!inject || wr != (kind >= 2)) return false; if (ncall++ != target) return false; hit = true; return true; }
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); off_t __real_lseek(int, off_t, int); off_t __real_lseek64(int, off_t, int); int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t);
ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_pwrite(int, const void *, size_t, off_t); ssize_t __real_pread64(int, void *, size_t, off_t); ssize_t __real_pwrite64(int, const void *, size_t, off_t);
#define RD(call, ...) { if (!fault(false)) return call(__VA_ARGS__); if (kind == 0) { errno = EIO; return -1; } n /= 2; return call(__VA_ARGS__); }
#define WR(call, ...) { if (!fault(true)) return call(__VA_ARGS__); if (kind == 2) { errno = EIO; return -1; } n /= 2; return call(__VA_ARGS__); }
ssize_t __wrap_read(int f, void *b, size_t n) RD(__real_read, f, b, n)
ssize_t __wrap_pread(int f, void *b, size_t n, off_t o) RD(__real_pread, f, b, n, o)
ssize_t __wrap_pread64(int f, void *b, size_t n, off_t o) RD(__real_pread64, f, b, n, o)
ssize_t __wrap_write(int f, const void *b, size_t n) WR(__real_write, f, b, n)
ssize_t __wrap_pwrite(int f, const void *b, size_t n, off_t o) WR(__real_pwrite, f, b, n, o)
ssize_t __wrap_pwrite64(int f, const void *b, size_t n, off_t o) WR(__real_pwrite64, f, b, n, o)
off_t __wrap_lseek(int f, off_t o, int w) { if (kind == 0 && fault(false)) { errno = EIO; return -1; } return __real_lseek(f, o, w); }
off_t __wrap_lseek64(int f, off_t o, int w) { if (kind == 0 && fault(false)) { errno = EIO; return -1; } return __real_lseek64(f, o, w); }
int __wrap_ftruncate(int f, off_t o) { if (kind == 2 && fault(true)) { errno = EIO; return -1; } return __real_ftruncate(f, o); }
int __wrap_ftruncate64(int f, off_t o) { if (kind == 2 && fault(true)) { errno = EIO; return -1; } return __real_ftruncate64(f, o); }
}
static int fds() {
  int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d); return n;
}
static const struct { unsigned nb; int hash, re; long cache; } CF[] = {{1, H_DEFAULT, 1, 8}, {2, H_CONST, 0, 0}, {4, H_ID, 1, 64}};
enum { NOPS = 20 };
static bool op(KV &k, unsigned o, unsigned pos) {
  Ctx &c = k.c;
  std::string ex = k.m.empty() ? "none" : k.m.rbegin()->first;
  switch (o) {
    case 0: return k.put(mkkey(20 + pos, 90), mkval(pos, 1, 20));
    case 1: return k.put(mkkey(40 + pos, 90), mkval(pos, 1, 1300));
    case 2: return k.m.empty() || k.put(ex, k.m[ex].substr(0, k.m[ex].size() / 2));
    case 3: return k.m.empty() || k.put(ex, k.m[ex] + "x");
    case 4: return k.m.empty() || k.put(ex, "", true);
    case 5: return k.get(ex) && (k.m.empty() || k.get(k.m.begin()->first));
    case 6: return k.get("not there");
    case 7: return k.m.empty() || k.m[ex].size() < 2 || k.getbuf(ex, (long)k.m[ex].size() - 1);
    case 8: return k.scan(0);
    case 9: return k.scan(2);
    case 10: return k.setuinfo(mkval(1, pos, 40)) && k.checkuinfo();
    case 11: { ffdb_all_config_info_t a; memset(&a, 0, sizeof a); c.transitions++;
               if (ffdb_get_all_configs(k.db, &a) != 0) { c.f("configs", "get_all_configs failed"); return false; } free(a.allconfigs); return true; }
    case 12: return k.sync();
    case 13: return k.reopen();
    case 14: return k.put(mkkey(3, k.maxkey() + 1), "v");
    case 15: case 16: case 17: { // abandoned cursors: none, one step, three steps
      ffdb_cursor_t *cu = 0; c.transitions++;
      if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR) != 0) { c.f("cursor-refused", "cursor"); return false; }
      for (unsigned i = 0; i < (o == 15 ? 0u : o == 16 ? 1u : 3u); i++) {
        FFDB_DBT K, V; K.data = V.data = 0; K.size = V.size = 0;
        if (cu->get(cu, &K, o == 17 ? 0 : &V, FFDB_NEXT) == 0) { free(K.data); if (o != 17) free(V.data); }
      }
      cu->close(cu); return true; }
    case 18: { int rc; return k.putflag("a key", "a value", FFDB_APPEND, rc); }
    case 19: return k.scan(5);
  }
  return true;
}
static bool body(Ctx &c, const Cfg &g, unsigned h, const unsigned *ops, unsigned D) {
  KV k(c, g); if (!k.create()) return false;
  for (unsigned j = 0; j < h * 7; j++) if (!k.put(mkkey(j, 100), mkval(j, 0, (j * 173) % 1100))) { k.close(); return false; }
  for (unsigned d = 0; d < D; d++) if (!op(k, ops[d], d)) { return false; }
  return k.close();
}
// opens that are refused
static const char *KINDS[] = {"missing file", "directory", "empty path component", "short garbage", "directory of a file", "bad magic", "bad version", "other hash function", "header cut", "page size 0 in request of a new file", "file cut after header", "page size too large", "read-only open of a missing file", "page of garbage", "unreadable page 1", "size not a multiple of the page size", "one byte too many", "one byte short"};
enum { NK = sizeof KINDS / sizeof *KINDS };
static void spew(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static bool refused(Ctx &c, unsigned kind, const Cfg &g0) {
  Cfg g = g0; KV k(c, g); int fl = O_RDWR;
  switch (kind) {
    case 0: k.path += ".none"; break;
    case 1: k.path = c.dir; break;
    case 2: k.path = c.dir + "/no/such/file"; fl |= O_CREAT; break;
    case 3: spew(k.path, "garbage"); break;
    case 4: k.path += "/x"; break;
    case 5: case 6: case 8: case 10: case 14: case 15: case 16: case 17: { Img im; if (!im.load(k.path)) return true;
      if (kind == 5) { im.s32(0, 12345); im.header_crc(); }
      if (kind == 6) { im.s32(4, 99); im.header_crc(); }
      if (kind == 8) im.b.resize(40);
      if (kind == 10) im.b.resize(im.bsize());
      if (kind == 14) for (unsigned i = 0; i < 64; i++) im.b[im.bsize() + i] ^= 0x55;
      if (kind == 15) im.b.resize(im.b.size() + 100);
      if (kind == 16) im.b.resize(im.b.size() + 1);
      if (kind == 17) im.b.resize(im.b.size() - 1);
      im.save(k.path); break; }
    case 7: k.cfg.hash = g.hash == H_CONST ? H_ID : H_CONST; break;
    case 9: k.cfg.bsize = 100; fl |= O_CREAT | O_TRUNC; k.path += ".new"; break;
    case 11: k.cfg.bsize = 1 << 20; fl |= O_CREAT | O_TRUNC; k.path += ".new"; break;
    case 13: spew(k.path, std::string(4096, 'g')); break;
    case 12: k.path += ".none"; fl = O_RDONLY; break;
  }
  c.transitions++;
  FFDB_DB *d = k.rawopen(fl);
  if (d) { d->close(d); }
  if (kind == 9 || kind == 11) unlink(k.path.c_str());
  return true;
}
// a session in which a call of the device fails; nothing of the harness is allocated meanwhile
static std::vector<std::string> FK, FV; static std::string longv(1300, 'L');
enum { NF = 11 };
static void rawput(FFDB_DB *db, const std::string &k, const std::string &v) { FFDB_DBT K, V; K.data = (void *)k.data(); K.size = k.size(); V.data = (void *)v.data(); V.size = v.size(); db->put(db, &K, &V, 0); }
static void rawget(FFDB_DB *db, const std::string &k, bool) { FFDB_DBT K, V; K.data = (void *)k.data(); K.size = k.size(); V.data = 0; V.size = 0; db->get(db, &K, &V, 0); free(V.data); }
static void rawscan(FFDB_DB *db, bool back, bool data, unsigned most) {
  ffdb_cursor_t *cu = 0; if (db->cursor(db, &cu, FFDB_KEY_CURSOR) != 0) return;
  for (unsigned i = 0; i < most; i++) { FFDB_DBT K, V; K.data = V.data = 0; K.size = V.size = 0; int rc = cu->get(cu, &K, data ? &V : 0, back ? FFDB_PREV : FFDB_NEXT); free(K.data); free(V.data); if (rc == FFDB_NOT_FOUND) break; }   // what a failing call leaves in the result is the caller's too
  cu->close(cu);
}
static void rawop(FFDB_DB *db, unsigned o, unsigned pos) {
  switch (o) {
    case 0: for (unsigned i = 0; i < 7; i++) rawget(db, FK[i], false); break;
    case 1: rawget(db, FK[30], false); break;
    case 2: rawscan(db, false, true, 40); break;
    case 3: rawscan(db, true, false, 40); break;
    case 4: rawput(db, FK[10 + pos], FV[0]); break;
    case 5: rawput(db, FK[12 + pos], longv); break;
    case 6: for (unsigned i = 0; i < 5; i++) rawput(db, FK[14 + 5 * pos + i], FV[1]); break;
    case 7: rawput(db, FK[2], FV[0]); rawput(db, FK[3], FV[0]); break;
    case 8: db->sync(db, 0); break;
    case 9: { unsigned char u[40]; memset(u, 'u', sizeof u); ffdb_set_user_info(db, u, 40); unsigned n = 40; ffdb_get_user_info(db, u, &n); break; }
    case 10: { ffdb_all_config_info_t x; memset(&x, 0, sizeof x); if (ffdb_get_all_configs(db, &x) == 0) { ffdb_set_all_configs(db, &x); free(x.allconfigs); } break; }
  }
}
static void faults(Suite &s, bool T) {
  Family f; f.name = "device-faults"; unsigned D = T ? 3 : 2; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= NF;
  f.count = n * 3 * 2 * 4;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(NF);
    auto &q = CF[r.take(3)]; int ro = r.take(2), kd = r.take(4);
    if (ro) for (unsigned d = 0; d < D; d++) if (ops[d] >= 4) return;
    if (FK.empty()) { for (unsigned j = 0; j < 40; j++) FK.push_back(mkkey(j, 100)); FV = {mkval(1, 1, 20), mkval(2, 2, 150)}; }
    Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = 40; g.nc = 3; if (c.want_trace) c.trace.reserve(1 << 20);
    KV k(c, g); if (!k.create()) return; for (unsigned j = 0; j < 7; j++) if (!k.put(FK[j], mkval(j, 0, (j * 173) % 1100))) return; if (!k.setuinfo("information") || !k.close()) return;
    std::string img; { FILE *z = fopen(k.path.c_str(), "rb"); char b[65536]; size_t m; while ((m = fread(b, 1, sizeof b, z)) > 0) img.append(b, m); fclose(z); }
    k.cfg.cachepages = 2; uint64_t ex = 0; fds();
    // the first run has no fault and warms up
    for (long t = -1; t < 3000; t++) {
      if (!ro || t <= 0) { int z = ::open(k.path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (__real_write(z, img.data(), img.size()) < 0) {} ::close(z); }
      if (c.want_trace) { c.trace.clear(); c.t("call %ld fails in way %d; operations %u %u", t, kd, ops[0], ops[1]); }
      size_t b0 = __sanitizer_get_current_allocated_bytes(); int f0 = fds(); volatile bool loud = false; volatile int low = ::open("/dev/null", O_RDONLY); ::close(low);
      ncall = 0; target = t; kind = kd; hit = false; 
      if (setjmp(out)) loud = true; else {
        armed = true; inject = true;
        FFDB_DB *db = k.rawopen(ro ? O_RDONLY : O_RDWR);
        if (db) { for (unsigned d = 0; d < D; d++) { rawop(db, ops[d], d); c.transitions++; } db->close(db); }
      }
      inject = armed = false;
      if (t >= 0 && !hit) break;
      ex++;
      if (loud) { for (int z = low; z < low + 8; z++) ::close(z); continue; }   // ended the process: nothing to give back
      if (t < 0) continue;
      size_t b1 = __sanitizer_get_current_allocated_bytes(); int f1 = fds();
      if (b1 > b0) { c.f("leak-after-fault", "%zu bytes still allocated after close when call %ld of the device fails (way %d)", b1 - b0, t, kd); return; }
      if (f1 != f0) { c.f("descriptor-after-fault", "%d descriptors before, %d after, when call %ld of the device fails (way %d)", f0, f1, t, kd); return; }
    }
    c.executions = ex; c.nontrivial = true; c.outcome = mix(ops[0], kd); c.states.push_back(mix(mix(ops[0], ops[1]), mix(i / n, 5)));
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P14", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { Family f; f.name = "sessions"; unsigned D = T ? 4 : 3; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= NOPS;
      f.count = n * 3 * (T ? 2 : 1);
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(NOPS);
        auto &q = CF[r.take(3)]; unsigned h = 1 - r.take(2);
        Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = q.cache; g.nc = 3;
        if (c.want_trace) c.trace.reserve(1 << 20);
        static bool warm = false; if (!warm) { Ctx w; w.dir = c.dir; unsigned z[] = {8, 10, 11}; body(w, g, 1, z, 3); warm = true; fds(); }
        size_t b0 = __sanitizer_get_current_allocated_bytes(); int f0 = fds();
        if (!body(c, g, h, ops, D)) return;
        size_t b1 = __sanitizer_get_current_allocated_bytes(); int f1 = fds();
        if (b1 > b0) { c.f("leak", "%zu bytes still allocated after close", b1 - b0); return; }
        if (f1 != f0) { c.f("descriptor", "%d descriptors before, %d after", f0, f1); return; }
        c.outcome = mix(h, ops[0]); c.nontrivial = true; c.states.push_back(mix(mix(ops[0], ops[1]), mix(ops[2], q.nb * 2 + h)));
      };
      s.fams.push_back(f); }
    { Family f; f.name = "refused-open"; f.count = NK * 3 * 3;
      f.isolate = true;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned kind = r.take(NK); auto &q = CF[r.take(3)]; unsigned h = r.take(3);
        Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = q.cache; g.nc = 3;
        c.t("%s", KINDS[kind]);
        if (c.want_trace) c.trace.reserve(1 << 20);
        unsigned z[] = {8, 10, 11}; if (!body(c, g, h, z, 3)) return;
        fds();
        // a first attempt warms up, the next three may not take anything
        // (an attempt that ends the process is loud, and leaves nothing to give back)
        size_t b0 = 0; int f0 = 0;
        for (int rep = 0; rep < 4; rep++) {
          if (!body(c, g, h, z, 3)) return;
          if (rep == 1) { b0 = __sanitizer_get_current_allocated_bytes(); f0 = fds(); }
          if (setjmp(out)) { armed = false; c.outcome = 1000 + kind; c.nontrivial = true; return; }
          armed = true; refused(c, kind, g); armed = false;
        }
        if (__sanitizer_get_current_allocated_bytes() > b0) { c.f("leak", "%zu bytes taken by three refused opens (%s)", __sanitizer_get_current_allocated_bytes() - b0, KINDS[kind]); return; }
        if (fds() != f0) { c.f("descriptor", "%d descriptors before, %d after refused opens (%s)", f0, fds(), KINDS[kind]); return; }
        c.outcome = kind + 1; c.nontrivial = true; c.states.push_back(mix(kind, h * 3 + q.nb));
      };
      s.fams.push_back(f); }
    faults(s, T);
    { // many cycles: nothing accumulates, also not in tables that are reused
      Family f; f.name = "cycles"; f.count = 3 * 4 * 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); auto &q = CF[r.take(3)]; unsigned what = r.take(4); int ro = r.take(2);
        Cfg g; g.nb = q.nb; g.hash = q.hash; g.rearr = q.re; g.cachepages = q.cache; g.nc = 3;
        size_t b0 = 0; int f0 = 0; if (c.want_trace) c.trace.reserve(1 << 22);
        { KV k(c, g); if (!k.create()) return; for (unsigned j = 0; j < 25; j++) if (!k.put(mkkey(j, 100), mkval(j, 0, j * 60))) return; if (!k.close()) return;
          for (int cyc = 0; cyc < 40; cyc++) {
            if (cyc == 2) { b0 = __sanitizer_get_current_allocated_bytes(); f0 = fds(); }
            if (!k.open(ro ? O_RDONLY : O_RDWR)) return;
            if (what == 1 && !k.checkall()) return;
            if (what == 2 && !k.scan(cyc & 1 ? 2 : 0)) return;
            if (what == 3) { k.get("no"); if (!k.put(k.m.begin()->first, k.m.begin()->second)) return; }
            if (!k.close()) return;
          }
          if (__sanitizer_get_current_allocated_bytes() > b0) { c.f("leak", "%zu bytes taken by 38 sessions", __sanitizer_get_current_allocated_bytes() - b0); return; }
          if (fds() != f0) { c.f("descriptor", "%d descriptors before, %d after", f0, fds()); return; } }
        c.nontrivial = true; c.outcome = i + 1; c.states.push_back(i);
      };
      s.fams.push_back(f); }
  });
}
