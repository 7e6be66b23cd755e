// P22: values of more than 4 gigabytes are stored, replaced and returned exactly.
// The values are zeros with marked places, so that the file is sparse: zero blocks are not written but punched out.
#include "kv.h"
#include <sys/mman.h>
#include <fcntl.h>
extern "C" ssize_t __real_write(int, const void *, size_t);
static const size_t BL = 4096;
static bool allzero(const char *p, size_t n) { return n == 0 || (p[0] == 0 && memcmp(p, p + 1, n - 1) == 0); }
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
  off_t o = lseek(fd, 0, SEEK_CUR); if (o < 0 || n < 65536) return __real_write(fd, b, n);
  const char *p = (const char *)b; struct stat st; if (fstat(fd, &st)) return -1;
  if (st.st_size < o + (off_t)n && ftruncate(fd, o + n)) return -1;
  for (size_t i = 0; i < n;) {
    size_t l = BL - (o + i) % BL; if (l > n - i) l = n - i;
    if (!allzero(p + i, l)) { if (pwrite(fd, p + i, l, o + i) != (ssize_t)l) return -1; i += l; continue; }
    size_t j = i + l; while (j < n) { size_t m = BL < n - j ? BL : n - j; if (!allzero(p + j, m)) break; j += m; }
    if (fallocate(fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, o + i, j - i)) { for (size_t x = i; x < j; x += BL) { static char z[BL]; size_t m = BL < j - x ? BL : j - x; if (pwrite(fd, z, m, o + x) != (ssize_t)m) return -1; } }
    i = j;
  }
  lseek(fd, o + n, SEEK_SET); return n;
}
// The library's check sum of zeros, computed faster: runs of zeros are skipped with a table. Used only if it agrees with the library's own.
extern "C" unsigned __real___ffdb_crc32_checksum(unsigned, const unsigned char *, long) __attribute__((weak));
static unsigned T1[256], Z[4][256]; static int fastok = -1;
static unsigned fastcrc(unsigned c, const unsigned char *p, long n) {
  c ^= 0xffffffff;
  while (n > 0) {
    if (n >= 4096 && allzero((const char *)p, 4096)) { c = Z[0][c & 255] ^ Z[1][c >> 8 & 255] ^ Z[2][c >> 16 & 255] ^ Z[3][c >> 24]; p += 4096; n -= 4096; continue; }
    long m = n < 4096 ? n : 4096; n -= m; while (m--) c = (c >> 8) ^ T1[(c ^ *p++) & 255];
  }
  return c ^ 0xffffffff;
}
static void crcinit() {
  for (unsigned i = 0; i < 256; i++) { unsigned r = i; for (int j = 0; j < 8; j++) r = r & 1 ? (r >> 1) ^ 0xedb88320u : r >> 1; T1[i] = r; }
  for (int b = 0; b < 4; b++) for (unsigned i = 0; i < 256; i++) { unsigned c = i << (8 * b); for (int j = 0; j < 4096; j++) c = (c >> 8) ^ T1[c & 255]; Z[b][i] = c; }
  std::vector<unsigned char> t(3 * 4096 + 77, 0); fastok = 1;
  for (size_t at : {(size_t)0, (size_t)5000, t.size() - 1}) { t[at] = 0x91 + at; for (long n : {0L, 1L, 4095L, 4096L, 9000L, (long)t.size()}) if (fastcrc(at, t.data(), n) != __real___ffdb_crc32_checksum(at, t.data(), n)) fastok = 0; }
}
extern "C" unsigned __wrap___ffdb_crc32_checksum(unsigned c, const unsigned char *p, long n) {
  if (n < 65536) return __real___ffdb_crc32_checksum(c, p, n);
  if (fastok < 0) crcinit();
  return fastok ? fastcrc(c, p, n) : __real___ffdb_crc32_checksum(c, p, n);
}
static const long G4 = 1L << 32;
struct Val { char *p = 0; long n = 0; unsigned tag = 0; };
struct Huge {
  Ctx &c; KV k; std::map<std::string, Val> m; char *arena; long used = 0, cap;
  Huge(Ctx &c_, const Cfg &g) : c(c_), k(c_, g) { cap = 10 * G4; arena = (char *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); madvise(arena, cap, MADV_NOHUGEPAGE); }
  ~Huge() { munmap(arena, cap); }
  Val mk(long n, unsigned tag) {
    Val v; v.n = n; v.tag = tag; v.p = arena + used; used += (n + 8191) / 4096 * 4096; if (used > cap) abort();
    for (long at : {0L, 1L, 5000L, 262143L, 262144L, 1000000007L, G4 - 262144, G4 - 1, G4, G4 + 3, n / 2, n - 2, n - 1}) if (at >= 0 && at < n) v.p[at] = (char)(1 + (at * 7 + tag * 31) % 251);
    return v;
  }
  bool put(const std::string &key, long n, unsigned tag) {
    Val v = mk(n, tag); Buf kb(key); FFDB_DBT K, V; K.data = kb.p; K.size = kb.n; V.data = v.p; V.size = n; c.transitions++;
    auto it = m.find(key); bool ok = it == m.end() || n <= it->second.n;
    int rc = k.db->put(k.db, &K, &V, 0); c.t("put(%s, %ld bytes) = %d", key.c_str(), n, rc);
    if ((rc == 0) != ok) { c.f(ok ? "refused" : "accepted", "put of %ld bytes over %ld returned %d", n, it == m.end() ? -1 : it->second.n, rc); return false; }
    if (ok) m[key] = v;
    return true;
  }
  bool same(const char *what, const std::string &key, const Val &v, FFDB_DBT &V) {
    bool ok = (long)V.size == v.n && memcmp(V.data, v.p, v.n) == 0;
    if (!ok) c.f("value", "%s: key %s came back with %ld bytes, not the %ld stored", what, key.c_str(), (long)V.size, v.n);
    return ok;
  }
  bool get(const std::string &key) {
    const Val &v = m[key]; Buf kb(key); FFDB_DBT K, V; K.data = kb.p; K.size = kb.n; V.data = 0; V.size = 0; c.transitions++;
    int rc = k.db->get(k.db, &K, &V, 0); c.t("get(%s) = %d, %ld bytes", key.c_str(), rc, (long)V.size);
    if (rc != 0) { c.f("get", "get of a value of %ld bytes returned %d", v.n, rc); return false; }
    bool ok = same("get", key, v, V); free(V.data); return ok;
  }
  bool tight(const std::string &key, long room) {   // a buffer that is too small is refused and left alone beyond its end
    Buf kb(key); std::string b(room + 64, 'u'); FFDB_DBT K, V; K.data = kb.p; K.size = kb.n; V.data = &b[0]; V.size = room; c.transitions++;
    int rc = k.db->get(k.db, &K, &V, 0); c.t("get(%s) into %ld bytes = %d", key.c_str(), room, rc);
    if (rc == 0 || b.substr(room) != std::string(64, 'u')) { c.f("overrun", "get of %ld bytes into a buffer of %ld returned %d", m[key].n, room, rc); return false; }
    return true;
  }
  bool scan() {
    ffdb_cursor_t *cu = 0; size_t n = 0; if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR)) { c.f("cursor", "no cursor"); return false; }
    for (;; n++) { FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0; c.transitions++; int rc = cu->get(cu, &K, &V, FFDB_NEXT); if (rc == FFDB_NOT_FOUND) break; if (rc) { c.f("cursor", "cursor returned %d", rc); return false; }
      std::string key((char *)K.data, K.size); free(K.data); auto it = m.find(key); if (it == m.end() || !same("cursor", key, it->second, V)) { if (it == m.end()) c.f("cursor", "unknown key"); return false; } free(V.data); }
    cu->close(cu); c.t("traversal: %zu pairs", n); if (n != m.size()) { c.f("cursor", "traversal gave %zu pairs, not %zu", n, m.size()); return false; }
    return true;
  }
  bool all() { for (auto &e : m) if (!get(e.first)) return false; return true; }
};
int main(int a, char **v) {
  return mc_main(a, v, "P22", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    static const long SZ[] = {G4 + 17, G4, 2 * G4 + 5, G4 - 1, G4 + 262144 * 3 - 32};
    static const long RE[] = {10, G4 - 1, G4, G4 + 5, 0, G4 + 10, 300000};
    { Family f; f.name = "replace"; f.timeout = 400; unsigned ns = T ? 5 : 3, nr = T ? 7 : 5; f.count = ns * nr;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); long n0 = SZ[r.take(ns)]; unsigned q = r.take(nr); long n1 = RE[q]; 
        Cfg g; g.bsize = 262144; g.cachepages = 8; g.nb = 2; g.rearr = i & 1;
        Huge h(c, g); if (!h.k.create()) return;
        if (!h.put("small", 40, 1) || !h.put("huge", n0, 2) || !h.put("after", 100, 3)) return;
        if (q == 0 && (!h.tight("huge", 20) || !h.get("huge"))) return;
        if (n1 > n0 && !T) return;
        if (!h.put("huge", n1, 4)) return;
        if (!h.get("small") || !h.get("after") || (T && !h.get("huge"))) return;
        if (!h.k.reopen(O_RDONLY) || !h.all() || (T && !h.scan())) return;
        if (!h.k.close()) return;
        c.states.push_back(mix(n0, n1)); c.nontrivial = true; unlink(h.k.path.c_str());
      };
      s.fams.push_back(f); }
    { // growth of a table that holds a value of more than 4 GB, and sizes that agree in their low 32 bits
      Family f; f.name = "grow-and-refuse"; f.timeout = 400; f.count = T ? 4 : 2;
      f.run = [=](uint64_t i, Ctx &c) {
        Cfg g; g.bsize = 262144; g.cachepages = 12; g.nb = 1; g.rearr = i & 1; g.hash = i & 2 ? H_CONST : H_DEFAULT;
        Huge h(c, g); if (!h.k.create()) return;
        if (!h.put("small", 10, 1) || !h.put("huge", G4 + 10, 2)) return;
        if (i & 1) { if (!h.put("small", G4 + 10, 5) || !h.put("huge", G4 + 11, 6)) return; }
        for (int j = 0; j < 60; j++) { std::string key = "key" + std::to_string(j); key.resize(100000, 'k'); if (!h.put(key, 300 + j, j)) return; }
        if (!h.k.reopen(i & 1 ? O_RDWR : O_RDONLY) || !h.scan()) return;
        if (!h.k.close()) return;
        c.states.push_back(mix(7, i)); c.nontrivial = true; unlink(h.k.path.c_str());
      };
      s.fams.push_back(f); }
  });
}
