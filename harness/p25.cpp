// P25: the page pool keeps every page exactly and hands it to one thread at a time.
#ifndef THREADS
#include "kv.h"
#include <fcntl.h>
#include <sys/stat.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" {
#include "ffdb_pagepool.h"
}
static const unsigned PS = 512;
static const unsigned PG[] = {0, 1, 2, 5};
struct Filt { std::map<unsigned, unsigned> in, out; };
static void fin(void *a, pgno_t n, void *m) { ((Filt *)a)->in[n]++; unsigned char *p = (unsigned char *)m; bool z = true; for (unsigned i = 0; i < PS; i++) if (p[i]) z = false; if (!z) for (unsigned i = 0; i < PS; i++) p[i] ^= (unsigned char)(0x5a + n); }
static void fout(void *a, pgno_t n, void *m) { ((Filt *)a)->out[n]++; unsigned char *p = (unsigned char *)m; for (unsigned i = 0; i < PS; i++) p[i] ^= (unsigned char)(0x5a + n); }
static std::string pat(unsigned seed) { std::string s(PS, 0); for (unsigned i = 0; i < PS; i++) s[i] = (char)(1 + (seed * 37 + i * (seed | 1) + (i >> 5)) % 250); return s; }
// what the filter would turn into a page of zeros is never stored
struct Pool {
  Ctx &c; std::string path; unsigned cache; bool filt; ffdb_pagepool_t *p = 0; int fd = -1; Filt fl; bool byname = true;
  std::map<unsigned, std::string> m; void *held = 0; unsigned heldno = 0; bool heldw = false; unsigned nrel = 0;
  bool open(int fresh, bool rd = false) {
    if (fresh) ::unlink(path.c_str());
    if (ffdb_pagepool_create(&p, 0) != 0) { c.f("pool-open", "create failed"); return false; }
    int rc;
    if (byname) { rc = ffdb_pagepool_open(p, path.c_str(), rd ? FFDB_RDONLY : fresh ? FFDB_CREATE : 0, 0600, PS, cache); fd = -1; }
    else { fd = ::open(path.c_str(), rd ? O_RDONLY : O_RDWR | O_CREAT, 0600); rc = ffdb_pagepool_open_fd(p, fd, PS, cache); }
    c.t("open %s%s: %d", byname ? "by name" : "by descriptor", rd ? " for reading" : "", rc); c.transitions++;
    if (rc) { c.f("pool-open", "open returned %d", rc); return false; }
    if (filt) ffdb_pagepool_filter(p, fin, fout, &fl);
    return true;
  }
  bool close() {
    c.t("close"); c.transitions++;
    if (!release()) return false;
    int rc = ffdb_pagepool_close(p); p = 0; if (fd >= 0) { if (fcntl(fd, F_GETFD) < 0) c.f("pool-close", "a descriptor that is not the pool's was closed"); else ::close(fd); } fd = -1;
    if (rc) { c.f("pool-close", "close returned %d", rc); return false; }
    return !c.failed() && ondisk("close");
  }
  bool ondisk(const char *w) {
    std::map<unsigned, std::string> d; FILE *f = fopen(path.c_str(), "rb"); std::string b(PS, 0); size_t n; unsigned i = 0; bool ok = true;
    while (f && (n = fread(&b[0], 1, PS, f)) > 0) {
      if (n != PS) { c.f("pool-file", "the file ends in the middle of a page after %s", w); ok = false; break; }
      bool z = true; for (char x : b) if (x) z = false;
      if (!z) { std::string q = b; if (filt) for (char &x : q) x = (char)(x ^ (unsigned char)(0x5a + i)); d[i] = q; }
      i++;
    }
    if (f) fclose(f);
    if (!ok) return false;
    if (d != m) { unsigned x = 0; for (auto &e : m) if (!d.count(e.first) || d[e.first] != e.second) { x = e.first; break; } for (auto &e : d) if (!m.count(e.first)) x = e.first; c.f("pool-file", "after %s page %u of the file is not what was put back (%zu of %zu pages)", w, x, d.size(), m.size()); return false; }
    return true;
  }
  bool get(unsigned n, unsigned flags, char **mem) {
    pgno_t no = n; void *v = 0; int rc = ffdb_pagepool_get_page(p, &no, flags, &v); *mem = (char *)v; c.transitions++;
    if (rc || !v || no != n) { c.f("pool-get", "get of page %u returned %d, page %u", n, rc, no); return false; }
    auto it = m.find(n);
    if (it != m.end()) { if (memcmp(v, it->second.data(), PS)) { c.f("pool-content", "page %u is not what was put back", n); return false; } }
    else for (unsigned i = 0; i < FFDB_CLEANHDR_SIZE; i++) if ((*mem)[i]) { c.f("pool-content", "page %u that was never put is not clean", n); return false; }
    return true;
  }
  bool put(char *mem, unsigned flags) { int rc = ffdb_pagepool_put_page(p, mem, flags); c.transitions++; if (rc) c.f("pool-put", "put returned %d", rc); return rc == 0; }
  bool release() {
    if (!held) return true;
    c.t("put back page %u held so far", heldno);
    auto it = m.find(heldno);
    if (it != m.end() && memcmp(held, it->second.data(), PS)) { c.f("pool-held", "page %u changed while it was held", heldno); return false; }
    char *h = (char *)held; held = 0; if (heldw) { c.t("  changed"); std::string s = pat(300 + nrel++); memcpy(h, s.data(), PS); m[heldno] = s; } return put(h, 0);
  }
  bool write(unsigned n, unsigned seed, unsigned how) {
    c.t("write page %u (%s)", n, how == 0 ? "dirty at put" : how == 1 ? "dirty at get" : "got twice");
    char *v, *v2; if (!get(n, FFDB_PAGE_CREATE | (how == 1 ? FFDB_PAGE_DIRTY : 0), &v)) return false;
    if (how == 2) { if (!get(n, 0, &v2)) return false; if (v2 != v) { c.f("pool-two", "page %u has two places", n); return false; } }
    std::string s = pat(seed); memcpy(v, s.data(), PS); m[n] = s;
    if (how == 2 && !put(v, FFDB_PAGE_DIRTY)) return false;
    if (how == 2 && memcmp(v, s.data(), PS)) { c.f("pool-held", "page %u changed while it was held", n); return false; }
    return put(v, how == 0 ? FFDB_PAGE_DIRTY : 0);
  }
  bool read(unsigned n) {
    if (!m.count(n)) return true;      // a page that does not exist is got with FFDB_PAGE_CREATE only
    c.t("read page %u", n); char *v; if (!get(n, 0, &v)) return false;
    return put(v, 0);
  }
  bool fresh(unsigned seed, bool viaget) {
    pgno_t no = 77777; void *v = 0; int rc = viaget ? ffdb_pagepool_get_page(p, &no, FFDB_PAGE_NEW, &v) : ffdb_pagepool_new_page(p, &no, 0, &v); c.transitions++;
    c.t("new page: %u", no);
    if (rc || !v) { c.f("pool-new", "new page returned %d", rc); return false; }
    if (m.count(no) || (held && no == heldno) || no >= 1000) { c.f("pool-new", "a new page got number %u, which another page has", no); return false; }
    std::string s = pat(seed); memcpy(v, s.data(), PS); m[no] = s; return put((char *)v, FFDB_PAGE_DIRTY);
  }
  bool rename(unsigned n, unsigned to) {
    if ((held && heldno == n) || !m.count(n) || m.count(to)) return true;
    c.t("page %u becomes page %u", n, to); char *v; if (!get(n, 0, &v)) return false;
    int rc = ffdb_pagepool_change_page(p, v, to); c.transitions++; if (rc) { c.f("pool-change", "change returned %d", rc); return false; }
    m[to] = m[n]; m.erase(n); return true;
  }
  bool drop(unsigned n) {
    if ((held && heldno == n) || !m.count(n)) return true;
    c.t("drop page %u from the cache", n); char *v; if (!get(n, 0, &v)) return false;
    int rc = ffdb_pagepool_delete(p, v); c.transitions++; if (rc) { c.f("pool-delete", "delete returned %d", rc); return false; }
    return true;
  }
  bool hold(unsigned n, bool w) {
    if (held) return release();
    if (!m.count(n)) return true;
    c.t("hold page %u%s", n, w ? " to change it" : ""); char *v; if (!get(n, w ? FFDB_PAGE_DIRTY : 0, &v)) return false; held = v; heldno = n; heldw = w; return true;
  }
  bool sync() { c.t("sync"); c.transitions++; int rc = ffdb_pagepool_sync(p); if (rc) { c.f("pool-sync", "sync returned %d", rc); return false; } return ondisk("sync"); }
  uint64_t state() { uint64_t h = cache * 7 + filt; for (auto &e : m) h = mix(h, h64(e.second.data(), PS, e.first + 1)); return mix(h, held ? heldno + 2 : 1); }
};
static const unsigned NOP = 20;
static bool op(Pool &k, unsigned o, int d) {
  if (o < 4) return k.write(PG[o], d * 16 + o + 1, 0);
  if (o < 8) return k.read(PG[o - 4]);
  switch (o) {
    case 8: return k.write(1, d * 16 + 9, 1);
    case 9: return k.write(2, d * 16 + 10, 2);
    case 10: return k.fresh(d * 16 + 11, false);
    case 11: return k.fresh(d * 16 + 12, true);
    case 12: return k.rename(1, 20 + d);
    case 13: return d & 1 ? k.rename(5, 3) : k.rename(5, 30 + d);
    case 14: return k.drop(1);
    case 15: return k.drop(5);
    case 16: return k.sync();
    case 17: if (!k.close()) return false; k.byname = !k.byname; return k.open(0);
    case 18: return k.hold(2, false);
    case 19: return k.hold(1, true);
  }
  return true;
}
static void histories(Suite &s, bool T) {
  unsigned D = T ? 5 : 4; static const unsigned CA[] = {0, 1, 3};
  Family f; f.name = "histories"; f.count = 1; for (unsigned d = 0; d < D; d++) f.count *= NOP; f.count *= 3;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned cache = CA[r.take(3)]; Pool k{c, c.dir + "/pool", cache, (i / 3 + i / 60) % 2 == 1};
    if (!k.open(1)) return;
    if (i % 2) { for (unsigned n : PG) if (!k.write(n, 200 + n, 0)) return; if (!k.close() || !k.open(0)) return; }
    for (unsigned d = 0; d < D; d++) { if (!op(k, r.take(NOP), (int)d)) return; c.states.push_back(k.state()); }
    for (auto &e : std::map<unsigned, std::string>(k.m)) if (!k.read(e.first)) return;
    if (!k.close() || !k.open(0, true)) return;
    for (auto &e : std::map<unsigned, std::string>(k.m)) if (!k.read(e.first)) return;
    c.nontrivial = !k.m.empty(); c.outcome = k.state(); k.close();
  };
  s.fams.push_back(f);
}
// as many pages as the hash queues of the pool are long, and more: pages that share a queue stay apart
static void collisions(Suite &s, bool T) {
  Family f; f.name = "page-numbers"; f.count = 5 * 4 * (T ? 400 : 120);
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); static const unsigned CA[] = {0, 1, 2, 5, 12}; Pool k{c, c.dir + "/pool", CA[r.take(5)], false}; unsigned way = r.take(4), n0 = r.take(400);
    if (!k.open(1)) return; std::vector<unsigned> ns; for (unsigned j = 0; j < 4; j++) ns.push_back(n0 + j * (way == 0 ? 16384u : way == 1 ? 16383u : way == 2 ? 1u : 8192u));
    for (unsigned t = 0; t < 3; t++) { for (unsigned n : ns) if (!k.write(n, n % 251 + t * 50 + 1, t)) return; for (size_t j = ns.size(); j--;) if (!k.read(ns[j])) return; }
    for (unsigned n : ns) if (!k.read(n)) return;
    // one page per pair is renamed over the other queue
    if (!k.rename(ns[0], ns[3] + 1) || !k.drop(ns[1])) return;
    for (auto &e : std::map<unsigned, std::string>(k.m)) if (!k.read(e.first)) return;
    // (the file is sparse; only its pages in the model are compared)
    int rc = ffdb_pagepool_close(k.p); if (rc) { c.f("pool-close", "close returned %d", rc); return; }
    if (!k.open(0, true)) return; for (auto &e : std::map<unsigned, std::string>(k.m)) if (!k.read(e.first)) return;
    rc = ffdb_pagepool_close(k.p); if (rc) c.f("pool-close", "close returned %d", rc);
    c.states.push_back(k.state()); c.nontrivial = true;
  };
  s.fams.push_back(f);
}
// the memory the pool and a database take is bounded by the cache asked for
static void memory(Suite &s, bool T) {
  Family f; f.name = "memory-limit"; unsigned NC = T ? 40 : 16; f.count = NC * 6 * 2 * 2;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned cache = r.take(NC), way = r.take(6); bool wr = r.take(2), filled = r.take(2);
    std::string path = c.dir + "/pool"; static unsigned order[400]; unsigned n = 0; ::unlink(path.c_str());
    for (unsigned j = 0; j < 120; j++) order[n++] = way == 0 ? j : way == 1 ? 119 - j : way == 2 ? (j * 7) % 120 : way == 3 ? j / 2 : way == 4 ? j % 30 : (j & 1 ? 0 : j);
    ffdb_pagepool_t *p = 0; if (ffdb_pagepool_create(&p, 0) || ffdb_pagepool_open(p, path.c_str(), FFDB_CREATE, 0600, PS, cache)) { c.f("pool-open", "open"); return; }
    if (filled) { for (unsigned j = 0; j < 120; j++) { pgno_t no = j; void *v; if (ffdb_pagepool_get_page(p, &no, FFDB_PAGE_CREATE, &v)) { c.f("pool-get", "get"); return; } memset(v, 1 + (int)j, PS); ffdb_pagepool_put_page(p, v, FFDB_PAGE_DIRTY); }
      if (ffdb_pagepool_close(p) || ffdb_pagepool_create(&p, 0) || ffdb_pagepool_open(p, path.c_str(), 0, 0600, PS, cache)) { c.f("pool-open", "open"); return; } }
    size_t base = __sanitizer_get_current_allocated_bytes(), most = 0;
    for (unsigned j = 0; j < n; j++) {
      pgno_t no = order[j]; void *v; if (ffdb_pagepool_get_page(p, &no, FFDB_PAGE_CREATE, &v)) { c.f("pool-get", "get"); return; }
      if (filled && !wr && ((unsigned char *)v)[9] != (unsigned char)(1 + no)) { c.f("pool-content", "page %u", no); return; }
      if (wr) memset(v, 1 + (int)no, PS);
      ffdb_pagepool_put_page(p, v, wr ? FFDB_PAGE_DIRTY : 0); size_t now = __sanitizer_get_current_allocated_bytes(); if (now > base && now - base > most) most = now - base;
    }
    c.transitions += n; c.states.push_back(mix(mix(cache, way), wr * 2 + filled)); c.nontrivial = true;
    c.t("cache of %u pages, way %u: at most %zu bytes", cache, way, most);
    if (most > (size_t)(cache + 4) * (PS + 400)) c.f("pool-memory", "a pool limited to %u pages of %u bytes takes %zu bytes", cache, PS, most);
    if (ffdb_pagepool_close(p)) c.f("pool-close", "close");
  };
  s.fams.push_back(f);
  Family g; g.name = "database-memory"; g.count = 12 * 4 * 4;
  g.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); static const unsigned CA[] = {1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64}; unsigned cache = CA[r.take(12)]; unsigned way = r.take(4), sh = r.take(4);
    Cfg q; q.nb = sh == 3 ? 8 : 1; q.cachepages = 200; KV k(c, q); if (!k.create()) return;
    static const size_t VL[] = {30, 400, 1300, 60}; for (unsigned j = 0; j < 150; j++) if (!k.put(mkkey(j, 40), mkval(j, 0, VL[sh] + j % 7))) return;
    if (!k.close()) return; k.cfg.cachepages = cache; c.t("cache of %u pages, way %u", cache, way); bool tr = c.want_trace; c.want_trace = false;
    if (!k.open(way == 3 ? O_RDWR : O_RDONLY)) { c.want_trace = tr; return; }
    size_t base = __sanitizer_get_current_allocated_bytes(), most = 0; unsigned n = 0;
    auto see = [&] { size_t now = __sanitizer_get_current_allocated_bytes(); if (now > base && now - base > most) most = now - base; n++; };
    if (way == 2) { ffdb_cursor_t *cu = 0; if (k.db->cursor(k.db, &cu, FFDB_KEY_CURSOR)) { c.f("cursor-refused", "cursor"); return; } for (;;) { FFDB_DBT K, V; K.data = V.data = 0; K.size = V.size = 0; int rc = cu->get(cu, &K, &V, FFDB_NEXT); if (rc) break; free(K.data); free(V.data); see(); } cu->close(cu); if (n != 150) c.f("cursor-missed", "%u", n); }
    else for (unsigned j = 0; j < 150 && !c.failed(); j++) { unsigned x = way == 1 ? (j * 47) % 150 : j; std::string key = mkkey(x, 40); if (way == 3) { std::string nv = mkval(x, 1, VL[sh]); FFDB_DBT K, V; K.data = &key[0]; K.size = key.size(); V.data = &nv[0]; V.size = nv.size(); if (k.db->put(k.db, &K, &V, 0)) c.f("put", "put"); } else { FFDB_DBT K, V; K.data = &key[0]; K.size = key.size(); V.data = 0; V.size = 0; if (k.db->get(k.db, &K, &V, 0)) c.f("lost-key", "get"); else free(V.data); } see(); }
    c.want_trace = tr; c.transitions += n; c.nontrivial = true; c.states.push_back(mix(mix(cache, way), sh + 7));
    c.t("at most %zu bytes", most);
    if (most > (size_t)(cache + 12) * (q.bsize + 400) + 4096) c.f("database-memory", "a database with a cache of %u pages of %u bytes takes %zu bytes for pages", cache, q.bsize, most);
    if (k.db->close(k.db)) c.f("close-failed", "close"); k.db = 0;
  };
  s.fams.push_back(g);
}
// what an open refuses is left alone, and leaves nothing behind
static void refused(Suite &s) {
  Family f; f.name = "refused-opens"; f.count = 9 * 2;
  f.run = [](uint64_t i, Ctx &c) {
    Radix r(i); unsigned w = r.take(9); bool fdv = r.take(2); std::string path = c.dir + "/pool"; ::unlink(path.c_str());
    auto fds = [] { int n = 0; for (int i = 3; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; };
    if (w != 1) { FILE *z = fopen(path.c_str(), "wb"); std::string b(w == 0 ? PS + 100 : 3 * PS, 'x'); fwrite(b.data(), 1, b.size(), z); fclose(z); }
    unsigned ps = w == 2 ? 100 : w == 3 ? 0 : w == 4 ? 513 : w == 5 ? 1u << 21 : PS; std::string pt = w == 6 ? c.dir : path; unsigned fl = w == 7 ? 0x8000 : w == 8 ? FFDB_NOMMAP : FFDB_RDONLY;
    if (fdv && (w == 1 || w >= 7)) return;
    size_t h0 = 0; int n0 = 0;
    for (int t = 0; t < 3; t++) {
      if (t == 1) { h0 = __sanitizer_get_current_allocated_bytes(); n0 = fds(); }
      ffdb_pagepool_t *p = 0; int rc, fd = -1; if (ffdb_pagepool_create(&p, 0)) { c.f("pool-open", "create"); return; }
      errno = 0;
      if (fdv) { fd = ::open(pt.c_str(), O_RDONLY); rc = ffdb_pagepool_open_fd(p, fd, ps, 4); } else rc = ffdb_pagepool_open(p, pt.c_str(), fl, 0600, ps, 4);
      if (rc == 0 || p->fd != -1) { c.f("pool-accepted", "an open that cannot be served (%u) returned %d", w, rc); return; }
      if (ffdb_pagepool_close(p)) c.f("pool-close", "close"); if (fd >= 0) ::close(fd);
    }
    int n1 = fds(); size_t h1 = __sanitizer_get_current_allocated_bytes(); c.transitions += 3; c.nontrivial = true; c.states.push_back(i);
    if (n1 != n0) c.f("pool-descriptors", "a refused open (%u) leaves a descriptor", w);
    else if (h1 != h0) c.f("pool-leak", "a refused open (%u) leaves %ld bytes", w, (long)h1 - (long)h0);
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P25", [](Suite &s, const std::string &tier) { bool T = tier == "thorough"; histories(s, T); collisions(s, T); memory(s, T); refused(s); });
}
#else
#include "kv.h"
#include "ctlsched.h"
#include <fcntl.h>
#include <errno.h>
extern "C" {
#include "ffdb_pagepool.h"
}
static const unsigned PS = 512, NW = PS / 4;
static const unsigned A = 1, B = 4, C = 9;
struct World { ffdb_pagepool_t *p = 0; std::string path; unsigned cache; int holder[32]; unsigned inc[32]; std::set<unsigned> fresh; std::map<unsigned, unsigned> own; bool moved; };
static void fail(const char *k, const std::string &m) { sched_fail(k, m); }
static unsigned *take(World &w, unsigned n, int me, unsigned flags) {
  pgno_t no = n; void *v = 0; int rc = ffdb_pagepool_get_page(w.p, &no, flags, &v);
  if (rc || !v) { fail("pool-get", "get returned " + std::to_string(rc)); return 0; }
  if (n < 32) { if (w.holder[n] != 0 && w.holder[n] != me) { fail("pool-exclusive", "page " + std::to_string(n) + " is given to a thread while another one holds it"); return 0; } w.holder[n] = me; }
  return (unsigned *)v;
}
static void give(World &w, unsigned n, unsigned *v, unsigned flags, bool last = true) { if (n < 32 && last) w.holder[n] = 0; if (ffdb_pagepool_put_page(w.p, v, flags)) fail("pool-put", "put failed"); }
static bool inc(World &w, unsigned n, unsigned *v) {
  for (unsigned i = 1; i < NW; i++) if (v[i] != v[0]) { fail("pool-torn", "a page is seen half changed"); return false; }
  if (v[0] != 1000 * n + w.inc[n]) { fail("pool-lost-update", "page " + std::to_string(n) + " shows " + std::to_string(v[0] - 1000 * n) + " of " + std::to_string(w.inc[n]) + " changes"); return false; }
  w.inc[n]++; unsigned x = v[0] + 1; for (unsigned i = 0; i < NW; i++) v[i] = x; return true;
}
static bool look(World &w, unsigned n, const unsigned *v) { for (unsigned i = 0; i < NW; i++) if (v[i] != 1000 * n + w.inc[n]) { fail("pool-content", "a page is not what was put back"); return false; } return true; }
static const char *ON[] = {"change-A", "change-B", "change-A-and-B", "change-A-twice-held", "new-page", "drop-A", "renumber-own", "sync", "read-A", "read-B", "change-C", "renumber-8", "read-8"};
static void op(World &w, unsigned o, int me) {
  unsigned *a, *b; 
  switch (o) {
    case 0: case 1: case 10: { unsigned n = o == 0 ? A : o == 1 ? B : C; if ((a = take(w, n, me, 0)) && inc(w, n, a)) give(w, n, a, FFDB_PAGE_DIRTY); break; }
    case 2: if ((a = take(w, A, me, FFDB_PAGE_DIRTY)) && (b = take(w, B, me, 0)) && inc(w, A, a) && inc(w, B, b)) { give(w, B, b, FFDB_PAGE_DIRTY); if (!sched_failed()) give(w, A, a, 0); } break;
    case 3: if ((a = take(w, A, me, 0)) && (b = take(w, A, me, 0))) { if (a != b) { fail("pool-two", "one page at two places"); return; } if (!inc(w, A, a)) return; give(w, A, b, FFDB_PAGE_DIRTY, false); if (!sched_failed() && inc(w, A, a)) give(w, A, a, FFDB_PAGE_DIRTY); } break;
    case 4: case 6: {
      pgno_t no = 0; void *v = 0; if (ffdb_pagepool_new_page(w.p, &no, 0, &v)) { fail("pool-new", "new page refused"); return; }
      if (no < 10 || !w.fresh.insert(no).second) { fail("pool-new", "a new page got number " + std::to_string(no) + ", which another page has"); return; }
      a = (unsigned *)v; for (unsigned i = 0; i < NW; i++) a[i] = 7000 * me + no;
      unsigned val = 7000 * me + no, n = no;
      if (o == 6) { n = 190 - 20 * me; while (w.own.count(n)) n--; if (ffdb_pagepool_change_page(w.p, a, n)) { fail("pool-change", "change refused"); return; } }
      else if (ffdb_pagepool_put_page(w.p, a, FFDB_PAGE_DIRTY)) { fail("pool-put", "put"); return; }
      w.own[n] = val; if (!(a = take(w, n, me, 0))) return;
      for (unsigned i = 0; i < NW; i++) if (a[i] != val) { fail("pool-content", "a thread's own page is not what it put back"); return; }
      give(w, n, a, 0); break; }
    case 5: if ((a = take(w, A, me, 0)) && look(w, A, a)) { w.holder[A] = 0; int rc = ffdb_pagepool_delete(w.p, a); if (rc == 0) break; if (rc != EAGAIN) { fail("pool-delete", "delete returned " + std::to_string(rc)); return; } if (w.holder[A] != 0) { fail("pool-exclusive", "a page that was not deleted was given away"); return; } give(w, A, a, 0); } break;
    case 7: if (ffdb_pagepool_sync(w.p)) fail("pool-sync", "sync failed"); break;
    case 11: if (!(a = take(w, 8, me, 0))) break;
      if (a[0] == 0) { give(w, 8, a, 0); break; }        // renumbered already
      if (look(w, 8, a)) { w.holder[8] = 0; int rc = ffdb_pagepool_change_page(w.p, a, 200); if (rc == 0) w.moved = true; else if (rc != EAGAIN) fail("pool-change", "change returned " + std::to_string(rc)); } break;
    case 12: { pgno_t no = 8; void *v = 0; if (ffdb_pagepool_get_page(w.p, &no, 0, &v) || !v) { fail("pool-get", "get"); return; } a = (unsigned *)v; bool z = true, e = true; for (unsigned i = 0; i < NW; i++) { if (a[i]) z = false; if (a[i] != 8000) e = false; } if (!z && !e) { fail("pool-content", "a page that is renumbered by another thread is neither itself nor empty"); return; } give(w, 8, a, 0); break; }
    case 8: case 9: { unsigned n = o == 8 ? A : B; if ((a = take(w, n, me, 0)) && look(w, n, a)) give(w, n, a, 0); break; }
  }
}
static void explore(Ctx &c, unsigned cache, std::vector<std::vector<unsigned>> prog, int P, int SP) {
  World w; w.path = c.dir + "/pool"; w.cache = cache; std::string what;
  for (size_t t = 0; t < prog.size(); t++) { what += " T" + std::to_string(t + 1) + ":"; for (unsigned o : prog[t]) { what += " "; what += ON[o]; } }
  c.t("cache of %u pages;%s; at most %d preemptions, %d spurious wakeups", cache, what.c_str(), P, SP);
  SchedBounds sb; sb.preempt = P; sb.spurious = SP; std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < prog.size(); t++) bodies.push_back([&w, &prog, t] { for (unsigned o : prog[t]) { op(w, o, (int)t + 1); if (sched_failed()) return; } });
  SchedResult r = sched_explore(sb, [&] {
      memset(w.holder, 0, sizeof w.holder); memset(w.inc, 0, sizeof w.inc); w.fresh.clear(); w.own.clear(); w.moved = false; ::unlink(w.path.c_str());
      if (ffdb_pagepool_create(&w.p, 0) || ffdb_pagepool_open(w.p, w.path.c_str(), FFDB_CREATE, 0600, PS, cache)) { fail("pool-open", "open"); return; }
      for (unsigned n = 0; n < 10; n++) { pgno_t no = n; void *v; if (ffdb_pagepool_get_page(w.p, &no, FFDB_PAGE_CREATE, &v)) { fail("pool-get", "setup"); return; } for (unsigned i = 0; i < NW; i++) ((unsigned *)v)[i] = 1000 * n; ffdb_pagepool_put_page(w.p, v, FFDB_PAGE_DIRTY); } },
    bodies, [&] {
      for (unsigned n = 0; n < 10 && !sched_failed(); n++) { if (n == 8 && w.moved) continue; unsigned *v = take(w, n, 99, 0); if (v && look(w, n, v)) give(w, n, v, 0); }
      if (ffdb_pagepool_close(w.p)) { fail("pool-close", "close"); return; }
      FILE *f = fopen(w.path.c_str(), "rb"); unsigned buf[NW]; std::map<unsigned, unsigned> want = w.own; for (unsigned n = 0; n < 10; n++) want[n] = 1000 * n + w.inc[n]; if (w.moved) { want[8] = 0; want[200] = 8000; }
      for (unsigned n = 0; f && fread(buf, PS, 1, f) == 1; n++) { auto it = want.find(n); if (it == want.end()) { if (w.own.empty() && !w.moved) { fail("pool-file", "a page nobody put is in the file"); break; } continue; } for (unsigned i = 0; i < NW; i++) if (buf[i] != it->second) { fail("pool-file", "page " + std::to_string(n) + " of the file is not what was put back"); break; } want.erase(it); }
      if (f) fclose(f); if (!want.empty() && !sched_failed()) fail("pool-file", "page " + std::to_string(want.begin()->first) + " is missing in the file"); });
  c.transitions += r.points; c.executions = r.schedules; c.nontrivial = r.schedules > 1; uint64_t h = h64(what.data(), what.size(), 3 + cache); for (uint64_t x : r.states) c.states.push_back(mix(h, x)); c.outcome = mix(h, r.schedules);
  c.t("%llu schedules, %llu scheduling points", (unsigned long long)r.schedules, (unsigned long long)r.points);
  if (!r.fail.empty()) { c.t("schedule %s", r.schedule.c_str()); c.f(r.klass.c_str(), "%s [%s] schedule %s", r.fail.c_str(), what.c_str(), r.schedule.c_str()); }
}
static void fam(Suite &s, const char *name, std::vector<unsigned> shape, int P, int SP, std::vector<unsigned> alpha, std::vector<unsigned> caches) {
  Family f; f.name = name; f.count = caches.size(); for (unsigned x : shape) for (unsigned j = 0; j < x; j++) f.count *= alpha.size(); f.timeout = 100;
  f.run = [=](uint64_t i, Ctx &c) { Radix r(i); unsigned ca = caches[r.take(caches.size())]; std::vector<std::vector<unsigned>> prog; for (unsigned x : shape) { std::vector<unsigned> p; for (unsigned j = 0; j < x; j++) p.push_back(alpha[r.take(alpha.size())]); prog.push_back(p); } explore(c, ca, prog, P, SP); };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P25", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough"; std::vector<unsigned> all = {0, 1, 2, 3, 4, 5, 6}, few = {0, 2, 3, 5}, ca = {0, 1, 16};
    fam(s, "two-threads", {2, 1}, T ? 4 : 3, 0, all, ca);
    fam(s, "two-threads-spurious", {1, 1}, 3, T ? 2 : 1, all, ca);
    fam(s, "two-threads-long", {2, 2}, T ? 3 : 2, 0, few, ca);
    fam(s, "three-threads", {1, 1, 1}, T ? 3 : 2, 0, T ? all : std::vector<unsigned>{0, 2, 3, 5, 10}, ca);
    fam(s, "three-threads-spurious", {1, 1, 1}, 1, 1, few, {0, 16});
    fam(s, "sync-and-readers", {2, 1, 1}, T ? 2 : 1, 0, {7, 8, 9}, ca);
    fam(s, "renumbering", {1, 1, 1}, T ? 3 : 2, 1, {11, 12, 0}, ca);
    if (T) fam(s, "four-threads", {1, 1, 1, 1}, 2, 0, {0, 2, 5}, {0, 16});
  });
}
#endif
