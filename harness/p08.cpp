// P08: a file whose bytes have changed is never taken for good: every read either reports it or returns exactly what was stored.
#include "kv.h"
#include "fmt.h"
#include <csetjmp>
#include <dirent.h>
static jmp_buf out; static bool armed; static int ended;
extern "C" {
void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));
void __wrap_exit(int c) { if (armed) { ended = 1000 + c; longjmp(out, 1); } __real_exit(c); }
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) { if (armed) { ended = 2000; longjmp(out, 1); } __real___assert_fail(a, f, l, g); }
void __wrap_abort(void) { if (armed) { ended = 2000; longjmp(out, 1); } __real_abort(); }
}
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void closefds(int from) { for (int i = from; i < from + 8; i++) ::close(i); }
static int lowfd() { int f = ::open("/dev/null", O_RDONLY); ::close(f); return f; }
struct Base { unsigned nb; int hash; unsigned n; size_t kl, vl; int conv; int re; };
static const Base BASES[] = {
  {1, H_DEFAULT, 6, 60, 90, 0, 0},       // splits, shared data pages
  {2, H_CONST, 5, 200, 30, 0, 1},        // overflow chain
  {1, H_ID, 4, 50, 700, 0, 0},           // data over several pages
  {1, H_DEFAULT, 5, 100, 150, 1, 0},     // the other byte order
  {2, H_ID, 5, 80, 120, 2, 0},           // format version 5
  {4, H_HI, 9, 150, 40, 0, 1},           // rearranged
};
static const unsigned NBASE = 6;
static bool fill(KV &k, const Base &b) {
  for (unsigned j = 0; j < b.n; j++) if (!k.put(mkkey(j, b.kl + j), mkval(j, 0, b.vl + 37 * j))) return false;
  if (!k.setuinfo("user information")) return false;
  std::vector<ffdb_config_info_t> v(k.cfg.nc); memset(v.data(), 0, v.size() * sizeof v[0]);
  for (unsigned i = 0; i < k.cfg.nc; i++) { v[i].index = i; v[i].config = 100 + i; v[i].mtime = 76 + i; strcpy(v[i].fname, "name of file"); v[i].fname[11] = 'a' + i; }
  ffdb_all_config_info_t a; a.numconfigs = k.cfg.nc; a.allconfigs = v.data();
  for (unsigned i = 0; i < k.cfg.nc; i++) v[i].config = i;
  return ffdb_set_all_configs(k.db, &a) == 0;
}
static bool base(KV &k, const Base &b, std::string &img) {
  if (!k.create() || !fill(k, b) || !k.close()) return false;
  if (b.conv) { Img im; if (!im.load(k.path)) { k.c.f("setup", "load"); return false; } if (b.conv == 1) im.swap_order(); else if (!im.to_version5()) { k.c.f("setup", "v5"); return false; } im.save(k.path); }
  if (!k.open(O_RDONLY) || !k.checkall() || !k.scan(0) || !k.checkuinfo() || !k.close()) return false;
  img = slurp(k.path);
  return true;
}
// Read everything from the damaged file. Returns a word for what happened; wrong answers are recorded in c.
// lenient: a page may be gone altogether; missing keys are allowed then, wrong bytes are not
static const char *readall(KV &k, Ctx &c, const std::string &what, bool lenient, int order) {
  volatile int low = lowfd();
  const char *volatile res = "intact";
  ended = 0; armed = true;
  if (setjmp(out) == 0) {
    FFDB_DB *db = k.rawopen(O_RDONLY);
    if (!db) { res = "open refused"; armed = false; closefds(low); return res; }
    for (int stage = 0; stage < 3 && res[0] == 'i'; stage++) {
      int st = (stage + order) % 3;
      if (st == 0) {
        for (auto &e : k.m) {
          FFDB_DBT K, V; K.data = (void *)e.first.data(); K.size = e.first.size(); V.data = 0; V.size = 0;
          int rc = db->get(db, &K, &V, 0); c.transitions++;
          if (rc < 0) { res = "get reported"; break; }
          if (rc == FFDB_NOT_FOUND) { if (!lenient) { c.f("silent-loss", "%s: a stored key is reported as not there", what.c_str()); res = "x"; break; } continue; }
          if ((size_t)V.size != e.second.size() || memcmp(V.data, e.second.data(), V.size)) { c.f("silent-corruption", "%s: get returned bytes that were never stored", what.c_str()); res = "x"; break; }
          free(V.data);
        }
      } else if (st == 1) {
        ffdb_cursor_t *cu = 0; if (db->cursor(db, &cu, FFDB_KEY_CURSOR) != 0) { res = "cursor reported"; break; }
        std::set<std::string> seen; size_t n = 0;
        for (;; n++) {
          if (n > k.m.size() + 4) { c.f("cursor-endless", "%s: the cursor does not end", what.c_str()); res = "x"; break; }
          FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
          int rc = cu->get(cu, &K, &V, n ? FFDB_NEXT : FFDB_FIRST); c.transitions++;
          if (rc == FFDB_NOT_FOUND) break;
          if (rc != 0) { res = "cursor reported"; break; }
          std::string a((char *)K.data, K.size), v((char *)V.data, V.size); free(K.data); free(V.data);
          auto it = k.m.find(a);
          if (it == k.m.end()) { c.f("cursor-phantom", "%s: the cursor delivers a key never stored", what.c_str()); res = "x"; break; }
          if (v != it->second) { c.f("silent-corruption", "%s: the cursor delivers bytes never stored", what.c_str()); res = "x"; break; }
          if (!seen.insert(a).second) { c.f("cursor-duplicate", "%s: the cursor delivers a key twice", what.c_str()); res = "x"; break; }
        }
        if (res[0] == 'i' && !lenient && seen.size() != k.m.size()) { c.f("silent-loss", "%s: the cursor misses %zu keys", what.c_str(), k.m.size() - seen.size()); res = "x"; break; }
        cu->close(cu);
      } else {
        unsigned n = k.cfg.uil; unsigned char b[64]; int rc = ffdb_get_user_info(db, b, &n); c.transitions++;
        if (rc != 0) { res = "user info reported"; break; }
        if (!lenient && (n != k.uinfo.size() || memcmp(b, k.uinfo.data(), n))) { c.f("silent-uinfo", "%s: user information differs", what.c_str()); res = "x"; break; }
        for (unsigned i = 0; i < k.cfg.nc && res[0] == 'i'; i++) {
          ffdb_config_info_t ci; memset(&ci, 0, sizeof ci); rc = ffdb_get_config(db, i, &ci); c.transitions++;
          if (rc != 0) { res = "config reported"; break; }
          std::string nm = "name of file"; nm[11] = 'a' + i;
          if (!lenient && (ci.mtime != (int)(76 + i) || nm != ci.fname)) { c.f("silent-config", "%s: configuration information differs", what.c_str()); res = "x"; break; }
        }
      }
    }
    if (res[0] == 'i' || res[0] == 'x') db->close(db);
  } else res = ended == 2000 ? "ended by abort" : "ended by exit";
  armed = false;
  closefds(low);
  return res;
}
static void damage(Suite &s, const char *name, unsigned nbase, unsigned nhow, std::function<bool(std::string &, size_t, unsigned)> how, size_t grain, bool lenient, const char *label) {
  Family f; f.name = name;
  // the number of positions depends on the file; a case is one position of one base file, all damages at it
  static const size_t MAXPOS = 16 * 1024;
  size_t per = MAXPOS / grain;
  f.count = (uint64_t)nbase * per;
  std::string lab = label;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); size_t pos = r.take(per) * grain; const Base &b = BASES[r.take(nbase)];
    c.executions = 0;
    Cfg g; g.nb = b.nb; g.hash = b.hash; g.nc = 2; g.cachepages = 20; g.rearr = b.re;
    KV k(c, g);
    // reuse the base file while this worker stays on the same base
    static std::map<int, std::pair<std::string, std::map<std::string, std::string>>> cache;
    int bi = &b - BASES; std::string img;
    if (!cache.count(bi)) { if (!base(k, b, img)) return; cache[bi] = {img, k.m}; }
    img = cache[bi].first; k.m = cache[bi].second; k.uinfo = "user information";
    if (img.size() > MAXPOS) { c.f("setup", "base file has %zu bytes", img.size()); return; }
    if (pos >= img.size()) return;
    for (unsigned h = 0; h < nhow; h++) {
      std::string t = img; if (!how(t, pos, h) || t == img) continue;
      spit(k.path, t);
      char w[128]; snprintf(w, sizeof w, "%s at byte %zu (page %zu offset %zu), form %u", lab.c_str(), pos, pos / 512, pos % 512, h);
      c.t("%s", w);
      const char *res = readall(k, c, w, lenient, h % 3);
      c.t("-> %s", res); c.executions++;
      c.outcome = mix(c.outcome, h64(res, strlen(res)));
      c.states.push_back(mix(mix(bi, pos), h64(res, strlen(res))));
      if (c.failed()) return;
      if (res[0] != 'i') c.nontrivial = true;
    }
  };
  s.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P08", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    damage(s, "bit-flips", NBASE, T ? 9 : 3, [T](std::string &t, size_t p, unsigned h) { t[p] ^= T ? (h == 8 ? 0xff : 1 << h) : h == 0 ? 0x01 : h == 1 ? 0x80 : 0xff; return true; }, 1, false, "changed bits");
    damage(s, "byte-values", NBASE, T ? 6 : 2, [](std::string &t, size_t p, unsigned h) { static const int add[] = {1, -1, 2, -2, 0x10, 0x40}; t[p] = (char)(t[p] + add[h]); return true; }, 1, false, "changed value");
    damage(s, "words", NBASE, 6, [](std::string &t, size_t p, unsigned h) {
      if (p + 4 > t.size()) return false; unsigned char *q = (unsigned char *)&t[p]; 
      switch (h) { case 0: memset(q, 0, 4); break; case 1: memset(q, 0xff, 4); break; case 2: std::swap(q[0], q[3]); std::swap(q[1], q[2]); break; case 3: for (int i = 0; i < 4; i++) q[i] ^= 0xff; break; case 4: if (p < 4) return false; memcpy(q, &t[p - 4], 4); break; case 5: q[1]++; break; }
      return true; }, T ? 1 : 2, false, "changed word");
    damage(s, "sectors", NBASE, 4, [](std::string &t, size_t p, unsigned h) {       // pieces lost inside a page, leaving its type field
      size_t off = p % 512; if (off + 64 > 512 || p < 512) return false; bool any = false; 
      if (off < 32) return false;
      for (size_t i = 0; i < 64; i++) { char o = t[p + i]; t[p + i] = h == 0 ? 0 : h == 1 ? (char)0xff : h == 2 ? 'Z' : t[(p + 512 + i) % t.size()]; any |= o != t[p + i]; }
      return any; }, T ? 8 : 32, false, "lost piece");
    damage(s, "ranges", NBASE, 3 * 18, [](std::string &t, size_t p, unsigned h) {    // a run of bytes that begins in the first part of a page and ends anywhere
      size_t pg = p / 512 * 512, off = p - pg; if (off >= 64 || pg + 512 > t.size()) return false;
      static const size_t len[] = {8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128, 192, 256, 384, 448, 512};
      size_t e = std::min<size_t>(512, off + len[h / 3]); bool any = false, left = false;
      std::string o = t.substr(pg, 512), other = pg + 1024 <= t.size() ? t.substr(pg + 512, 512) : t.substr(0, 512);
      for (size_t i = off; i < e; i++) t[pg + i] = h % 3 == 0 ? 0 : h % 3 == 1 ? (char)0xff : other[i];
      for (size_t i = 0; i < 512; i++) { any |= t[pg + i] != o[i]; left |= t[pg + i] != 0; }
      return any && left; }, T ? 2 : 4, false, "changed run");
    damage(s, "two-places", NBASE, 14, [](std::string &t, size_t p, unsigned h) {    // a word of the first part of a page and another word of it
      size_t pg = p / 512 * 512, a = h / 2 * 4; if (pg + 512 > t.size() || pg + a == p) return false;
      int v = h % 2 ? 0xff : 0; bool any = false; for (size_t i = 0; i < 4; i++) { any |= (unsigned char)t[pg + a + i] != v; t[pg + a + i] = (char)v; }
      t[p] ^= 1; t[p + 1] += 3; return any; }, T ? 2 : 4, false, "changed words");
    damage(s, "lost-pages", NBASE, 2, [](std::string &t, size_t p, unsigned h) {    // a whole page reads as zeros / garbage
      if (p < 512) return false; memset(&t[p], h ? 0xff : 0, std::min<size_t>(512, t.size() - p)); return true; }, 512, true, "lost page");
    damage(s, "misplaced-pages", NBASE, 64, [](std::string &t, size_t p, unsigned h) {    // another page's content in the place of a page, or both exchanged
      size_t q = (h / 2 + 1) * 512; if (p < 512 || q == p || p + 512 > t.size() || q + 512 > t.size()) return false;
      std::string x = t.substr(p, 512), y = t.substr(q, 512); if (y.find_first_not_of('\0') == std::string::npos || (h % 2 && x.find_first_not_of('\0') == std::string::npos)) return false;
      t.replace(p, 512, y); if (h % 2) t.replace(q, 512, x); return true; }, 512, false, "misplaced page");
    damage(s, "torn-page", NBASE, 15, [](std::string &t, size_t p, unsigned h) {   // only the first part of a page was written over zeros
      if (p < 512) return false; size_t n = (h + 1) * 32; memset(&t[p + n], 0, 512 - n); return true; }, 512, false, "torn page");
    damage(s, "truncated", NBASE, 2, [](std::string &t, size_t p, unsigned h) { if (p < 512 && !h) return false; t.resize(p + (h ? 1 : 0)); return true; }, T ? 16 : 64, true, "file cut");
  });
}
