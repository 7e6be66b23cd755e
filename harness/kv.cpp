#include "kv.h"

unsigned int kv_hash_const(const void *, unsigned int) { return 5; }
unsigned int kv_hash_id(const void *p, unsigned int n) {
  // little-endian first 4 bytes: caller controls the bucket directly
  const unsigned char *c = (const unsigned char *)p; unsigned h = 0;
  for (unsigned i = 0; i < n && i < 4; i++) h |= (unsigned)c[i] << (8 * i);
  return h;
}
unsigned int kv_hash_hi(const void *p, unsigned int n) {  // many keys share low bits
  const unsigned char *c = (const unsigned char *)p; unsigned h = 0;
  for (unsigned i = 0; i < n && i < 4; i++) h |= (unsigned)c[i] << (8 * i);
  return (h << 3) | 1;
}
static const char *hname[] = {"default", "const", "id", "hi", "bad"};
std::string Cfg::str() const {
  char b[200];
  snprintf(b, sizeof b, "page=%u buckets=%u cache=%ldpages rearrange=%d hash=%s userinfo=%u configs=%u", bsize, nb, cachepages, rearr, hname[hash], uil, nc);
  return b;
}
std::string mkval(unsigned kid, unsigned ver, size_t n) {
  std::string s(n, 0);
  uint32_t x = kid * 2654435761u + ver * 40503u + 12345u + (unsigned)n * 97u;
  for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); }
  return s;
}
std::string mkkey(unsigned kid, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char)(i < 4 ? (kid >> (8 * i)) & 255 : 'a' + (i * 7 + kid) % 26);
  return s;
}
FFDB_HASHINFO KV::info() const {
  FFDB_HASHINFO i; memset(&i, 0, sizeof i);
  i.bsize = cfg.bsize; i.nbuckets = cfg.nb; i.cachesize = (unsigned long)cfg.cachepages * cfg.bsize;
  i.rearrangepages = cfg.rearr; i.userinfolen = cfg.uil; i.numconfigs = cfg.nc;
  switch (cfg.hash) { case H_CONST: i.hash = kv_hash_const; break; case H_ID: i.hash = kv_hash_id; break; case H_HI: i.hash = kv_hash_hi; break; default: i.hash = 0; }
  i.cmp = 0;
  return i;
}
FFDB_DB *KV::rawopen(int flags) {
  FFDB_HASHINFO i = info();
  return ffdb_dbopen(path.c_str(), flags, 0664, &i);
}
bool KV::open(int flags) {
  c.transitions++;
  c.t("open(flags=%s%s) %s", (flags & O_ACCMODE) == O_RDONLY ? "RDONLY" : "RDWR", flags & O_TRUNC ? "|CREAT|TRUNC" : "", cfg.str().c_str());
  db = rawopen(flags); oflags = flags;
  if (!db) { c.f("open-refused", "open failed (errno %d) with %s", errno, cfg.str().c_str()); return false; }
  if (flags & O_TRUNC) { m.clear(); uset = false; }
  return true;
}
bool KV::close() {
  c.transitions++; c.t("close");
  int r = db->close(db); db = 0;
  if (r != 0) { c.f("close-failed", "close returned %d", r); return false; }
  return true;
}
bool KV::sync() {
  c.transitions++; c.t("sync");
  int r = db->sync(db, 0);
  if (r != 0) { c.f("sync-failed", "sync returned %d", r); return false; }
  return true;
}
static std::string q(const std::string &k) {
  std::string o; char b[8];
  for (size_t i = 0; i < k.size() && i < 12; i++) { snprintf(b, 8, "%02x", (unsigned char)k[i]); o += b; }
  snprintf(b, 8, "/%zu", k.size()); return o + b;
}
bool KV::putflag(const std::string &k, const std::string &v, unsigned flag, int &rc) {
  c.transitions++;
  Buf kb(k), vb(v);
  FFDB_DBT K, V; K.data = kb.p; K.size = (long)kb.n; V.data = vb.p; V.size = (long)vb.n;
  rc = db->put(db, &K, &V, flag);
  c.t("put(%s, %zu bytes%s) = %d", q(k).c_str(), v.size(), flag ? ", NOOVERWRITE" : "", rc);
  if (memcmp(kb.p, k.data(), k.size()) || memcmp(vb.p, v.data(), v.size())) { c.f("caller-buffer-modified", "put changed the caller's buffers"); return false; }
  return true;
}
bool KV::put(const std::string &k, const std::string &v, bool no) {
  int rc;
  if (!putflag(k, v, no ? FFDB_NOOVERWRITE : 0, rc)) return false;
  auto it = m.find(k);
  bool ok;
  if ((oflags & O_ACCMODE) == O_RDONLY) ok = false;
  else if (k.size() > maxkey()) ok = false;
  else if (it == m.end()) ok = true;
  else if (no) ok = false;
  else ok = v.size() <= it->second.size();
  if (ok != (rc == 0)) {
    c.f(ok ? "put-refused" : "put-accepted", "put(%s,%zu bytes%s) returned %d, expected %s (existing %zd)", q(k).c_str(), v.size(), no ? ",NOOVERWRITE" : "", rc, ok ? "success" : "refusal", it == m.end() ? (ssize_t)-1 : (ssize_t)it->second.size());
    return false;
  }
  if (ok) m[k] = v;
  return true;
}
bool KV::get(const std::string &k) {
  c.transitions++;
  Buf kb(k);
  FFDB_DBT K, V; K.data = kb.p; K.size = (long)kb.n; V.data = 0; V.size = 0;
  int rc = db->get(db, &K, &V, 0);
  auto it = m.find(k);
  c.outcome = mix(c.outcome, rc * 3 + 1);
  if (it == m.end()) {
    if (rc != FFDB_NOT_FOUND) { c.f("phantom", "get(%s) of a key never stored returned %d", q(k).c_str(), rc); return false; }
    return true;
  }
  if (rc != 0) { c.f("lost-key", "get(%s) returned %d, expected %zu bytes", q(k).c_str(), rc, it->second.size()); return false; }
  if ((size_t)V.size != it->second.size() || (V.size && memcmp(V.data, it->second.data(), V.size))) {
    c.f("wrong-data", "get(%s) returned %ld bytes that are not the %zu bytes stored", q(k).c_str(), V.size, it->second.size()); free(V.data); return false;
  }
  free(V.data);
  return true;
}
bool KV::getbuf(const std::string &k, long bs) {
  c.transitions++;
  Buf kb(k);
  char *b = (char *)malloc(bs); memset(b, 0x5a, bs);
  FFDB_DBT K, V; K.data = kb.p; K.size = (long)kb.n; V.data = b; V.size = bs;
  int rc = db->get(db, &K, &V, 0);
  c.t("get(%s, caller buffer %ld) = %d size %ld", q(k).c_str(), bs, rc, (long)V.size);
  auto it = m.find(k);
  bool r = true;
  if (it == m.end()) {
    if (rc != FFDB_NOT_FOUND) { c.f("phantom", "get(%s) of an absent key into a buffer returned %d", q(k).c_str(), rc); r = false; }
  } else if (it->second.size() > (size_t)bs) {
    if (rc == 0) { c.f("short-buffer-accepted", "get(%s) of %zu bytes into %ld byte buffer returned 0", q(k).c_str(), it->second.size(), bs); r = false; }
  } else {
    if (rc != 0) { c.f("lost-key", "get(%s) into a %ld byte buffer returned %d", q(k).c_str(), bs, rc); r = false; }
    else if (V.data != b) { c.f("buffer-replaced", "get(%s) did not use the caller's buffer", q(k).c_str()); r = false; }
    else if ((size_t)V.size != it->second.size() || memcmp(b, it->second.data(), V.size)) { c.f("wrong-data", "get(%s) into buffer: wrong bytes", q(k).c_str()); r = false; }
    else for (long i = V.size; i < bs; i++) if (b[i] != 0x5a) { c.f("buffer-overrun", "get(%s) wrote beyond the data length", q(k).c_str()); r = false; break; }
  }
  free(b);
  return r;
}
bool KV::absent(const std::string &k) { return get(k); }
bool KV::checkall() {
  c.t("check all %zu keys", m.size());
  for (auto &e : m) if (!get(e.first)) return false;
  return true;
}
bool KV::scan(int mode) {
  c.transitions++;
  c.t("cursor scan mode %d", mode);
  ffdb_cursor_t *cu = 0;
  if (db->cursor(db, &cu, FFDB_KEY_CURSOR) != 0) { c.f("cursor-refused", "cursor() failed"); return false; }
  std::set<std::string> seen;
  unsigned fl = mode == 0 || mode == 4 || mode == 5 ? FFDB_FIRST : mode == 1 ? FFDB_NEXT : mode == 2 ? FFDB_LAST : FFDB_PREV;
  unsigned nx = mode == 2 || mode == 3 ? FFDB_PREV : FFDB_NEXT;
  bool ok = true;
  for (size_t n = 0;; n++) {
    if (n > m.size() + 2) { c.f("cursor-endless", "cursor mode %d delivered more than %zu entries", mode, m.size()); ok = false; break; }
    FFDB_DBT K, V; K.data = 0; K.size = 0; V.data = 0; V.size = 0;
    int rc = cu->get(cu, &K, mode == 5 ? 0 : &V, n == 0 ? fl : nx);
    if (rc == FFDB_NOT_FOUND) break;
    if (rc != 0) { c.f("cursor-error", "cursor mode %d returned %d after %zu of %zu entries", mode, rc, n, m.size()); ok = false; break; }
    std::string k((char *)K.data, K.size), v;
    if (mode != 5) v.assign((char *)V.data, V.size);
    free(K.data); if (mode != 5) free(V.data);
    auto it = m.find(k);
    if (it == m.end()) { c.f("cursor-phantom", "cursor mode %d delivered a key never stored (%s)", mode, q(k).c_str()); ok = false; break; }
    if (!seen.insert(k).second) { c.f("cursor-duplicate", "cursor mode %d delivered key %s twice", mode, q(k).c_str()); ok = false; break; }
    if (mode != 5 && v != it->second) { c.f("cursor-wrong-data", "cursor mode %d delivered wrong data for %s", mode, q(k).c_str()); ok = false; break; }
    if (mode == 4) { if (!get(k) || !get(m.begin()->first) || !get(m.rbegin()->first) || !get(std::string("absent key"))) { ok = false; break; } }
  }
  if (ok && seen.size() != m.size()) { c.f("cursor-missed", "cursor mode %d delivered %zu of %zu entries", mode, seen.size(), m.size()); ok = false; }
  cu->close(cu);
  return ok;
}
bool KV::setuinfo(const std::string &u) {
  c.transitions++;
  Buf b(u);
  int rc = ffdb_set_user_info(db, (unsigned char *)b.p, (unsigned)b.n);
  c.t("set_user_info(%zu bytes) = %d", u.size(), rc);
  bool okx = u.size() <= cfg.uil;
  if (okx != (rc == 0)) { c.f("uinfo-result", "set_user_info(%zu of max %u) returned %d", u.size(), cfg.uil, rc); return false; }
  if (okx) { uinfo = u; uset = true; }
  return true;
}
bool KV::checkuinfo() {
  c.transitions++;
  unsigned n = ffdb_max_user_info_len(db);
  if (n != cfg.uil) { c.f("uinfo-max", "max user info %u, expected %u", n, cfg.uil); return false; }
  unsigned char *b = (unsigned char *)malloc(n ? n : 1);
  unsigned len = n;
  int rc = ffdb_get_user_info(db, b, &len);
  bool ok = true;
  if (rc != 0) { c.f("uinfo-get", "get_user_info returned %d", rc); ok = false; }
  else if (len != uinfo.size() || memcmp(b, uinfo.data(), len)) { c.f("uinfo-data", "user info of %zu bytes came back as %u different bytes", uinfo.size(), len); ok = false; }
  free(b);
  return ok;
}
void KV::state() {
  uint64_t h = h64(&cfg.bsize, sizeof cfg.bsize);
  h = mix(h, cfg.nb); h = mix(h, cfg.cachepages); h = mix(h, cfg.rearr); h = mix(h, cfg.hash); h = mix(h, db != 0); h = mix(h, oflags & O_ACCMODE);
  for (auto &e : m) { h = h64(e.first.data(), e.first.size(), h); h = mix(h, h64(e.second.data(), e.second.size())); }
  h = mix(h, h64(uinfo.data(), uinfo.size()));
  c.states.push_back(h);
}
