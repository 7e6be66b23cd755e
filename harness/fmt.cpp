#include "fmt.h"
#include <cstdio>
#include <cstring>
#include <set>
static const size_t HDR = 332;
uint32_t fmt_crc(uint32_t crc, const unsigned char *p, size_t n) {
  static uint32_t T[256]; static bool init = false;
  if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; T[i] = c; } init = true; }
  crc = ~crc; while (n--) crc = T[(crc ^ *p++) & 255] ^ (crc >> 8); return ~crc;
}
bool Img::load(const std::string &path) {
  FILE *f = fopen(path.c_str(), "rb"); if (!f) return false;
  b.clear(); unsigned char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
  fclose(f); return true;
}
bool Img::save(const std::string &path) const {
  FILE *f = fopen(path.c_str(), "wb"); if (!f) return false;
  bool ok = fwrite(b.data(), 1, b.size(), f) == b.size(); fclose(f); return ok;
}
void Img::header_crc() { s32(328, fmt_crc(0, b.data(), HDR - 4)); }
bool Img::header_ok() const { return b.size() >= HDR && h32(0) == 0xcece3434u && h32(328) == fmt_crc(0, b.data(), HDR - 4); }
uint32_t Img::p32(size_t page, size_t off) const {
  const unsigned char *q = &b[page * (size_t)bsize() + off];
  return big() ? (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3] : (uint32_t)q[3] << 24 | q[2] << 16 | q[1] << 8 | q[0];
}
uint16_t Img::p16(size_t page, size_t off) const {
  const unsigned char *q = &b[page * (size_t)bsize() + off];
  return big() ? (uint16_t)(q[0] << 8 | q[1]) : (uint16_t)(q[1] << 8 | q[0]);
}
bool Img::page_used(size_t page) const { return page < npages() && p32(page, 12) == 0xe0f1a2b9u; }
static uint32_t pcrc(const unsigned char *q, size_t bs) { return fmt_crc(fmt_crc(0, q, 20), q + 24, bs - 24); }
bool Img::page_crc_ok(size_t page) const { return p32(page, 20) == pcrc(&b[page * (size_t)bsize()], bsize()); }
void Img::page_crc(size_t page) {
  unsigned char *q = &b[page * (size_t)bsize()]; uint32_t c = pcrc(q, bsize());
  for (int i = 0; i < 4; i++) q[20 + (big() ? 3 - i : i)] = (unsigned char)(c >> (8 * i));
}
void Img::swap_order() {
  size_t bs = bsize(), np = npages();
  std::vector<size_t> used;
  for (size_t p = 1; p < np; p++) if (page_used(p)) {
    used.push_back(p);
    std::vector<size_t> w;                     // offsets of 32 bit words to reverse
    for (size_t o : {0, 4, 8, 12, 20, 24}) w.push_back(o);
    uint16_t n = p16(p, 16), type = p16(p, 18);
    if (type == 0x1001) for (unsigned i = 0; i < n; i++) {
      size_t e = 28 + 12 * i; w.push_back(e); w.push_back(e + 4); w.push_back(e + 8);
      size_t d = p32(p, e + 8); for (int k = 0; k < 4; k++) w.push_back(d + 4 * k);
    } else if (type == 0x2001) {
      w.push_back(28); size_t o = p32(p, 28);
      for (unsigned i = 0; i < n; i++) { for (int k = 0; k < 5; k++) w.push_back(o + 4 * k); o = p32(p, o + 8); }
    } else if (type == 0x6001) { for (unsigned i = 0; i < n; i++) w.push_back(28 + 4 * i); }
    else if (type == 0x4001) { if (n) w.push_back(28); }
    else if (type == 0x5001) { for (unsigned i = 0; i < n; i++) for (int k = 0; k < 5; k++) w.push_back(28 + 148 * i + 4 * k); }
    unsigned char *q = &b[p * bs];
    for (size_t o : w) { std::swap(q[o], q[o + 3]); std::swap(q[o + 1], q[o + 2]); }
    std::swap(q[16], q[17]); std::swap(q[18], q[19]);
  }
  s32(8, big() ? 1234 : 4321);
  header_crc();
  for (size_t p : used) page_crc(p);
}
bool Img::to_version5() {
  size_t bs = bsize();
  s32(4, 5); header_crc();
  for (size_t p = 1; p < npages(); p++) if (page_used(p) && p16(p, 18) == 0x2001) {
    size_t o = p32(p, 28);
    for (unsigned i = 0, n = p16(p, 16); i < n; i++) {
      uint32_t st = p32(p, o + 4); if (st != 0x0000ffee) return false;
      uint32_t v = 0xffeeffee; for (int k = 0; k < 4; k++) b[p * bs + o + 4 + (big() ? 3 - k : k)] = (unsigned char)(v >> (8 * k));
      o = p32(p, o + 8);
    }
    page_crc(p);
  }
  return true;
}
#define BAD(...) do { char e_[200]; snprintf(e_, sizeof e_, __VA_ARGS__); err = e_; return false; } while (0)
bool Img::read(std::map<std::string, std::string> &out) {
  out.clear();
  if (!header_ok()) BAD("header");
  size_t bs = bsize();
  if (b.size() % bs) BAD("file size %zu is no multiple of the page size", b.size());
  uint32_t maxb = h32(24); bool v6 = version() > 5; uint32_t valid = v6 ? 0x0000ffee : 0xffeeffee;
  std::set<uint32_t> visited; std::map<uint32_t, std::set<uint32_t>> items;   // data page -> offsets of the data headers keys refer to
  for (uint32_t bk = 0; bk <= maxb; bk++) {
    int lv = 0; while ((1ull << lv) < (uint64_t)bk + 1) lv++;
    uint32_t pg = bk ? bk - (1u << (lv - 1)) + h32(72 + 4 * lv) : h32(72);
    bool first = true; uint32_t prev = 0xffffffffu;
    while (pg != 0xffffffffu) {
      if (pg >= npages() || !page_used(pg)) { if (first) break; BAD("bucket %u: overflow page %u is missing", bk, pg); }
      if (!page_crc_ok(pg)) BAD("page %u: checksum", pg);
      if (p32(pg, 0) != pg) BAD("page %u carries number %u", pg, p32(pg, 0));
      uint16_t type = p16(pg, 18);
      if (first && type == 0x8001) break;
      if (type != 0x1001) BAD("bucket %u: page %u has type %x", bk, pg, type);
      if (!visited.insert(pg).second) BAD("page %u is in two chains", pg);
      if (!first && p32(pg, 4) != prev) BAD("page %u: previous page %u, not %u", pg, p32(pg, 4), prev);
      first = false; prev = pg;
      for (unsigned i = 0, n = p16(pg, 16); i < n; i++) {
        uint32_t ko = p32(pg, 28 + 12 * i), kl = p32(pg, 32 + 12 * i), dof = p32(pg, 36 + 12 * i);
        if ((size_t)ko + kl > bs || dof + 16 > bs) BAD("page %u entry %u out of range", pg, i);
        std::string key((char *)&b[pg * bs + ko], kl);
        uint32_t dp = p32(pg, dof), off = p32(pg, dof + 4), len = p32(pg, dof + 8), crc = p32(pg, dof + 12);
        uint64_t rl = len; uint32_t o = off;
        if (v6) { rl |= (uint64_t)((off >> 20) & 255) << 32; o = off & 0xfffff; }
        std::string val; val.reserve(rl);
        size_t at = o + 20; bool fp = true;
        do {
          if (dp >= npages() || !page_used(dp) || p16(dp, 18) != 0x2001) BAD("key on page %u: data page %u is missing", pg, dp);
          if (!page_crc_ok(dp)) BAD("page %u: checksum", dp);
          if (fp) {
            if (o + 20 > bs) BAD("data header out of range");
            if (!items[dp].insert(o).second) BAD("two keys share the data at page %u offset %u", dp, o);
            if (p32(dp, o + 12) != pg || p32(dp, o + 16) != i) BAD("data at page %u offset %u refers to key %u on page %u, not %u on %u", dp, o, p32(dp, o + 16), p32(dp, o + 12), i, pg);
            uint32_t hl = p32(dp, o), st = p32(dp, o + 4);
            if (hl != len || (v6 ? (st & 0xfffff) : st) != valid) BAD("data header of key on page %u entry %u: len %u/%u status %x", pg, i, hl, len, st);
          }
          size_t n2 = std::min<uint64_t>(rl - val.size(), bs - at);
          val.append((char *)&b[dp * bs + at], n2);
          dp = p32(dp, 8); at = 32; fp = false;
        } while (val.size() < rl);
        if (fmt_crc(0, (const unsigned char *)val.data(), val.size()) != crc) BAD("data checksum of key on page %u entry %u", pg, i);
        if (!out.emplace(key, val).second) BAD("key stored twice");
        if (hash) {
          uint32_t hv = hash(key.data(), (unsigned)key.size()), want = hv & h32(28);
          if (want > maxb) want &= h32(32);
          if (want != bk) BAD("key on page %u entry %u lies in bucket %u, belongs in %u", pg, i, bk, want);
        }
      }
      pg = p32(pg, 8);
    }
  }
  for (auto &d : items) {   // every data page lists exactly the data the keys refer to
    size_t o = p32(d.first, 28), n = p16(d.first, 16);
    if (n != d.second.size()) BAD("data page %u counts %zu items, keys refer to %zu", d.first, n, d.second.size());
    for (size_t i = 0; i < n; i++) { if (!d.second.count((uint32_t)o) || o + 20 > bs) BAD("data page %u: item %zu at offset %zu belongs to no key", d.first, i, o); o = p32(d.first, o + 8); }
  }
  if (h32(40) != out.size()) BAD("header counts %u keys, the file holds %zu", h32(40), out.size());
  return true;
}
unsigned fmt_fnv(const void *p, unsigned n) {
  const unsigned char *k = (const unsigned char *)p; uint32_t h = 0;
  for (unsigned i = 0; i < n; i++) { h *= 16777619u; h ^= k[i]; }
  return h;
}
bool Img::configs(std::vector<std::string> &out) {
  out.clear(); uint16_t p0 = h16(56), np = h16(58); uint32_t num = h32(60); size_t bs = bsize();
  for (unsigned i = 0; i < np && out.size() < num; i++) {
    if (!page_used(p0 + i)) break;
    if (p16(p0 + i, 18) != 0x5001) BAD("configuration page %u", p0 + i);
    if (!page_crc_ok(p0 + i)) BAD("page %u: checksum", p0 + i);
    for (size_t e = 0; 28 + 148 * (e + 1) <= bs && out.size() < num; e++) {
      std::string r;
      for (int k = 0; k < 5; k++) { int32_t v = (int32_t)p32(p0 + i, 28 + 148 * e + 4 * k); r.append((char *)&v, 4); }
      r.append((char *)&b[(p0 + i) * bs + 28 + 148 * e + 20], 128);
      out.push_back(r);
    }
  }
  return true;
}
bool Img::userinfo(std::string &out) {
  out.clear(); uint16_t p0 = h16(52), n = h16(54); size_t bs = bsize();
  if (!page_used(p0)) return true;
  uint32_t len = p32(p0, 28);
  for (unsigned i = 0; i < n && out.size() < len; i++) {
    size_t st = i ? 28 : 32; size_t k = std::min<size_t>(len - out.size(), bs - st);
    if (!page_used(p0 + i) || p16(p0 + i, 18) != 0x4001) BAD("user information page");
    out.append((char *)&b[(p0 + i) * bs + st], k);
  }
  return true;
}
