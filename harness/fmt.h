// Independent model of the on-disk format (written from the format description in ffdb_page.h/ffdb_hash.h,
// sharing no code with the library): reader, byte-order converter, version converter.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
struct Img {
  std::vector<unsigned char> b;
  std::string err;
  bool load(const std::string &path);
  bool save(const std::string &path) const;
  // header is always big endian on disk
  uint32_t h32(size_t off) const { return (uint32_t)b[off] << 24 | b[off + 1] << 16 | b[off + 2] << 8 | b[off + 3]; }
  void s32(size_t off, uint32_t v) { b[off] = v >> 24; b[off + 1] = v >> 16; b[off + 2] = v >> 8; b[off + 3] = v; }
  uint16_t h16(size_t off) const { return (uint16_t)(b[off] << 8 | b[off + 1]); }
  uint32_t bsize() const { return h32(12); }
  bool big() const { return h32(8) == 4321; }
  uint32_t version() const { return h32(4); }
  void header_crc();
  bool header_ok() const;
  size_t npages() const { return bsize() ? b.size() / bsize() : 0; }
  // page fields in the file's byte order
  uint32_t p32(size_t page, size_t off) const;
  uint16_t p16(size_t page, size_t off) const;
  bool page_used(size_t page) const;
  bool page_crc_ok(size_t page) const;
  void page_crc(size_t page);
  void swap_order();          // rewrite every page in the other byte order
  bool to_version5();
  // full content as the format defines it; false + err if the file breaks the format
  bool read(std::map<std::string, std::string> &out);
  bool userinfo(std::string &out);
  // raw configuration records (5 integers as native values, then the 128 byte name), one string each
  bool configs(std::vector<std::string> &out);
  // hash used to check where keys lie; 0 = do not check
  unsigned (*hash)(const void *, unsigned) = 0;
};
unsigned fmt_fnv(const void *, unsigned);
uint32_t fmt_crc(uint32_t crc, const unsigned char *p, size_t n);
