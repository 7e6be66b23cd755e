// Key and data classes of a library user, and access to the typed stores.
#pragma once
#include "mc.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "DBString.h"
using namespace FILEDB;
// a key with its own hash and comparison: letters compare without case
class CIKey : public DBKey {
 public:
  std::string s;
  CIKey() {}
  CIKey(const std::string &x) : s(x) {}
  unsigned short serialID() const { return 7; }
  int hasHashFunc() const { return 1; }
  int hasCompareFunc() const { return 1; }
  operator std::string() const { return s; }
  int operator==(const CIKey &o) const { return s == o.s; }
  void writeObject(std::string &o) const { o = "CI" + s; }
  void readObject(const std::string &i) { if (i.compare(0, 2, "CI")) throw SerializeException("CIKey", "bad"); s = i.substr(2); }
  static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  static unsigned hash(const void *p, unsigned n) { const unsigned char *c = (const unsigned char *)p; unsigned h = 17; for (unsigned i = 0; i < n; i++) h = h * 33 + low(c[i]); return h; }
  static int compare(const FFDB_DBT *a, const FFDB_DBT *b) {
    long n = a->size < b->size ? a->size : b->size; const unsigned char *x = (const unsigned char *)a->data, *y = (const unsigned char *)b->data;
    for (long i = 0; i < n; i++) if (low(x[i]) != low(y[i])) return low(x[i]) - low(y[i]);
    return a->size < b->size ? -1 : a->size > b->size;
  }
};
// data of a fixed size: raw bytes, no header; refuses what does not start with its mark
class Blob : public DBData {
 public:
  std::string s;
  Blob() {}
  Blob(const std::string &x) : s(x) {}
  unsigned short serialID() const { return 9; }
  operator std::string() const { return s; }
  void writeObject(std::string &o) const { o = "B" + s; }
  void readObject(const std::string &i) { if (i.empty() || i[0] != 'B') throw SerializeException("Blob", "bad"); s = i.substr(1); }
};
template <class T> std::string bin(const T &t) { std::string o; t.writeObject(o); return o; }
template <class T> std::string str(const T &t) { T c(t); return std::string(c); }
static inline std::string pat(unsigned a, unsigned b, size_t n) { std::string s(n, 0); unsigned x = a * 2654435761u + b * 40503u + 77; for (auto &c : s) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } return s; }
// data that always serialises to 12 bytes and decodes from any 12 bytes
class Fixed : public DBData {
 public:
  std::string s;
  Fixed() : s(12, 'd') {}
  Fixed(const std::string &x) : s(x) { s.resize(12, 'p'); }
  unsigned short serialID() const { return 10; }
  operator std::string() const { return s; }
  void writeObject(std::string &o) const { o = s; }
  void readObject(const std::string &i) { if (i.size() != 12) throw SerializeException("Fixed", "bad"); s = i; }
};
// data without any framing: any bytes, including none
class Raw : public DBData {
 public:
  std::string s;
  Raw() {}
  Raw(const std::string &x) : s(x) {}
  unsigned short serialID() const { return 11; }
  operator std::string() const { return s; }
  void writeObject(std::string &o) const { o = s; }
  void readObject(const std::string &i) { if (i == "??") throw SerializeException("Raw", "bad"); s = i; }
};
