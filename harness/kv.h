// Reference model + interpreter for the C hash database API.
#pragma once
#include "mc.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <cerrno>
extern "C" {
#include "ffdb_db.h"
}

enum HashKind { H_DEFAULT = 0, H_CONST = 1, H_ID = 2, H_HI = 3, H_BAD = 4 };
unsigned int kv_hash_const(const void *, unsigned int);
unsigned int kv_hash_id(const void *, unsigned int);
unsigned int kv_hash_hi(const void *, unsigned int);

struct Cfg {
  unsigned bsize = 512, nb = 1;
  long cachepages = 64;    // pages; cache bytes = cachepages*bsize
  int rearr = 0;
  int hash = H_DEFAULT;
  unsigned uil = 64, nc = 1;
  std::string str() const;
};

// exact-size heap buffer: any over-read of what the caller passed is seen by the address sanitizer
struct Buf {
  char *p; size_t n;
  Buf(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Buf() { free(p); }
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
};

std::string mkval(unsigned kid, unsigned ver, size_t n);
std::string mkkey(unsigned kid, size_t n);   // n>=4 distinct ids give distinct keys

struct KV {
  Ctx &c;
  Cfg cfg;
  std::string path;
  FFDB_DB *db = 0;
  std::map<std::string, std::string> m;   // reference model
  int oflags = 0;
  std::string uinfo; bool uset = false;
  KV(Ctx &c_, const Cfg &g, const char *name = "t.db") : c(c_), cfg(g), path(c_.dir + "/" + name) {}
  ~KV() {}
  FFDB_HASHINFO info() const;
  bool open(int flags);                    // fails the case if refused
  FFDB_DB *rawopen(int flags);
  bool create() { return open(O_RDWR | O_CREAT | O_TRUNC); }
  bool close();
  bool reopen(int flags = O_RDWR) { return close() && open(flags); }
  bool sync();
  size_t maxkey() const { return cfg.bsize - 28 - 12 - 16; }
  // perform the operation on implementation and model; compare results
  bool put(const std::string &k, const std::string &v, bool nooverwrite = false);
  bool putflag(const std::string &k, const std::string &v, unsigned flag, int &rc);
  bool get(const std::string &k);                         // library-allocated
  bool getbuf(const std::string &k, long bufsize);        // caller buffer
  bool checkall();                         // every key of the model has its value
  bool absent(const std::string &k);
  bool scan(int mode = 0);                 // cursor: 0 FIRST/NEXT, 1 NEXT only, 2 LAST/PREV, 3 PREV only, 4 NEXT with gets interleaved, 5 key only
  bool setuinfo(const std::string &u);
  bool checkuinfo();
  void state();                            // record the abstract state
};
// Reads the whole DB at path with cursor + get and returns contents, rc!=0 on any reported error
