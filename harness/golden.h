// Contents of the committed reference files (harness/golden/g<N>.db), written by the library as first released to us.
#pragma once
#include "kv.h"
struct Golden { const char *file; unsigned bsize, nb; int hash, rearr; unsigned nkeys, uil, nc; };
static const Golden GOLD[] = {
  {"g0.db", 512, 4, H_DEFAULT, 0, 40, 64, 1},
  {"g1.db", 512, 4, H_DEFAULT, 1, 40, 64, 5},
  {"g2.db", 1024, 2, H_ID, 0, 70, 3000, 9},
  {"g3.db", 4096, 32, H_DEFAULT, 1, 120, 100, 40},
  {"g4.db", 512, 8, H_CONST, 0, 12, 64, 2},
  {"g5.db", 8192, 1, H_DEFAULT, 0, 9, 10, 1},
  {"g6.db", 512, 16, H_DEFAULT, 0, 0, 64, 1},
};
enum { NGOLD = sizeof GOLD / sizeof *GOLD };
static inline std::string gold_key(unsigned g, unsigned j) { return mkkey(j * 3 + g, 4 + (j * 37 + g * 11) % 120); }
static inline std::string gold_val(unsigned g, unsigned j) { static const unsigned SZ[] = {0, 1, 7, 100, 460, 900, 33, 2500}; return mkval(j, g, SZ[(j + g) % 8] + j); }
static inline std::string gold_info(unsigned g) { return mkval(77, g, GOLD[g].uil * 2 / 3); }
static inline ffdb_config_info_t gold_cfg(unsigned g, unsigned i) {
  ffdb_config_info_t c; memset(&c, 0, sizeof c); c.config = i * 10 + g; c.index = i; c.inserted = i & 1; c.type = 0x1000 + i; c.mtime = 1234567 + (int)i;
  snprintf(c.fname, sizeof c.fname, "/data/file_%u_%u.db", g, i); return c;
}
static inline Cfg gold_conf(unsigned g) { Cfg c; c.bsize = GOLD[g].bsize; c.nb = GOLD[g].nb; c.hash = GOLD[g].hash; c.rearr = GOLD[g].rearr; c.uil = GOLD[g].uil; c.nc = GOLD[g].nc; c.cachepages = 400; return c; }
