// writes harness/golden/*.db; was run once against the library of the base commit (see DESIGN.md)
#include "golden.h"
#include "fmt.h"
int main(int, char **v) {
  std::string dir = v[1];
  for (unsigned g = 0; g < NGOLD; g++) {
    Ctx c; c.dir = dir; KV k(c, gold_conf(g), GOLD[g].file);
    if (!k.create()) return 1;
    for (unsigned j = 0; j < GOLD[g].nkeys; j++) if (!k.put(gold_key(g, j), gold_val(g, j))) return 2;
    if (!k.setuinfo(gold_info(g))) return 3;
    std::vector<ffdb_config_info_t> cf; for (unsigned i = 0; i < GOLD[g].nc; i++) cf.push_back(gold_cfg(g, i));
    ffdb_all_config_info_t a; a.numconfigs = (int)cf.size(); a.allconfigs = cf.data();
    if (ffdb_set_all_configs(k.db, &a) != 0) return 4;
    if (!k.close()) return 5;
    Img im; std::map<std::string, std::string> m; std::string u; std::vector<std::string> r;
    if (!im.load(k.path)) return 6;
    im.hash = GOLD[g].hash == H_DEFAULT ? fmt_fnv : GOLD[g].hash == H_ID ? kv_hash_id : kv_hash_const;
    if (!im.read(m) || m != k.m) { printf("g%u: %s (%zu of %zu)\n", g, im.err.c_str(), m.size(), k.m.size()); continue; }
    if (!im.userinfo(u) || u != gold_info(g)) printf("g%u: info %s\n", g, im.err.c_str());
    if (!im.configs(r) || r.size() != GOLD[g].nc) printf("g%u: configs %s\n", g, im.err.c_str());
    for (unsigned i = 0; i < r.size(); i++) if (memcmp(r[i].data(), &cf[i], 148)) printf("g%u: config %u\n", g, i);
    printf("g%u ok %zu keys %zu bytes\n", g, m.size(), im.b.size());
  }
}
int mc_unused;
