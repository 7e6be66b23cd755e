// P19: merging per-configuration databases gives the ensemble database of exactly their data.
#include "typed.h"
#include <sys/wait.h>
#include "ConfDataDBMerger.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef ConfDataDBMerger<StringKey, UserData> M; typedef AllConfStoreDB<StringKey, UserData> A;
static std::string key(unsigned k) { return k == 1 ? std::string("nul\0key", 7) : "correlator " + std::to_string(k); }
static std::string val(unsigned c, unsigned k, size_t es) { return pat(c + 1, k, es); }
static std::string fn(Ctx &c, unsigned cf, unsigned nk, size_t es) { return c.dir + "/c" + std::to_string(cf) + "_" + std::to_string(nk) + "_" + std::to_string(es); }
static bool make(Ctx &c, const std::string &p, unsigned cf, unsigned nk, size_t es, int skip = -1, int odd = -1, int extra = 0) {
  if (!access(p.c_str(), 0) && skip < 0 && odd < 0 && !extra) return true;
  ConfDataStoreDB<StringKey, UserData> s; s.setPageSize(512); s.setNumberBuckets(cf % 2 ? 1 : 8); if (s.open(p, O_RDWR | O_CREAT | O_TRUNC, 0664)) { c.f("make", "open"); return false; }
  for (unsigned j = 0; j < nk + extra; j++) { unsigned k = cf % 2 && j < nk ? nk - 1 - j : j; if ((int)k == skip) continue; if (s.insert(StringKey(key(k)), UserData(val(cf, k, (int)k == odd ? es + 1 : es)))) { c.f("make", "insert"); return false; } }
  if (s.close()) { c.f("make", "close"); return false; } return true;
}
struct Plan { unsigned nc, named, nk; size_t es; unsigned mem; unsigned how; };
static int domerge(Ctx &c, const Plan &p, const std::string &out, const std::vector<std::string> &names, A *&a) {
  std::vector<int> cf; for (unsigned i = 0; i < p.nc; i++) cf.push_back(500 + 3 * (int)i);
  a = p.how & 1 ? new A(cf) : new A(cf, names); a->setPageSize(p.how & 2 ? 512 : 4096); a->setNumberBuckets(p.how & 2 ? 1 : 16); a->enablePageMove();
  if (a->open(out, O_RDWR | O_CREAT | O_TRUNC, 0664)) { c.f("open", "the combined database does not open"); return -1; }
  if (p.how & 4) { std::vector<ConfigInfo> v; for (unsigned i = 0; i < p.nc; i++) { ConfigInfo x; x.configNumber(cf[i]); x.index(i); x.type(0); if (names[i] != "N/A") x.urlname(names[i]); v.push_back(x); }
    M m(v, p.mem); m.setDatabaseHandle(a); m.merge(); }
  else { M m(cf, names, p.mem); m.setDatabaseHandle(a); m.merge(); }
  return 0;
}
static bool run(Ctx &c, const Plan &p) {
  std::vector<std::string> names; for (unsigned i = 0; i < p.nc; i++) { if (p.named >> i & 1) { names.push_back(fn(c, i, p.nk, p.es)); if (!make(c, names[i], i, p.nk, p.es)) return false; } else names.push_back("N/A"); }
  std::string out = c.dir + "/merged"; unlink(out.c_str()); A *a = 0; c.t("%u configurations, named %x, %u keys of %zu bytes, memory %u, variant %u", p.nc, p.named, p.nk, p.es, p.mem, p.how);
  int before = (int)time(0);
  if (domerge(c, p, out, names, a)) return false; c.transitions += p.nc * p.nk + 1;
  auto check = [&](A &s, bool typed) {
    std::vector<std::string> ks; std::vector<std::string> vs; s.binaryKeysAndData(ks, vs); if (ks.size() != p.nk) { c.f("keys", "the combined database has %zu keys, not %u", ks.size(), p.nk); return false; }
    for (unsigned k = 0; k < p.nk; k++) { std::vector<std::string> v; if (s.getBinaryData(bin(StringKey(key(k))), v) || v.size() != p.nc) { c.f("key", "key %u has %zu elements of %u", k, v.size(), p.nc); return false; }
      for (unsigned i = 0; i < p.nc; i++) { std::string e = p.named >> i & 1 ? bin(UserData(val(i, k, p.es))) : typed ? bin(UserData(val(70, k, p.es))) : v[i]; if (v[i] != e || v[i].size() != p.es + 4) { c.f("value", "key %u, configuration %u: not the data of its database", k, i); return false; } }
      if (typed || p.named == (1u << p.nc) - 1) { std::vector<UserData> d; if (s.get(StringKey(key(k)), d) || d.size() != p.nc) { c.f("get", "typed read of key %u failed", k); return false; } for (unsigned i = 0; i < p.nc; i++) if ((std::string)d[i] != val(p.named >> i & 1 ? i : 70, k, p.es)) { c.f("get", "typed read of key %u differs", k); return false; } } }
    std::vector<ConfigInfo> ci; if (s.getAllConfigInfo(ci) || ci.size() != p.nc) { c.f("configs", "%zu configuration records", ci.size()); return false; }
    for (unsigned i = 0; i < p.nc; i++) { bool n = p.named >> i & 1; if (ci[i].configNumber() != 500 + 3 * (int)i || ci[i].index() != (int)i || ci[i].inserted() != n || ci[i].urlname() != (n ? names[i].substr(0, 127) : "") || (n && (ci[i].modifiedTime() < before || ci[i].modifiedTime() > time(0)))) { c.f("configs", "configuration record %u is wrong (inserted %d)", i, ci[i].inserted()); return false; } }
    return true; };
  bool ok = check(*a, false);
  if (ok && p.named != (1u << p.nc) - 1) { // the missing configurations arrive later
    a->updateDone(); for (unsigned i = 0; i < p.nc && ok; i++) if (!(p.named >> i & 1)) for (unsigned k = 0; k < p.nk; k++) if (a->update(StringKey(key(k)), UserData(val(70, k, p.es)), 500 + 3 * i, i)) { c.f("update", "an unfinished configuration cannot be filled"); ok = false; break; }
    if (ok) ok = check(*a, true); }
  if (ok && a->close()) { c.f("close", "close failed"); ok = false; }
  delete a; if (!ok) return false;
  A r; if (r.open(out, O_RDONLY, 0)) { c.f("reopen", "the combined database does not reopen"); return false; }
  if (!check(r, true) ) return false;
  uint64_t h = p.nc; h = mix(h, p.named); h = mix(h, p.nk * 1000 + p.es); h = mix(h, mix(p.mem, p.how)); c.states.push_back(h); c.nontrivial = true; c.outcome = mix(p.nc, p.named);
  return true;
}
int main(int a, char **v) {
  return mc_main(a, v, "P19", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    static const unsigned NK[] = {1, 2, 7, 40, 150}; static const size_t ES[] = {0, 5, 60, 700}; static const unsigned MEM[] = {0, 1, 100, 150, 300, 1000, 5000, 1u << 20, 0xffffffffu};
    std::vector<std::pair<unsigned, unsigned>> shapes; for (unsigned n = 1; n <= (T ? 5u : 4u); n++) for (unsigned m = 1; m < 1u << n; m++) shapes.push_back({n, m});
    Family f; f.name = "merge"; f.count = shapes.size() * (T ? 5 : 4) * 4 * 9 * (T ? 8 : 2);
    f.run = [=](uint64_t i, Ctx &c) {
      Radix r(i); auto sh = shapes[r.take(shapes.size())]; unsigned nk = NK[r.take(T ? 5 : 4)]; size_t es = ES[r.take(4)]; unsigned mem = MEM[r.take(9)]; unsigned how = T ? r.take(8) : (r.take(2) ? 5 + (i % 2) : (i % 2) * 2);
      if (how & 1) how |= 0; Plan p{sh.first, sh.second, nk, es, mem, how};
      if (c.want_trace) c.trace.reserve(1 << 20); c.states.reserve(8);
      static bool warm = false; if (!warm) { if (!run(c, p)) return; warm = true; c.states.clear(); }
      for (unsigned k = 0; k < p.nc; k++) if (p.named >> k & 1) if (!make(c, fn(c, k, p.nk, p.es), k, p.nk, p.es)) return;
      size_t b0 = __sanitizer_get_current_allocated_bytes(); if (!run(c, p)) return; c.states.clear(); size_t b1 = __sanitizer_get_current_allocated_bytes();
      if (b1 > b0) { c.f("leak", "%zu bytes not given back", b1 - b0); return; }
      c.states.push_back(mix(mix(p.nc, p.named), mix(p.nk * 1000 + p.es, mix(p.mem, p.how))));
    };
    s.fams.push_back(f);
    // databases that do not fit together end the merge loudly
    Family g; g.name = "misfit"; g.count = 3 * 3 * 7 * 4;
    g.run = [](uint64_t i, Ctx &c) {
      Radix r(i); unsigned nc = 2 + r.take(3), at = r.take(3) % nc, kind = r.take(7); unsigned mem = (const unsigned[]){0, 200, 1000, 1u << 20}[r.take(4)];
      std::vector<std::string> names; Plan p{nc, (1u << nc) - 1, 7, 20, mem, 0}; bool loud = true;
      for (unsigned k = 0; k < nc; k++) { std::string n = c.dir + "/x" + std::to_string(k); bool h = k == at; unlink(n.c_str());
        if (kind == 6) { names.push_back("N/A"); continue; }
        if (h && kind == 0) { names.push_back(n); continue; }                       // missing file
        if (h && kind == 5) { FILE *f = fopen(n.c_str(), "w"); fputs("not a database", f); fclose(f); names.push_back(n); continue; }
        if (!make(c, n, k, h && kind == 4 ? 0 : 7, 20, h && kind == 1 ? 3 : -1, h && kind == 2 ? 3 : -1, h && kind == 3 ? 2 : 0)) return; names.push_back(n); }
      // a key missing in the first database only is not merged; additional keys of later databases are not looked at
      if (kind == 1 && at == 0) loud = false; if (kind == 3 && at != 0) loud = false;
      c.t("misfit %u at configuration %u of %u", kind, at, nc);
      std::string out = c.dir + "/merged"; unlink(out.c_str()); fflush(0); c.transitions++;
      pid_t pid = fork(); if (pid == 0) { A *x = 0; int rc = domerge(c, p, out, names, x); if (rc == 0) rc = x->close(); _exit(rc ? 3 : 77); }
      int st; waitpid(pid, &st, 0); bool done = WIFEXITED(st) && WEXITSTATUS(st) == 77;
      if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) { c.f("crash", "merge crashed with signal %d", WTERMSIG(st)); return; }
      if (done == loud) { c.f(loud ? "silent" : "refused", loud ? "databases that do not fit together were merged silently" : "the merge failed"); return; }
      c.nontrivial = true; c.outcome = kind; c.states.push_back(i);
    };
    s.fams.push_back(g);
  });
}
