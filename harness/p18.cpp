// P18: stores over several databases answer as their union, the first database that holds a key deciding.
#include "typed.h"
#include "ConfDataStoreMultipleDB.h"
#include "AllConfStoreMultipleDB.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const unsigned NC = 14;
// contents of member database x: 4 keys present or not by bits, values by (database, key)
struct Mem { unsigned mask; bool badk2; };   // badk2: the value of key 2 cannot be decoded
static std::string key(int k) { return k == 3 ? std::string("nul\0key", 7) : "key " + std::to_string(k); }
static std::string val(int d, int k) { return pat(d + 1, k, k == 0 ? 3 : k == 1 ? 900 : 40); }
static std::string user(int d) { return d == 2 ? "" : "user data of " + std::to_string(d); }
static std::string fn(Ctx &c, int slot, unsigned content) { return c.dir + "/m" + std::to_string(slot) + "_" + std::to_string(content) + ".db"; }
static bool conf(Ctx &c, int slot, unsigned content, bool all, int nb) {
  if (!all) { ConfDataStoreDB<StringKey, UserData> s; s.setPageSize(512); s.setNumberBuckets(2); s.setMaxUserInfoLen(50); s.setMaxNumberConfigs(nb); if (s.open(fn(c, slot, content), O_RDWR | O_CREAT | O_TRUNC, 0664)) { c.f("make", "open"); return false; }
    for (int k = 0; k < 4; k++) if (content >> k & 1) { int rc = (k == 2 && content >= 16) ? s.insertBinary(bin(StringKey(key(k))), "??") : s.insert(StringKey(key(k)), UserData(val(slot, k))); if (rc) { c.f("make", "insert"); return false; } }
    if (s.insertUserdata(user(slot)) || s.close()) { c.f("make", "close"); return false; } return true; }
  std::vector<int> cf; for (int i = 0; i < nb; i++) cf.push_back(i * 2);
  AllConfStoreDB<StringKey, UserData> s(cf); s.setPageSize(512); s.setNumberBuckets(2); s.setMaxUserInfoLen(50); if (s.open(fn(c, slot, content), O_RDWR | O_CREAT | O_TRUNC, 0664)) { c.f("make", "open"); return false; }
  for (int k = 0; k < 4; k++) if (content >> k & 1) { std::vector<UserData> v; std::vector<std::string> b; for (int i = 0; i < nb; i++) { v.push_back(UserData(pat(slot * 8 + i, k, 20))); b.push_back(bin(v.back())); }
    if (k == 2 && content >= 16) b[nb - 1][0] ^= 1;
    if (s.insertBinaryData(bin(StringKey(key(k))), b)) { c.f("make", "insert"); return false; } }
  if (s.insertUserdata(user(slot)) || s.close()) { c.f("make", "close"); return false; } return true;
}
static bool missing(unsigned content) { return content == 32; }
template <bool ALL> static bool session(Ctx &c, const std::vector<unsigned> &ct, unsigned cache, bool reopen) {
  typedef typename std::conditional<ALL, AllConfStoreMultipleDB<StringKey, UserData>, ConfDataStoreMultipleDB<StringKey, UserData>>::type S;
  std::vector<std::string> files; bool exist = true, opens = true; std::vector<int> nb;
  for (size_t d = 0; d < ct.size(); d++) { nb.push_back(2 + d % 2); files.push_back(fn(c, d, ct[d])); if (missing(ct[d])) exist = opens = false; else { if (access(files[d].c_str(), 0)) if (!conf(c, d, ct[d], ALL, nb[d])) return false; if (ALL && (ct[d] & 15) == 0) opens = false; } }
  S s; c.transitions++;
  if (cache == 1) s.setCacheSize(1024); if (cache == 2) s.setCacheSize(1 << 20);
  if (!ct.empty() && s.fileExists(files) != exist) { c.f("fileExists", "fileExists before open is %d", !exist); return false; }
  UserData d0; std::vector<UserData> v0; std::string u0 = "keep"; if (s.exist(StringKey(key(0))) || s.getUserdata(u0) == 0 || u0 != "keep" || s.getMaxNumberConfigs() != 0) { c.f("closed", "content before open"); return false; }
  for (int round = 0; round < (reopen ? 2 : 1); round++) {
    int rc = s.open(files); c.t("open %zu files = %d", files.size(), rc); c.transitions++;
    if ((rc == 0) != opens) { c.f("open", "open returned %d, expected %s", rc, opens ? "success" : "failure"); return false; }
    if (!opens) { if (s.close() != 0) { c.f("close", "close after a failed open"); return false; } continue; }
    if (!ct.empty() && !s.fileExists(files)) { c.f("fileExists", "fileExists after open is false"); return false; }
    for (int k = 0; k < 5; k++) {
      int first = -1, good = -1; for (size_t d = 0; d < ct.size(); d++) if (k < 4 && (ct[d] >> k & 1)) { if (first < 0) first = d; if (good < 0 && !(k == 2 && ct[d] >= 16)) good = d; }
      StringKey ko(key(k)); c.transitions++;
      if (s.exist(ko) != (first >= 0)) { c.f("exist", "exist(key %d) is %d", k, first < 0); return false; }
      if constexpr (!ALL) {
        UserData d("keep"); rc = s.get(ko, d); std::string x = d, exp = good < 0 ? "keep" : val(good, k); if ((rc == 0) != (good >= 0) || x != exp) { c.f("get", "get(key %d) returned %d and %zu bytes, expected those of database %d", k, rc, x.size(), good); return false; }
        std::string b = "keep"; rc = s.getBinary(bin(ko), b); exp = first < 0 ? "keep" : (k == 2 && ct[first] >= 16) ? "??" : bin(UserData(val(first, k))); if ((rc == 0) != (first >= 0) || b != exp) { c.f("getBinary", "getBinary(key %d) returned %d and %zu bytes, expected those of database %d", k, rc, b.size(), first); return false; }
      } else {
        std::vector<UserData> v(1, UserData("keep")); rc = s.get(ko, v); bool ok = (rc == 0) == (good >= 0) && v.size() == 1 + (good < 0 ? 0 : nb[good]); for (int i = 0; ok && good >= 0 && i < nb[good]; i++) ok = (std::string)v[i + 1] == pat(good * 8 + i, k, 20);
        if (!ok) { c.f("get", "get(key %d) returned %d and %zu elements, expected the ensemble of database %d", k, rc, v.size() - 1, good); return false; }
      }
    }
    if constexpr (!ALL) { std::vector<StringKey> ks; s.keys(ks); std::multiset<std::string> g, e; for (auto &x : ks) g.insert((std::string)x); for (size_t d = 0; d < ct.size(); d++) for (int k = 0; k < 4; k++) if (ct[d] >> k & 1) e.insert(key(k)); if (g != e) { c.f("keys", "keys gave %zu keys, not %zu", g.size(), e.size()); return false; } }
    else if (!ct.empty() && s.size() != nb[0]) { c.f("size", "size is %d, not %d", s.size(), nb[0]); return false; }
    std::string u = "keep"; rc = s.getUserdata(u); if (ct.empty() ? rc == 0 : rc != 0 || u != user(0)) { c.f("userdata", "user data of the first database came back as '%s' (%d)", u.c_str(), rc); return false; }
    if (!ct.empty() && s.getMaxNumberConfigs() != (unsigned)nb[0]) { c.f("configs", "maximum number of configurations %u", s.getMaxNumberConfigs()); return false; }
    if (s.close() != 0) { c.f("close", "close failed"); return false; }
    if (s.exist(StringKey(key(0))) || s.exist(StringKey(key(1)))) { c.f("closed", "a key exists after close"); return false; }
  }
  uint64_t h = ALL; for (auto x : ct) h = mix(h, x); c.states.push_back(h); c.nontrivial = opens && !ct.empty(); c.outcome = mix(opens, exist);
  return true;
}
static const unsigned CT[] = {0, 1, 2, 4, 8, 3, 12, 15, 5, 10, 32, 20, 31, 6};   // 16: key 2 undecodable; 32: missing file
template <bool ALL> static void family(Suite &su, const char *name, unsigned N, bool T) {
  Family f; f.name = name + std::to_string(N); f.count = 1; for (unsigned i = 0; i < N; i++) f.count *= NC; f.count *= T ? 6 : 3;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); std::vector<unsigned> ct; for (unsigned d = 0; d < N; d++) ct.push_back(CT[r.take(NC)]); unsigned cache = r.take(3); bool re = T ? r.take(2) : (i & 1);
    if (c.want_trace) c.trace.reserve(1 << 20);
    c.states.reserve(8);
    static bool warm = false; if (!warm) { session<ALL>(c, ct, cache, re); if (c.failed()) return; warm = true; }
    for (size_t d = 0; d < ct.size(); d++) if (!missing(ct[d]) && access(fn(c, d, ct[d]).c_str(), 0)) if (!conf(c, d, ct[d], ALL, 2 + d % 2)) return;
    c.states.clear(); size_t b0 = __sanitizer_get_current_allocated_bytes();
    if (!session<ALL>(c, ct, cache, re)) return;
    c.states.clear(); size_t b1 = __sanitizer_get_current_allocated_bytes(); if (b1 > b0) { c.f("leak", "%zu bytes not given back", b1 - b0); return; }
    uint64_t h = ALL; for (auto x : ct) h = mix(h, x); c.states.push_back(h);
  };
  su.fams.push_back(f);
}
// more databases than three: every tuple of a small set of contents, and every place of the one that holds the key
template <bool ALL> static void more(Suite &su, const char *name, unsigned N) {
  static const unsigned C4[] = {1, 4, 20, 15};
  Family f; f.name = name + std::to_string(N); f.count = 1;
  if (N <= 6) for (unsigned i = 0; i < N; i++) f.count *= 4; else f.count = N * 4;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); std::vector<unsigned> ct; unsigned cache = i % 3; bool re = i & 1;
    if (N <= 6) for (unsigned d = 0; d < N; d++) ct.push_back(C4[r.take(4)]);
    else { unsigned p = r.take(N), q = r.take(4); ct.assign(N, 1); ct[p] = q == 0 ? 4 : q == 1 ? 15 : q == 2 ? 12 : 20; if (q == 3 && p + 1 < N) ct[N - 1] = 4; }
    session<ALL>(c, ct, cache, re);
  };
  su.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P18", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    for (unsigned n = 0; n <= (T ? 4u : 3u); n++) family<false>(s, "several-stores-", n, T);
    for (unsigned n = 0; n <= (T ? 4u : 3u); n++) family<true>(s, "several-ensembles-", n, T);
    for (unsigned n : {4u, 5u, 6u, 9u, 17u, 40u}) { if (n == 6 && !T) continue; more<false>(s, "more-stores-", n); more<true>(s, "more-ensembles-", n); }
  });
}
