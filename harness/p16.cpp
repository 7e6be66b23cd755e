// P16: the typed stores (ConfDataStoreDB, ConfDataStoreDBSimple) are maps from key objects to data objects.
#include "typed.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
template <class K> std::string canon(const std::string &b) { return b; }
template <> std::string canon<CIKey>(const std::string &b) { std::string r(b); for (auto &c : r) c = (char)CIKey::low((unsigned char)c); return r; }
template <class K_, class D_> struct Full : ConfDataStoreDB<K_, D_> {
  typedef K_ K; typedef D_ D; enum { simple = 0 };
  bool binaries(std::vector<std::string> &k, std::vector<std::string> &v) { this->binaryKeysAndData(k, v); return true; }
  bool binkeys(std::vector<std::string> &k) { this->binaryKeys(k); return true; }
  bool strpairs(std::vector<std::string> &k, std::vector<D> &v) { this->stringKeysAndData(k, v); return true; }
  bool some(std::vector<K> &k, std::vector<D> &v) { this->template someKeyAndData<K, D>(k, v); return true; }
  int getbin(const std::string &k, std::string &v) { return this->getBinary(k, v); }
  int putbin(const std::string &k, const std::string &v) { return this->insertBinary(k, v); }
  int putstr(const std::string &k, const D &v) { return this->insertWithStringKey(k, v); }
  void allkeys(std::vector<K> &k) { this->keys(k); }
  void pairs(std::vector<K> &k, std::vector<D> &v) { this->keysAndData(k, v); }
};
template <class K_, class D_> struct Simple : ConfDataStoreDBSimple {
  typedef K_ K; typedef D_ D; enum { simple = 1 };
  int insert(const K &k, const D &d) { return ConfDataStoreDBSimple::insert<K, D>(k, d); }
  int get(const K &k, D &d) { return ConfDataStoreDBSimple::get<K, D>(k, d); }
  bool exist(const K &k) { return ConfDataStoreDBSimple::exist<K>(k); }
  bool binaries(std::vector<std::string> &, std::vector<std::string> &) { return false; }
  bool binkeys(std::vector<std::string> &) { return false; }
  bool strpairs(std::vector<std::string> &, std::vector<D> &) { return false; }
  bool some(std::vector<K> &, std::vector<D> &) { return false; }
  int getbin(const std::string &, std::string &) { return -2; }
  int putbin(const std::string &k, const std::string &v) { return insertBinaryData(db->dbh_, k, v); }
  int putstr(const std::string &k, const D &v) { return insertData<D>(db->dbh_, k, v); }
  void allkeys(std::vector<K> &k) { keys<K, D>(k); }
  void pairs(std::vector<K> &k, std::vector<D> &v) { keysAndData<K, D>(k, v); }
};
struct Opt { unsigned page, nb; int move; unsigned cache; };
static const Opt OPT[] = {{512, 1, 0, 0}, {512, 4, 1, 4096}, {8192, 32, 0, 1 << 20}, {1024, 2, 1, 1 << 20}};
template <class S> struct Run {
  typedef typename S::K K; typedef typename S::D D;
  Ctx &c; S s; Opt o; std::string path; bool opened = false, ro = false; unsigned uil = 40;
  std::map<std::string, std::pair<std::string, std::string>> m;   // canonical key -> (key bytes as first stored, data bytes)
  std::string udata; bool hasu = false; unsigned badk = 0, badd = 0;
  Run(Ctx &c_, const Opt &o_) : c(c_), o(o_), path(c_.dir + "/s.db") {}
  void options(S &x) { x.setPageSize(o.page); x.setNumberBuckets(o.nb); if (o.move) x.enablePageMove(); else x.disablePageMove(); if (o.cache) x.setCacheSize(o.cache); x.setMaxUserInfoLen(uil); x.setMaxNumberConfigs(3); }
  bool open(int fl) {
    c.transitions++; c.t("open %s", fl == O_RDONLY ? "read-only" : fl & O_TRUNC ? "create" : "read-write");
    if (s.open(path, fl, 0664) != 0) { c.f("open", "open failed"); return false; }
    opened = true; ro = fl == O_RDONLY;
    if (s.storageName() != path) { c.f("name", "storageName is '%s'", s.storageName().c_str()); return false; }
    if (s.getMaxUserInfoLen() != uil + 1 || s.getMaxNumberConfigs() != 3) { c.f("limits", "max user information %u, configurations %u", s.getMaxUserInfoLen(), s.getMaxNumberConfigs()); return false; }
    return true;
  }
  bool close() { c.transitions++; c.t("close"); if (s.close() != 0) { c.f("close", "close failed"); return false; } opened = false; return true; }
  bool expectput(const char *what, int rc, const std::string &kb, const std::string &db_) {
    c.transitions++;
    auto it = m.find(canon<K>(kb)); bool ok = opened && !ro && kb.size() <= o.page - 56 && (it == m.end() || db_.size() <= it->second.second.size());
    c.t("%s(key %zu bytes, data %zu bytes) = %d", what, kb.size(), db_.size(), rc);
    if (ok != (rc == 0)) { c.f(ok ? "refused" : "accepted", "%s returned %d, expected %s", what, rc, ok ? "success" : "refusal"); return false; }
    if (ok) { if (it == m.end()) m[canon<K>(kb)] = {kb, db_}; else it->second.second = db_; }
    return true;
  }
  bool ins(const std::string &k, const std::string &d) { K ko(k); D dd(d); return expectput("insert", s.insert(ko, dd), bin(ko), bin(dd)); }
  bool insstr(const std::string &k, const std::string &d) { D dd(d); return expectput("insertWithStringKey", s.putstr(k, dd), k, bin(dd)); }
  bool insbin(const std::string &k, const std::string &d, bool bk = false, bool bd = false) { if (!expectput("insertBinary", s.putbin(k, d), k, d)) return false; if (opened && !ro) { badk += bk; badd += bd; } return true; }
  bool isbad(const std::string &b, bool key) { try { if (key) { K k; k.readObject(b); } else { D d; d.readObject(b); } return false; } catch (SerializeException &) { return true; } }
  bool check() {
    c.transitions++;
    unsigned bk = 0, bd = 0;
    for (auto &e : m) {
      const std::string &kb = e.second.first, &vb = e.second.second; bool ik = isbad(kb, true), id = isbad(vb, false); bk += ik; bd += id;
      std::string v = "untouched"; int rc = s.getbin(kb, v);
      if (rc != -2 && (rc != 0 || v != vb)) { c.f("getBinary", "getBinary returned %d, %zu bytes for %zu", rc, v.size(), vb.size()); return false; }
      if (ik) continue;
      K k; k.readObject(kb); D d; rc = s.get(k, d);
      if (!s.exist(k)) { c.f("exist", "a stored key does not exist"); return false; }
      if (id) { if (rc == 0) { c.f("bad-data", "get of an undecodable record returned 0"); return false; } continue; }
      if (rc != 0 || bin(d) != vb) { c.f("get", "get returned %d, %zu bytes for %zu", rc, bin(d).size(), vb.size()); return false; }
    }
    { K k("never stored"); D d("keep"); int rc = s.get(k, d); if (rc == 0 || str(d) != "keep") { c.f("phantom", "get of an absent key returned %d", rc); return false; }
      if (s.exist(k)) { c.f("phantom", "an absent key exists"); return false; } std::string v = "keep"; rc = s.getbin("absent", v); if (rc == 0 || v != "keep") { c.f("phantom", "getBinary of an absent key returned %d", rc); return false; } }
    // bulk readers: append to what the caller has
    auto same = [&](const char *what, const std::map<std::string, std::string> &got, size_t n, bool data) {
      bool ok = n == m.size() && got.size() == m.size();
      for (auto &e : m) { auto it = got.find(e.second.first); if (it == got.end() || (data && it->second != e.second.second)) ok = false; }
      if (!ok) c.f("bulk", "%s gave %zu entries, not the %zu stored", what, n, m.size());
      return ok; };
    { std::vector<std::string> k, v; std::map<std::string, std::string> g; if (s.binaries(k, v)) { if (k.size() != v.size()) { c.f("bulk", "binaryKeysAndData sizes"); return false; } for (size_t i = 0; i < k.size(); i++) g[k[i]] = v[i]; if (!same("binaryKeysAndData", g, k.size(), true)) return false; } }
    { std::vector<std::string> k; std::map<std::string, std::string> g; if (s.binkeys(k)) { for (auto &x : k) g[x]; if (!same("binaryKeys", g, k.size(), false)) return false; } }
    { std::vector<K> k; bool thrown = false; try { s.allkeys(k); } catch (SerializeException &) { thrown = true; } if (thrown != (bk > 0)) { c.f("bulk", "keys %s", thrown ? "threw" : "ignored an undecodable key"); return false; }
      if (!thrown) { std::map<std::string, std::string> g; for (auto &x : k) g[bin(x)]; if (!same("keys", g, k.size(), false)) return false; } }
    { std::vector<K> k; std::vector<D> v; bool thrown = false; try { s.pairs(k, v); } catch (SerializeException &) { thrown = true; } if (thrown != (bk + bd > 0)) { c.f("bulk", "keysAndData %s", thrown ? "threw" : "ignored an undecodable record"); return false; }
      if (!thrown) { std::map<std::string, std::string> g; if (k.size() != v.size()) { c.f("bulk", "keysAndData sizes"); return false; } for (size_t i = 0; i < k.size(); i++) g[bin(k[i])] = bin(v[i]); if (!same("keysAndData", g, k.size(), true)) return false; } }
    { std::vector<std::string> k; std::vector<D> v; bool thrown = false, have = true; try { have = s.strpairs(k, v); } catch (SerializeException &) { thrown = true; } if (have) { if (thrown != (bd > 0)) { c.f("bulk", "stringKeysAndData %s", thrown ? "threw" : "ignored an undecodable record"); return false; }
      if (!thrown) { std::map<std::string, std::string> g; for (size_t i = 0; i < k.size(); i++) g[k[i]] = bin(v[i]); if (!same("stringKeysAndData", g, k.size(), true)) return false; } } }
    if (bk + bd == 0) { std::vector<K> k; std::vector<D> v; if (s.some(k, v)) { if (k.size() != (m.empty() ? 0u : 1u) || k.size() != v.size()) { c.f("bulk", "someKeyAndData gave %zu", k.size()); return false; }
        if (k.size()) { auto it = m.find(canon<K>(bin(k[0]))); if (it == m.end() || it->second.second != bin(v[0])) { c.f("bulk", "someKeyAndData gave a pair that is not stored"); return false; } } } }
    if (hasu) { std::string u; if (s.getUserdata(u) != 0 || u != udata) { c.f("userdata", "user data of %zu bytes came back as %zu", udata.size(), u.size()); return false; } }
    uint64_t h = 1; for (auto &e : m) h = mix(h, h64(e.first.data(), e.first.size()) ^ h64(e.second.second.data(), e.second.second.size())); c.states.push_back(mix(h, mix(o.page, ro * 2 + S::simple)));
    return true;
  }
  bool closedops() {   // every call on a store that is not open is refused
    c.t("calls on a closed store"); c.transitions++;
    K k("x"); D d("keep"); std::string u = "keep"; std::vector<K> ks; std::vector<D> ds; std::vector<std::string> b1, b2;
    if (s.insert(k, d) == 0 || s.get(k, d) == 0 || str(d) != "keep") { c.f("closed", "insert or get succeeded"); return false; }
    if (s.exist(k)) { c.f("closed", "exist"); return false; }
    s.allkeys(ks); s.pairs(ks, ds); s.binaries(b1, b2); s.binkeys(b1); s.strpairs(b1, ds); s.some(ks, ds);
    if (ks.size() || ds.size() || b1.size() || b2.size()) { c.f("closed", "keys from a closed store"); return false; }
    s.flush(); if (s.insertUserdata("u") == 0 || s.getUserdata(u) == 0 || u != "keep") { c.f("closed", "user data"); return false; }
    if (s.close() != 0) { c.f("closed", "second close failed"); return false; }
    return true;
  }
  bool op(unsigned x, unsigned p) {
    switch (x) {
      case 0: return ins("alpha", pat(p, 0, 10));
      case 1: return ins("ALPHA", pat(p, 1, 2000)) && ins("beta", pat(p, 2, p ? 5 : 700));
      case 2: for (int i = 0; i < 15; i++) if (!ins("key number " + std::to_string(i * 7 + p), pat(i, p, i * 40))) return false; return true;
      case 3: return insstr(bin(K("gamma")), pat(p, 3, 33));
      case 4: return insbin(bin(K("delta")), bin(D(pat(p, 4, 8))));
      case 5: return insbin("??bad key" + std::to_string(p), bin(D("fine")));
      case 6: return insbin(bin(K("bad data")), "??");
      case 7: if (!close()) return false; o.move ^= 1; options(s); return open(O_RDWR);
      case 8: { s.flush(); c.t("flush"); Run<S> q(c, o); q.m = m; q.udata = udata; q.hasu = hasu; q.options(q.s); if (!q.open(O_RDONLY) || !q.check()) return false; return q.close(); }
      case 9: { std::string u = pat(p, 9, (p * 17) % (uil + 2)); int rc = s.insertUserdata(u); c.t("insertUserdata(%zu) = %d", u.size(), rc); if ((rc == 0) != (!ro)) { c.f("userdata", "insertUserdata(%zu bytes) returned %d", u.size(), rc); return false; } if (rc == 0) { udata = u; hasu = true; } return true; }
      case 10: if (!close() || !closedops()) return false; return open(O_RDWR);
      case 11: return close() && open(O_RDONLY) && ins("refused", "x") && ins("alpha", "x") && check() && close() && open(O_RDWR);
      case 12: { S t(s); K k("through a copy"); D d(pat(p, 12, 20)); return expectput("insert through a copy", t.insert(k, d), bin(k), bin(d)); }
      case 13: { // open of another file closes this one first
        if (s.open(c.dir + "/none.db", O_RDONLY, 0) == 0) { c.f("open", "a missing file opened"); return false; } opened = false; if (!closedops()) return false;
        if (s.fileExists(c.dir + "/none.db") || !s.fileExists(path)) { c.f("fileExists", "fileExists is wrong"); return false; } return open(O_RDWR); }
      case 14: return ins("", pat(p, 14, 3)) && ins(std::string("nul\0inside", 10), std::string("a\0b", 3));
      case 15: return ins(pat(1, 1, o.page), "too long key") && insbin(std::string(o.page - 56, 'k'), bin(D("longest key")), true) && ins("alpha", pat(3, 3, 5000));
    }
    if (x == 16) return insbin(bin(K("empty data")), "") && insbin(bin(K("shrinks to nothing")), bin(D(pat(p, 16, 30)))) && insbin(bin(K("shrinks to nothing")), "");
    return true;
  }
};
template <class S> void family(Suite &su, const char *name, unsigned D, unsigned nopt) {
  Family f; f.name = name; uint64_t n = 1; for (unsigned d = 0; d < D; d++) n *= 17;
  f.count = n * nopt;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < D; d++) ops[d] = r.take(17);
    const Opt &o = OPT[(r.take(nopt) + ops[0]) % 4];
    if (c.want_trace) c.trace.reserve(1 << 20);
    c.states.reserve(64);
    std::string path = c.dir + "/s.db";
    static bool warm = false;
    for (int round = warm ? 1 : 0; round < 2; round++) {
      unlink(path.c_str());
      size_t b0 = __sanitizer_get_current_allocated_bytes();
      { Run<S> q(c, o); if (!q.closedops()) return; q.options(q.s);
        if (!q.open(O_RDWR | O_CREAT | O_TRUNC)) return;
        for (unsigned d = 0; d < D; d++) { c.t("op %u", ops[d]); if (!q.op(ops[d], d) || !q.check()) return; }
        if (!q.close() || !q.open(O_RDONLY) || !q.check() || !q.close()) return;
        c.nontrivial = !q.m.empty(); c.outcome = mix(q.m.size(), q.badk * 4 + q.badd); }
      size_t b1 = __sanitizer_get_current_allocated_bytes();
      if (round == 1 && b1 > b0) { c.f("leak", "%zu bytes not given back by the store", b1 - b0); return; }
    }
    warm = true;
  };
  su.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P16", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    family<Full<StringKey, UserData>>(s, "string-store", T ? 4 : 3, T ? 4 : 2);
    family<Full<CIKey, Blob>>(s, "own-hash-store", T ? 4 : 3, T ? 4 : 1);
    family<Full<StringKey, Raw>>(s, "raw-store", T ? 4 : 3, T ? 2 : 1);
    family<Simple<StringKey, UserData>>(s, "simple-store", T ? 4 : 3, T ? 4 : 1);
  });
}
