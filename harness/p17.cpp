// P17: an ensemble store (AllConfStoreDB) keeps one element per configuration under every key.
#include "typed.h"
#include <sys/wait.h>
#include "AllConfStoreDB.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
struct Opt { unsigned page, nb; int move; unsigned cache; };
static const Opt OPT[] = {{512, 1, 0, 0}, {512, 4, 1, 4096}, {8192, 32, 0, 1 << 20}, {1024, 2, 1, 1 << 20}};
struct Cf { int config, index, inserted, type, mtime; std::string name; };
template <class D> struct Run {
  typedef StringKey K; typedef AllConfStoreDB<K, D> S; typedef std::vector<std::string> E;
  Ctx &c; Opt o; int n; size_t es; std::string path; S *s = 0; bool opened = false, ro = false, empty_ = true; size_t bs = 0;
  std::map<std::string, E> m; std::vector<Cf> cf, objcf; bool bad = false;
  Run(Ctx &c_, const Opt &o_, int n_, size_t es_) : c(c_), o(o_), n(n_), es(es_), path(c_.dir + "/e.db") {}
  ~Run() { delete s; }
  void options() { s->setPageSize(o.page); s->setNumberBuckets(o.nb); if (o.move) s->enablePageMove(); else s->disablePageMove(); if (o.cache) s->setCacheSize(o.cache); s->setMaxUserInfoLen(40); }
  static int cfgno(int i) { return 100 + i * 10; }
  void make(unsigned kind) {   // 0: numbers, 1: numbers and names, 2: nothing known
    delete s; opened = false; objcf.clear();
    std::vector<int> v; std::vector<std::string> nm; for (int i = 0; i < n; i++) { v.push_back(cfgno(i)); nm.push_back(i % 3 == 2 ? "N/A" : i % 3 ? std::string(120 + i, 'n') : "db" + std::to_string(i)); }
    s = kind == 2 ? new S() : kind ? new S(v, nm) : new S(v);
    if (kind < 2) for (int i = 0; i < n; i++) objcf.push_back({v[i], i, 0, 0, 0, kind && nm[i] != "N/A" ? nm[i].substr(0, 127) : ""});
    options();
  }
  bool open(int fl) {
    c.transitions++; c.t("open %s", fl == O_RDONLY ? "read-only" : fl & O_TRUNC ? "create" : "read-write");
    if (fl & O_TRUNC) { m.clear(); bad = false; }
    bool ok = !(m.empty() && objcf.empty());
    int rc = s->open(path, fl, 0664);
    if ((rc == 0) != ok) { c.f("open", "open returned %d, expected %s", rc, ok ? "success" : "refusal"); return false; }
    if (!ok) { opened = false; return closedops(); }
    opened = true; ro = fl == O_RDONLY; bs = 0; empty_ = m.empty();
    if (m.empty()) { if (!ro) cf = objcf; } else objcf = cf;
    if (s->size() != n) { c.f("size", "size is %d, not %d", s->size(), n); return false; }
    if (s->getMaxNumberConfigs() != (unsigned)n) { c.f("size", "maximum number of configurations is %u, not %d", s->getMaxNumberConfigs(), n); return false; }
    return true;
  }
  bool close() { c.transitions++; c.t("close"); if (s->close() != 0) { c.f("close", "close failed"); return false; } opened = false; return true; }
  E elems(unsigned p, unsigned q) { E e; for (int i = 0; i < n; i++) e.push_back(bin(D(pat(p * 16 + q, i, es)))); return e; }
  std::vector<D> objs(unsigned p, unsigned q) { std::vector<D> e; for (int i = 0; i < n; i++) e.push_back(D(pat(p * 16 + q, i, es))); return e; }
  bool expect(const char *what, int rc, const std::string &kb, const E &e) {
    c.transitions++;
    size_t z = bs ? bs : e[0].size(); bool ok = opened && !ro && kb.size() <= o.page - 56; size_t tot = 0; for (auto &x : e) { ok = ok && x.size() == z; tot += x.size(); }
    auto it = m.find(kb); if (it != m.end() && tot > it->second.size() * it->second[0].size()) ok = false;
    c.t("%s(key %zu bytes, %zu elements of %zu) = %d", what, kb.size(), e.size(), e[0].size(), rc);
    if (ok != (rc == 0)) { c.f(ok ? "refused" : "accepted", "%s returned %d, expected %s", what, rc, ok ? "success" : "refusal"); return false; }
    if (ok) { m[kb] = e; bs = z; }
    return true;
  }
  bool ins(const std::string &k, unsigned p, unsigned q) { return expect("insert", s->insert(K(k), objs(p, q)), bin(K(k)), elems(p, q)); }
  bool upd(const std::string &k, const std::string &data, int idx) {
    K ko(k); std::string kb = bin(ko), v = bin(D(data)); int rc = s->update(ko, D(data), idx >= 0 && idx < n ? cfgno(idx) : 0, idx); c.transitions++;
    c.t("update(%s, %zu bytes, index %d) = %d", k.c_str(), v.size(), idx, rc);
    auto it = m.find(kb); bool in = idx >= 0 && idx < n && opened && !ro;
    if (it == m.end() && in && empty_) { E e; for (int i = 0; i < n; i++) e.push_back(i == idx ? v : bin(D())); return expect("update of a new key", rc, kb, e); }
    bool ok = in && it != m.end() && it->second[0].size() == v.size() && (bs == 0 || bs == v.size());
    if (ok != (rc == 0)) { c.f(ok ? "refused" : "accepted", "update returned %d, expected %s", rc, ok ? "success" : "refusal"); return false; }
    if (ok) { it->second[idx] = v; bs = v.size(); }
    return true;
  }
  bool isbad(const std::string &b) { try { D d; d.readObject(b); return false; } catch (SerializeException &) { return true; } }
  bool check() {
    c.transitions++; bool anybad = false; 
    for (auto &e : m) {
      std::vector<std::string> v(1, "kept"); int rc = s->getBinaryData(e.first, v);
      bool ok = rc == 0 && v.size() == (size_t)n + 1 && v[0] == "kept"; for (int i = 0; ok && i < n; i++) ok = v[i + 1] == e.second[i];
      if (!ok) { c.f("getBinaryData", "getBinaryData returned %d, %zu elements for %d", rc, v.size() - 1, n); return false; }
      if (!bs) bs = e.second[0].size();
      bool b = false; for (auto &x : e.second) b = b || isbad(x); anybad = anybad || b;
      K k; k.readObject(e.first);
      for (int w = 0; w < 2; w++) {
        std::vector<D> d(1); rc = w ? s->getFromStringKey(e.first, d) : s->get(k, d); const char *nm = w ? "getFromStringKey" : "get";
        if (b) { if (rc == 0 || d.size() != 1) { c.f("bad", "%s of an undecodable element returned %d and %zu elements", nm, rc, d.size() - 1); return false; } continue; }
        ok = rc == 0 && d.size() == (size_t)n + 1; for (int i = 0; ok && i < n; i++) ok = bin(d[i + 1]) == e.second[i];
        if (!ok) { c.f("get", "%s returned %d, %zu elements for %d", nm, rc, d.size() - 1, n); return false; }
      }
      if (!s->exist(k)) { c.f("exist", "a stored key does not exist"); return false; }
    }
    { std::vector<D> d; std::vector<std::string> v; K k("never stored"); if (s->get(k, d) == 0 || d.size() || s->getFromStringKey("absent", d) == 0 || s->getBinaryData("absent", v) == 0 || d.size() || v.size() || s->exist(k)) { c.f("phantom", "an absent key was found"); return false; } }
    if (!anybad) {
      std::vector<K> k; std::vector<std::vector<D>> v; s->keysAndData(k, v); std::vector<std::string> k2; std::vector<std::vector<D>> v2; s->stringKeysAndData(k2, v2);
      for (int w = 0; w < 2; w++) {
        auto &vv = w ? v2 : v; size_t nk = w ? k2.size() : k.size(); bool ok = nk == m.size() && vv.size() == m.size(); std::set<std::string> seen;
        for (size_t j = 0; ok && j < nk; j++) { std::string kb = w ? k2[j] : bin(k[j]); auto it = m.find(kb); ok = it != m.end() && seen.insert(kb).second && vv[j].size() == (size_t)n; for (int i = 0; ok && i < n; i++) ok = bin(vv[j][i]) == it->second[i]; }
        if (!ok) { c.f("bulk", "%s gave %zu keys, %zu ensembles, not the %zu stored", w ? "stringKeysAndData" : "keysAndData", nk, vv.size(), m.size()); return false; }
      }
    }
    { std::vector<K> k; s->keys(k); std::set<std::string> a; for (auto &x : k) a.insert(bin(x)); std::set<std::string> b; unsigned steps = 0;
      typename S::key_iterator it = s->begin(), en = s->end();
      for (; it != en; ++it) { K y = *it; std::string z = bin(y); if (bin(*it.operator->()) != z) { c.f("iterator", "-> and * differ"); return false; } b.insert(z); if (++steps > m.size() + 5) break; }
      bool ok = k.size() == m.size() && a.size() == m.size() && steps == m.size() && b.size() == m.size(); for (auto &e : m) ok = ok && a.count(e.first) && b.count(e.first);
      if (!ok) { c.f("keys", "keys gave %zu, the iterator %u of %zu keys", k.size(), steps, m.size()); return false; } }
    std::vector<ConfigInfo> all; int rc = s->getAllConfigInfo(all); if (rc != 0 || all.size() != cf.size()) { c.f("configs", "getAllConfigInfo returned %d, %zu of %zu", rc, all.size(), cf.size()); return false; }
    for (size_t i = 0; i < cf.size(); i++) {
      ConfigInfo one; if (s->getConfigInfo(cf[i].config, one) != 0) { c.f("configs", "configuration %d not found", cf[i].config); return false; }
      for (int w = 0; w < 2; w++) { const ConfigInfo &x = w ? one : all[i]; const Cf &e = cf[i];
        if (x.configNumber() != e.config || x.index() != e.index || x.inserted() != e.inserted || x.type() != e.type || x.modifiedTime() != e.mtime || x.urlname() != e.name) { c.f("configs", "configuration at %zu is (%d,%d,%d,%d,%d,%zu), not (%d,%d,%d,%d,%d,%zu)", i, x.configNumber(), x.index(), x.inserted(), x.type(), x.modifiedTime(), x.urlname().size(), e.config, e.index, e.inserted, e.type, e.mtime, e.name.size()); return false; } }
    }
    ConfigInfo none; if (s->getConfigInfo(999999, none) == 0) { c.f("configs", "an unknown configuration was found"); return false; }
    uint64_t h = n; for (auto &e : m) for (auto &x : e.second) h = mix(h, h64(x.data(), x.size()) ^ h64(e.first.data(), e.first.size())); c.states.push_back(mix(h, mix(o.page, empty_ * 2 + ro)));
    return true;
  }
  bool closedops() {
    c.transitions++; c.t("calls on a closed store"); K k("x"); std::vector<D> d(n ? n : 1); std::vector<std::string> v(n ? n : 1); size_t dz = d.size(); ConfigInfo ci; std::vector<ConfigInfo> all;
    if (s->insert(k, d) == 0 || s->insertWithStringKey("x", d) == 0 || s->insertBinaryData("x", v) == 0 || s->get(k, d) == 0 || s->getFromStringKey("x", d) == 0 || s->getBinaryData("x", v) == 0 || s->update(k, D(), 0, 0) == 0) { c.f("closed", "a call on a closed store succeeded"); return false; }
    if (d.size() != dz || v.size() != dz || s->exist(k) || s->setConfigInfo(ci) == 0 || s->getConfigInfo(1, ci) == 0 || s->getAllConfigInfo(all) == 0 || all.size()) { c.f("closed", "a closed store has content"); return false; }
    std::vector<K> ks; std::vector<std::vector<D>> vs; std::vector<std::string> sk; s->keysAndData(ks, vs); s->stringKeysAndData(sk, vs); s->keys(ks); if (ks.size() || vs.size() || sk.size() || s->begin() != s->end()) { c.f("closed", "a closed store has keys"); return false; }
    s->flush(); return true;
  }
  // a call that must end the process or be refused; run in a child on the same file
  bool loud(const char *what, std::function<int()> fn) {
    c.transitions++; c.t("%s", what); fflush(0); pid_t p = fork(); if (p == 0) { int rc = fn(); _exit(rc == 0 ? 77 : 0); }
    int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { c.f("accepted", "%s was accepted", what); return false; }
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) { c.f("crash", "%s crashed with signal %d", what, WTERMSIG(st)); return false; }
    return true;
  }
  bool op(unsigned x, unsigned p) {
    switch (x) {
      case 0: return ins("alpha", p, 0);
      case 1: return expect("insertWithStringKey", s->insertWithStringKey(bin(K("beta")), objs(p, 1)), bin(K("beta")), elems(p, 1));
      case 2: return expect("insertBinaryData", s->insertBinaryData(bin(K("gamma")), elems(p, 2)), bin(K("gamma")), elems(p, 2));
      case 3: for (int i = 0; i < 9; i++) if (!ins("key " + std::to_string(i * 5 + p), p, i)) return false; return true;
      case 4: { // elements of different sizes, and of another size than before
        for (int q = 0; q < n; q++) { auto e = elems(p, 4); e[q] += "x"; if (n == 1 && !bs) continue; if (!expect("insertBinaryData (unequal)", s->insertBinaryData(bin(K("odd")), e), bin(K("odd")), e)) return false;
          auto oo = objs(p, 4); oo[q] = D(pat(p, q, es + 1)); E oe; for (auto &y : oo) oe.push_back(bin(y)); if (!bs && n == 1) continue;
          if (!expect("insert (unequal)", s->insert(K("odd"), oo), bin(K("odd")), oe) || !expect("insertWithStringKey (unequal)", s->insertWithStringKey(bin(K("odd2")), oo), bin(K("odd2")), oe)) return false; }
        return true; }
      case 5: return upd("alpha", pat(p, 5, es), p % n);
      case 6: return upd("beta", pat(p, 6, es), n - 1) && upd("alpha", pat(p, 7, es), 0);
      case 7: return upd("alpha", pat(p, 1, es), -1) && upd("alpha", pat(p, 1, es), n) && upd("gamma", pat(p, 1, es), n + 1000000) && upd("gamma", pat(p, 1, es), 0);
      case 8: return upd("alpha", pat(p, 8, es + 1), 0) && upd("new key", pat(p, 8, es), n / 2);
      case 9: c.t("updateDone"); s->updateDone(); empty_ = false; return true;
      case 10: { for (int t = 0; t < 2; t++) { int i = t ? n - 1 : p % n; ConfigInfo x; Cf e = {cfgno(i), i, 1, t ? FILEDB_VAR_DATA_SIZE : FILEDB_FIX_DATA_SIZE, 1234567 + (int)p, std::string(p == 0 ? 127 : p == 1 ? 0 : 200, 'u')}; x.configNumber(e.config); x.index(i); x.insert(1); x.type(e.type); x.modifiedTime(e.mtime); x.urlname(e.name); e.name = e.name.substr(0, 127);
          int rc = s->setConfigInfo(x); c.t("setConfigInfo(%d) = %d", i, rc); if ((rc == 0) != !ro) { c.f("configs", "setConfigInfo returned %d", rc); return false; } if (!ro) cf[i] = e; }
        ConfigInfo x; x.configNumber(5); x.index(n); if (s->setConfigInfo(x) == 0) { c.f("configs", "setConfigInfo accepted an index outside"); return false; } return true; }
      case 11: if (!close()) return false; if (p & 1) make(m.empty() ? 0 : 2); else { o.move ^= 1; options(); } return open(O_RDWR);
      case 12: { if (!close()) return false; make(m.empty() ? 1 : 2); if (!open(O_RDONLY) || !check()) return false; auto keep = cf; if (!ins("refused", p, 0) || !upd("alpha", pat(p, 5, es), 0) || !op(10, p) || !check()) return false; if (!close()) return false; make(p & 1); return open(O_RDWR); }
      case 13: { s->flush(); c.t("flush"); Run q(c, o, n, es); q.m = m; q.cf = cf; q.make(m.empty() ? 0 : 2); if (!q.open(O_RDONLY) || !q.check()) return false; return q.close(); }
      case 14: { typename S::key_iterator a = s->begin(), b = a; for (unsigned i = 0; i < p && a != s->end(); i++) a++; typename S::key_iterator d; d = a; (void)b; return (p & 1) ? ins("delta", p, 3) : upd("alpha", pat(p, 9, es), n - 1); }
      case 15: if (!close() || !closedops()) return false; make(0); { std::vector<int> v(n + 1, 3); if (!m.empty()) { make(2); if (!open(O_RDONLY) || !close()) return false; } } make(0); return open(O_RDWR);
    }
    return true;
  }
};
template <class D> void family(Suite &su, const char *name, unsigned DP, std::vector<std::pair<int, size_t>> shapes) {
  Family f; f.name = name; uint64_t n = 1; for (unsigned d = 0; d < DP; d++) n *= 16;
  f.count = n * shapes.size();
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < DP; d++) ops[d] = r.take(16);
    unsigned sh = r.take(shapes.size()); const Opt &o = OPT[(sh + ops[0]) % 4];
    if (c.want_trace) c.trace.reserve(1 << 20);
    c.states.reserve(64);
    std::string path = c.dir + "/e.db";
    static bool warm = false;
    for (int round = warm ? 1 : 0; round < 2; round++) {
      unlink(path.c_str());
      size_t b0 = __sanitizer_get_current_allocated_bytes();
      { Run<D> q(c, o, shapes[sh].first, shapes[sh].second); q.make(2); if (!q.closedops()) return; q.make(ops[0] & 1);
        if (!q.open(O_RDWR | O_CREAT | O_TRUNC)) return;
        for (unsigned d = 0; d < DP; d++) { c.t("op %u", ops[d]); if (!q.op(ops[d], d) || !q.check()) return; }
        if (!q.close()) return; q.make(q.m.empty() ? 0 : 2); if (!q.open(O_RDONLY) || !q.check() || !q.close()) return;
        c.nontrivial = !q.m.empty(); c.outcome = mix(q.m.size(), sh); }
      size_t b1 = __sanitizer_get_current_allocated_bytes();
      if (round == 1 && b1 > b0) { c.f("leak", "%zu bytes not given back by the store", b1 - b0); return; }
    }
    warm = true;
  };
  su.fams.push_back(f);
}
// key iterators: copies, assignments and several at a time deliver every key once
static void iterators(Suite &su, unsigned DP) {
  Family f; f.name = "iterators"; uint64_t n = 4 * 2; for (unsigned d = 0; d < DP; d++) n *= 10;
  f.count = n;
  f.run = [=](uint64_t i, Ctx &c) {
    Radix r(i); unsigned ops[8]; for (unsigned d = 0; d < DP; d++) ops[d] = r.take(10);
    static const unsigned NK[] = {0, 1, 3, 7}; unsigned nk = NK[r.take(4)]; bool big = r.take(2);
    typedef AllConfStoreDB<StringKey, Raw> S; typedef S::key_iterator It;
    S *st; std::vector<int> cn(2, 5); st = new S(cn); st->setPageSize(512); st->setNumberBuckets(big ? 1 : 4); st->setMaxUserInfoLen(100); st->setMaxNumberConfigs(2);
    if (st->open(c.dir + "/it.db", O_RDWR | O_CREAT | O_TRUNC, 0600) != 0) { c.f("open", "open refused"); delete st; return; }
    for (unsigned k = 0; k < nk; k++) { std::vector<Raw> v(2, Raw(pat(k, 1, 3))); if (st->insert(StringKey("key " + std::to_string(k) + std::string(big ? 150 : 0, 'x')), v) != 0) { c.f("insert", "insert refused"); delete st; return; } }
    std::vector<std::string> order; { unsigned g = 0; for (It it = st->begin(); it != st->end() && g < 20; ++it, g++) order.push_back(std::string(*it)); }
    std::set<std::string> dist(order.begin(), order.end()); if (order.size() != nk || dist.size() != nk) { c.f("iterator", "%zu of %u keys", order.size(), nk); delete st; return; }
    {
      struct M { size_t pos = 0; int walk = 0; bool def = true, frozen = false; };   // walk: iterators of the same walk share a cursor
      It *a = new It, *b = new It; M ma, mb; int walks = 0;
      auto fresh = [&](It &x, M &m) { x = st->begin(); m = M(); m.def = false; m.walk = ++walks; };
      auto step = [&](It &x, M &m, M &o, bool post) { if (m.def || m.frozen || m.pos >= nk || m.walk == 0) return; if (post) x++; else { It &y = ++x; if (&y != &x) c.f("iterator", "++ returns another iterator"); } m.pos++; if (!o.def && o.walk == m.walk) o.frozen = true; c.transitions++; };
      auto look = [&](It &x, M &m, const char *w) { if (m.def) return true; bool e = x == st->end(); if (e != (m.pos >= nk) || (x != st->end()) == e) { c.f("iterator", "iterator %s at %zu of %u %s the end", w, m.pos, nk, e ? "is at" : "is not at"); return false; } if (m.pos < nk && (std::string(*x) != order[m.pos] || std::string(StringKey(*x.operator->())) != order[m.pos])) { c.f("iterator", "iterator %s points to another key than number %zu", w, m.pos); return false; } return true; };
      for (unsigned d = 0; d < DP && !c.failed(); d++) {
        c.t("op %u", ops[d]);
        switch (ops[d]) {
          case 0: fresh(*a, ma); break; case 1: fresh(*b, mb); break;
          case 2: *a = *b; ma = mb; break; case 3: *b = *a; mb = ma; break;
          case 4: *a = *&*a; break;
          case 5: step(*a, ma, mb, false); step(*b, mb, ma, true); break; case 6: step(*b, mb, ma, true); step(*b, mb, ma, true); break;
          case 7: *a = st->end(); ma = M(); ma.def = false; ma.pos = nk; break;
          case 8: delete b; b = new It(*a); mb = ma; break;
          case 9: delete a; a = new It; ma = M(); for (unsigned g = 0; g < 9; g++) step(*b, mb, ma, false); break;
        }
        if (c.failed() || !look(*a, ma, "a") || !look(*b, mb, "b")) break;
        if (!ma.def && !mb.def) { bool eq = *a == *b, want = ma.pos >= nk ? mb.pos >= nk : ma.pos == mb.pos; if (eq != want || (*a != *b) == eq) { c.f("iterator", "iterators at %zu and %zu compare %s", ma.pos, mb.pos, eq ? "equal" : "different"); break; } }
        c.states.push_back(mix(ma.pos * 16 + mb.pos, mix(nk, ma.def * 4 + mb.def * 2 + (ma.walk == mb.walk))));
      }
      if (!c.failed()) { unsigned g = 0; std::vector<std::string> k2; for (It it = st->begin(); it != st->end() && g < 20; ++it, g++) k2.push_back(std::string(*it)); if (k2 != order) c.f("iterator", "a later walk gives %zu keys", k2.size()); }
      delete a; delete b;
    }
    if (st->close() != 0) c.f("close", "close failed");
    delete st; c.nontrivial = nk > 0; c.outcome = mix(nk, ops[0]);
  };
  su.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P17", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough"; typedef std::vector<std::pair<int, size_t>> SH;
    family<UserData>(s, "ensembles", T ? 4 : 3, T ? SH{{1, 10}, {3, 7}, {5, 300}, {4, 0}} : SH{{3, 7}, {5, 300}});
    family<Fixed>(s, "fixed-size", T ? 4 : 3, T ? SH{{1, 12}, {2, 12}, {7, 12}} : SH{{2, 12}});
    family<Raw>(s, "raw", T ? 4 : 3, T ? SH{{1, 0}, {3, 0}, {3, 1}, {2, 1500}} : SH{{3, 1}});
    iterators(s, T ? 5 : 4);
    { // two files through one object, wrong numbers, refused opens
      Family f; f.name = "one-object-many-files"; static const int NS[] = {1, 2, 5}; f.count = 3 * 3 * 2 * 2 * 2 * 4;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); int n1 = NS[r.take(3)], n2 = NS[r.take(3)]; size_t e1 = r.take(2) ? 40 : 3, e2 = r.take(2) ? 40 : 3; bool em = r.take(2); const Opt &o = OPT[r.take(4)];
        { Run<Raw> A(c, o, n1, e1); A.path = c.dir + "/a.db"; A.make(1); if (!A.open(O_RDWR | O_CREAT | O_TRUNC)) return; if (!A.op(3, 1) || !A.op(10, 0) || !A.check() || !A.close()) return;
          Run<Raw> B(c, o, n2, e2); B.path = c.dir + "/b.db"; B.make(0); if (!B.open(O_RDWR | O_CREAT | O_TRUNC)) return; if (!em && (!B.op(2, 3) || !B.op(0, 2))) return; if (!B.check() || !B.close()) return;
          c.t("one object opens both");
          delete B.s; B.s = A.s; A.s = 0; B.objcf = A.objcf;
          if (em && n1 != n2) { c.t("open an empty file of %d configurations with %d", n2, n1); if (B.s->open(B.path, O_RDWR, 0) == 0) { c.f("open", "a file with room for %d configurations opened with %d", n2, n1); return; } if (!B.closedops()) return; }
          else { if (em) B.objcf = A.objcf; if (!B.open(O_RDWR) || !B.check() || !B.op(2, 1) || !B.op(7, 1) || !B.check() || !B.close()) return; }
          A.s = B.s; B.s = 0; if (!A.open(O_RDWR) || !A.check() || !A.op(5, 1) || !A.op(1, 1) || !A.check()) return;
          // wrong number of elements: refused or a loud end, and the file stays whole
          for (int d = -1; d <= 1; d += 2) if (n1 + d >= 0) { std::vector<Raw> w(n1 + d, Raw(pat(1, 1, e1))); std::vector<std::string> ws(n1 + d, pat(1, 1, e1));
            if (!A.loud("insert of a wrong number of elements", [&] { return A.s->insert(StringKey("wrong"), w); }) || !A.loud("insertWithStringKey of a wrong number of elements", [&] { return A.s->insertWithStringKey("wrong", w); }) || !A.loud("insertBinaryData of a wrong number of elements", [&] { return A.s->insertBinaryData("wrong", ws); })) return; }
          if (!A.check() || !A.close()) return; }
        c.nontrivial = true; c.outcome = mix(n1, n2);
      };
      s.fams.push_back(f); }
  });
}
