// P24: the hash functions and the key order the library provides are fixed functions of exactly the given bytes.
#include "typed.h"
#include "HashFunc.h"
extern "C" {
extern unsigned (*__ffdb_default_hash)(const void *, unsigned) __attribute__((weak));
extern int (*__ffdb_default_cmp)(const FFDB_DBT *, const FFDB_DBT *) __attribute__((weak));
unsigned __ham_func2(const void *, unsigned) __attribute__((weak));
unsigned __ham_func3(const void *, unsigned) __attribute__((weak));
unsigned __ham_func4(const void *, unsigned) __attribute__((weak));
unsigned __ham_func5(const void *, unsigned) __attribute__((weak));
}
typedef unsigned (*CH)(const void *, unsigned); typedef unsigned (*XH)(char *, unsigned);
typedef uint32_t u;
// the definitions, over the characters s[0..n) of the machine (signed) or the bytes (unsigned)
static u sgn(const std::string &s, size_t i) { return (u)(int)(signed char)s[i]; }
static u byt(const std::string &s, size_t i) { return (unsigned char)s[i]; }
static u poly(const std::string &s, u start, u mul, bool sg) { u h = start; for (size_t i = 0; i < s.size(); i++) h = h * mul + (sg ? sgn(s, i) : byt(s, i)); return h; }
static u r_rs(const std::string &s) { u h = 0, a = 63689; for (size_t i = 0; i < s.size(); i++) { h = h * a + sgn(s, i); a *= 378551; } return h; }
static u r_js(const std::string &s) { u h = 1315423911; for (size_t i = 0; i < s.size(); i++) h ^= h * 32 + sgn(s, i) + h / 4; return h; }
static u r_elf(const std::string &s) { u h = 0; for (size_t i = 0; i < s.size(); i++) { h = h * 16 + sgn(s, i); u top = h >> 28; h &= 0x0fffffff; h ^= top << 4; } return h; }
static u r_bkdr(const std::string &s) { return poly(s, 0, 131, true); }
static u r_sdbm(const std::string &s) { return poly(s, 0, 65599, true); }
static u r_djb(const std::string &s) { return poly(s, 5381, 33, true); }
static u r_dek(const std::string &s) { u h = s.size(); for (size_t i = 0; i < s.size(); i++) h = (h * 32 | h >> 27) ^ sgn(s, i); return h; }
static u r_bp(const std::string &s) { u h = 0; for (size_t i = 0; i < s.size(); i++) h = h * 128 ^ sgn(s, i); return h; }
static u fnv(const std::string &s, u p, bool sg) { u h = 0; for (size_t i = 0; i < s.size(); i++) h = h * p ^ (sg ? sgn(s, i) : byt(s, i)); return h; }
static u r_fnv(const std::string &s) { return fnv(s, 0x811C9DC5, true); }
static u r_ap(const std::string &s) { u h = 0xAAAAAAAA; for (size_t i = 0; i < s.size(); i++) h ^= i % 2 ? ~(h * 2048 ^ sgn(s, i) ^ h / 32) : h * 128 ^ sgn(s, i) ^ h / 8; return h; }
static u r_dbf(const std::string &s) { return fnv(s, 16777619, true); }
static u r_h2(const std::string &s) { u h = 0; for (size_t i = 0; i < s.size(); i++) h = 0x63c63cd9 * h + 0x9c39c33d + byt(s, i); return h; }
static u r_h3(const std::string &s) { return poly(s, 0, 65599, false); }
static u r_h4(const std::string &s) { return poly(s, 0, 33, false); }
static u r_h5(const std::string &s) { return fnv(s, 16777619, false); }
struct Fn { const char *name; XH x; CH c; u (*ref)(const std::string &); };
static std::vector<Fn> fns() {
  std::vector<Fn> v = {{"RSHash", RSHash, 0, r_rs}, {"JSHash", JSHash, 0, r_js}, {"PJWHash", PJWHash, 0, r_elf}, {"ELFHash", ELFHash, 0, r_elf}, {"BKDRHash", BKDRHash, 0, r_bkdr}, {"SDBMHash", SDBMHash, 0, r_sdbm}, {"DJBHash", DJBHash, 0, r_djb}, {"DEKHash", DEKHash, 0, r_dek}, {"BPHash", BPHash, 0, r_bp}, {"FNVHash", FNVHash, 0, r_fnv}, {"APHash", APHash, 0, r_ap}, {"db_hash_func", db_hash_func, 0, r_dbf}};
  if (&__ffdb_default_hash) v.push_back({"default", 0, __ffdb_default_hash, r_h5});
  if (__ham_func2) v.push_back({"__ham_func2", 0, __ham_func2, r_h2});
  if (__ham_func3) v.push_back({"__ham_func3", 0, __ham_func3, r_h3});
  if (__ham_func4) v.push_back({"__ham_func4", 0, __ham_func4, r_h4});
  if (__ham_func5) v.push_back({"__ham_func5", 0, __ham_func5, r_h5});
  return v;
}
// s in a buffer of exactly its size, at the given alignment: reading outside is seen by the sanitizer
static bool values(Ctx &c, char *b, const std::string &s) {
  static const std::vector<Fn> F = fns();
  memcpy(b, s.data(), s.size());
  for (auto &f : F) {
    u got = f.x ? f.x(b, s.size()) : f.c(b, s.size()), want = f.ref(s); c.transitions++;
    if (got != want) { std::string hx; char t[4]; for (size_t i = 0; i < s.size() && i < 40; i++) { snprintf(t, 4, "%02x", (unsigned char)s[i]); hx += t; } c.f("hash-value", "%s of %zu bytes %s gives %08x, defined is %08x", f.name, s.size(), hx.c_str(), got, want); return false; }
  }
  if (memcmp(b, s.data(), s.size())) { c.f("key-changed", "a hash function changed its key"); return false; }
  return true;
}
template <int I> class HKey : public DBKey {
 public:
  std::string s;
  HKey() {}
  HKey(const std::string &x) : s(x) {}
  unsigned short serialID() const { return 20 + I; }
  int hasHashFunc() const { return 1; }
  int hasCompareFunc() const { return 0; }
  operator std::string() const { return s; }
  void writeObject(std::string &o) const { o = s; }
  void readObject(const std::string &i) { s = i; }
  static unsigned hash(const void *p, unsigned n) { static const std::vector<Fn> F = fns(); return F[I].x ? F[I].x((char *)p, n) : F[I].c(p, n); }
  static int compare(const FFDB_DBT *, const FFDB_DBT *) { return 0; }
};
struct Key0 { static std::string key(unsigned shape, unsigned i) { std::string n = std::to_string(i); return shape == 0 ? "key" + n : shape == 1 ? std::string(1 + i % 40, (char)(i * 37)) + n : pat(i, 9, 1 + i % 60) + n; } };
template <int I> static void store(Ctx &c, unsigned shape, unsigned n, unsigned page, unsigned nb) {
  typedef HKey<I> K; std::string path = c.dir + "/h.db";
  c.t("hash function %s, %u keys of shape %u, pages of %u bytes, %u buckets", fns()[I].name, n, shape, page, nb);
  for (int session = 0; session < 3; session++) {
    ConfDataStoreDB<K, Raw> st; st.setPageSize(page); st.setNumberBuckets(nb); if (session == 1) st.enablePageMove();
    if (st.open(path, session == 0 ? O_RDWR | O_CREAT | O_TRUNC : session == 1 ? O_RDWR : O_RDONLY, 0600) != 0) { c.f("open", "session %d: open refused", session); return; }
    unsigned lo = session == 0 ? 0 : session == 1 ? n / 2 : n, hi = session == 0 ? n / 2 : n;
    for (unsigned i = lo; i < hi; i++) { K k(Key0::key(shape, i)); Raw d(pat(i, 4, i * 13 % 300)); c.transitions++; if (st.insert(k, d) != 0) { c.f("insert", "insert refused"); return; } }
    for (unsigned i = 0; i < hi; i++) { K k(Key0::key(shape, i)); Raw d; c.transitions++; if (st.get(k, d) != 0) { c.f("lost-key", "session %d: key %u is not found", session, i); return; } if (d.s != pat(i, 4, i * 13 % 300)) { c.f("wrong-data", "session %d: key %u", session, i); return; } }
    for (unsigned i = hi; i < hi + 5; i++) { K k(Key0::key(shape, i + n)); Raw d; c.transitions++; if (st.get(k, d) == 0) { c.f("phantom", "a key that was not stored is found"); return; } }
    std::vector<K> ks; st.keys(ks); std::set<std::string> e; for (auto &k : ks) e.insert(k.s); if (ks.size() != hi || e.size() != hi) { c.f("keys", "session %d: %zu keys listed, %u stored", session, ks.size(), hi); return; }
    if (st.close() != 0) { c.f("close", "close failed"); return; }
    c.states.push_back(mix(I * 1000 + shape, mix(n, page * 3 + nb + session * 100000)));
  }
  c.nontrivial = true; c.outcome = I;
}
template <int I> static void stores(Suite &s, bool T) {
  Family f; f.name = std::string("store-") + fns()[I].name; f.count = 3 * (T ? 5 : 4) * 3 * 2;
  f.run = [](uint64_t i, Ctx &c) { Radix r(i); unsigned sh = r.take(3), pg = r.take(3), nb = r.take(2); static const unsigned N[] = {1, 9, 60, 200, 3000}; store<I>(c, sh, N[r.take(5)], 512u << pg * 2, nb ? 32 : 1); };
  s.fams.push_back(f);
}
template <int I> struct All { static void go(Suite &s, bool T) { All<I - 1>::go(s, T); stores<I>(s, T); } };
template <> struct All<-1> { static void go(Suite &, bool) {} };
int main(int a, char **v) {
  return mc_main(a, v, "P24", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { Family f; f.name = "all-short-keys"; f.count = 257; f.timeout = 120;
      f.run = [=](uint64_t i, Ctx &c) {     // every byte string of length 0, 1, 2 (thorough: 3)
        if (i == 256) { char *z = (char *)malloc(1); values(c, z, ""); free(z); c.nontrivial = true; return; }
        char *b[4]; for (int n = 1; n < 4; n++) b[n] = (char *)malloc(n);
        std::string s(1, (char)i); bool ok = values(c, b[1], s);
        for (unsigned j = 0; ok && j < 256; j++) { std::string q = s + (char)j; ok = values(c, b[2], q); for (unsigned k = 0; ok && k < 256; k += T ? 1 : 17) ok = values(c, b[3], q + (char)k); }
        for (int n = 1; n < 4; n++) free(b[n]);
        c.nontrivial = true; c.states.push_back(i); };
      s.fams.push_back(f); }
    { Family f; f.name = "long-keys"; f.count = T ? 3000 : 700;
      f.run = [=](uint64_t n, Ctx &c) {     // every length x every position x the bytes at the sign boundary
        char *b = (char *)malloc(n ? n : 1); bool ok = true;
        for (int bg : {0, 0x61, 0xff}) { std::string s(n, (char)bg); ok = ok && values(c, b, s); for (size_t p = 0; ok && p < n; p += n < 100 ? 1 : 1 + n / 40) for (int x : {0x00, 0x01, 0x7f, 0x80, 0xff}) { std::string q = s; q[p] = (char)x; if (!(ok = values(c, b, q))) break; } }
        for (unsigned z = 0; ok && z < 20; z++) ok = values(c, b, pat(n, z, n));
        free(b); c.nontrivial = true; c.states.push_back(mix(n, 77)); };
      s.fams.push_back(f); }
    { Family f; f.name = "order"; f.count = 156;
      f.run = [=](uint64_t i, Ctx &c) {     // all pairs of strings of up to 3 of 5 bytes, and long common prefixes
        static const char A[] = {0, 1, 0x7f, (char)0x80, (char)0xff}; std::vector<std::string> S{""}; for (size_t k = 0; k < S.size(); k++) if (S[k].size() < 3) for (char ch : A) S.push_back(S[k] + ch);
        for (unsigned pre : {0u, 1u, 255u, 256u, 5000u}) for (auto &t : S) {
          std::string x = std::string(pre, 'p') + S[i], y = std::string(pre, 'p') + t; char *p = (char *)malloc(x.size() + !x.size()), *q = (char *)malloc(y.size() + !y.size()); memcpy(p, x.data(), x.size()); memcpy(q, y.data(), y.size());
          FFDB_DBT a, b; a.data = p; a.size = x.size(); b.data = q; b.size = y.size(); int w = x < y ? -1 : x > y, r = &__ffdb_default_cmp ? __ffdb_default_cmp(&a, &b) : w; c.transitions++; free(p); free(q);
          if ((r > 0) - (r < 0) != w) { c.f("order", "keys of %zu and %zu bytes compare as %d", x.size(), y.size(), r); return; } }
        c.nontrivial = true; c.states.push_back(mix(i, 99)); };
      s.fams.push_back(f); }
    All<12>::go(s, T);
  });
}
