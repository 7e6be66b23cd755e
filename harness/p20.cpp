// P20: objects survive their binary form exactly, the form is the same on every machine, and nothing else is taken for it.
#include "typed.h"
#include "VFloatData.h"
#include "ConfigInfo.h"
#include "HashFunc.h"
#include "FileDB.h"
// exactly as long as its content: reading past the end is seen by the sanitizer
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
static std::string exact(const std::string &s) { std::string r; r.reserve(s.size() + 64); r.append(s); __asan_poison_memory_region(r.data() + s.size() + 1, r.capacity() - s.size()); return r; }
template <class T> struct Head; 
template <> struct Head<StringKey> { static unsigned id() { return 102; } static unsigned magic() { return 0x11ff; } };
template <> struct Head<UserData> { static unsigned id() { return 0x1144; } static unsigned magic() { return 0x11ff; } };
static std::string be(unsigned v, int n) { std::string s; while (n--) s += (char)(v >> (8 * n)); return s; }
template <class T> static bool trip(Ctx &c, const std::string &s) {
  T a(s), copy(a), asg; asg = a; std::string o = "previous content", o2; a.writeObject(o); T fresh("other"); fresh.readObject(exact(o)); fresh.writeObject(o2); c.transitions++;
  std::string hdr = be(Head<T>::magic(), 2) + be(Head<T>::id(), 2);
  if (o != hdr + s) { c.f("form", "binary form of %zu bytes is not magic, id and the bytes", s.size()); return false; }
  if ((std::string)fresh != s || o2 != o || !(fresh == a) || fresh != a || (std::string)copy != s || (std::string)asg != s) { c.f("trip", "a string of %zu bytes changed", s.size()); return false; }
  T other(s + "x"); if (other == a || !(other != a)) { c.f("compare", "different objects compare equal"); return false; }
  c.states.push_back(h64(o.data(), o.size())); return true;
}
template <class T> static bool refuse(Ctx &c, const std::string &b) {
  T a("kept"); bool thrown = false; c.transitions++; try { a.readObject(exact(b)); } catch (SerializeException &e) { thrown = true; if (!e.what() || !*e.what()) { c.f("what", "no reason"); return false; } }
  if (!thrown) { c.f("taken", "%zu bytes that are no such object were decoded", b.size()); return false; }
  if ((std::string)a != "kept") { c.f("half", "a failed decode changed the object"); return false; }
  return true;
}
template <class T> static void strings(Suite &su, const char *name) {
  Family f; f.name = std::string(name) + "-bytes"; f.count = 257;     // every string of length 0, 1, 2 and every length to 5000 at some content
  f.run = [](uint64_t i, Ctx &c) {
    if (i == 256) { for (unsigned n = 0; n <= 5000; n += n < 300 ? 1 : 37) if (!trip<T>(c, pat(n, 5, n))) return; if (!trip<T>(c, "") || !trip<T>(c, pat(1, 1, 1 << 20))) return; }
    else { if (!trip<T>(c, std::string(1, (char)i))) return; for (unsigned j = 0; j < 256; j++) { std::string s; s += (char)i; s += (char)j; if (!trip<T>(c, s)) return; } }
    c.nontrivial = true; c.outcome = i == 256; };
  su.fams.push_back(f);
  Family g; g.name = std::string(name) + "-refused"; g.count = 16;
  g.run = [](uint64_t i, Ctx &c) {
    std::string h = be(Head<T>::magic(), 2) + be(Head<T>::id(), 2);
    for (unsigned n = 0; n < 4; n++) { if (!refuse<T>(c, h.substr(0, n)) || !refuse<T>(c, pat(i, n, n))) return; }
    // every wrong value of two of the four header bytes (all others right), for all pairs of positions
    for (int p = 0; p < 4; p++) for (int q = p; q < 4; q++) for (unsigned x = i; x < 256; x += 16) for (unsigned y = 0; y < 256; y++) { std::string b = h + "abc"; b[p] = (char)x; b[q] = (char)y; if (b.compare(0, 4, h) == 0) continue; if (!refuse<T>(c, b)) return; }
    c.nontrivial = true; c.states.push_back(i); };
  su.fams.push_back(g);
}
static bool vtrip(Ctx &c, const std::vector<uint32_t> &bits) {
  std::string in = be(0x6677, 2) + be(0, 2) + be(bits.size(), 4); in.reserve(8 + bits.size() * 4); for (auto b : bits) in += be(b, 4);
  VFloatData a; a.readObject(exact(in)); VFloatData cp(a), as; as = cp; std::string o; as.writeObject(o); c.transitions++;
  const std::vector<float> &v = as; if (v.size() != bits.size() || as.numberOfElements() != (int)bits.size()) { c.f("float", "%zu elements became %zu", bits.size(), v.size()); return false; }
  for (size_t i = 0; i < v.size(); i++) { uint32_t x; memcpy(&x, &v[i], 4); if (x != bits[i]) { c.f("float", "value with bits %08x came back as %08x", bits[i], x); return false; } }
  if (o != in) { c.f("float-form", "the binary form changed"); return false; }
  return true;
}
static void floats(Suite &su, bool T) {
  Family f; f.name = "floats"; f.count = 65536 / 64;
  f.run = [T](uint64_t i, Ctx &c) {   // all 2^16 upper halves x (thorough: all, quick: 64) lower halves
    for (unsigned u = i * 64; u < i * 64 + 64; u++) { std::vector<uint32_t> b; unsigned n = T ? 65536 : 64; for (unsigned j = 0; j < n; j++) { unsigned lo = T ? j : j < 16 ? 1u << j : j < 32 ? 65535u ^ (1u << (j - 16)) : (j * 40503u) & 65535; b.push_back(u << 16 | lo); } if (!vtrip(c, b)) return; }
    c.nontrivial = true; c.states.push_back(i); };
  su.fams.push_back(f);
  Family g; g.name = "float-sizes"; g.count = 300;
  g.run = [](uint64_t i, Ctx &c) {
    { float x = 1.5f * i - 7.25f; VFloatData d((unsigned)i, x), e; std::string o; d.writeObject(o); e.readObject(exact(o)); const std::vector<float> &v = e; bool ok = v.size() == i && e == d && !(e != d); for (float y : v) ok = ok && y == x; std::string o2; d.writeObject(o2); if (!ok || o2 != o || o.size() != 8 + 4 * i) { c.f("float", "%d equal values did not survive", (int)i); return; }
      VFloatData z((unsigned)i + 1, x); if (z == d || !(z != d)) { c.f("compare", "different vectors compare equal"); return; } }
    // every wrong total length and count, every wrong id
    std::string in = be(0x6677, 2) + be(0, 2) + be(i, 4) + pat(3, i, i * 4);
    for (size_t n = 0; n <= in.size() + 4; n++) { if (n == in.size()) continue; std::string b = n < in.size() ? in.substr(0, n) : in + std::string(n - in.size(), 'x'); VFloatData a; bool th = false; c.transitions++; try { a.readObject(exact(b)); } catch (SerializeException &) { th = true; } if (!th || a.numberOfElements()) { c.f("taken", "a vector of %d values was decoded from %zu bytes", (int)i, n); return; } }
    for (unsigned w = 0; w < 16; w++) { std::string b = in; b[w / 8] ^= 1 << (w % 8); VFloatData a; bool th = false; try { a.readObject(exact(b)); } catch (SerializeException &) { th = true; } if (!th) { c.f("taken", "another serial id was accepted"); return; } }
    for (unsigned w = 0; w < 32; w++) { uint32_t n2 = (uint32_t)i ^ (1u << w); std::string b = in.substr(0, 4) + be(n2, 4) + in.substr(8); VFloatData a; bool th = false; try { a.readObject(exact(b)); } catch (SerializeException &) { th = true; } if (!th) { c.f("taken", "a wrong count %u was accepted", n2); return; } }
    c.nontrivial = true; c.states.push_back(i); };
  su.fams.push_back(g);
}
static void orders(Suite &su, bool T) {
  Family f; f.name = "byte-order"; f.count = 256;
  f.run = [T](uint64_t i, Ctx &c) {
    for (unsigned j = 0; j < 256; j++) { unsigned short s = i << 8 | j; unsigned short h = hton_short(s); unsigned char *p = (unsigned char *)&h; if (p[0] != i || p[1] != j || ntoh_short(h) != s) { c.f("order", "short %04x", s); return; } c.transitions++; }
    uint32_t hi = (uint32_t)i << 24; uint32_t step = T ? 1 : 251;   // thorough: all 2^32
    for (uint32_t j = 0; j < 1u << 24; j += step) { uint32_t v = hi | j, n = hton_int(v); if (n != __builtin_bswap32(v) || ntoh_int(n) != v) { c.f("order", "int %08x", v); return; } }
    c.transitions += (1u << 24) / step;
    for (int l = 0; l < 8; l++) for (int m = 0; m < 8; m++) for (unsigned y = 0; y < 256; y++) { unsigned long v = 0x0102030405060708ul; ((unsigned char *)&v)[l] = i; ((unsigned char *)&v)[m] = y; unsigned long n = hton_long(v); if (n != __builtin_bswap64(v) || ntoh_long(n) != v) { c.f("order", "long %016lx", v); return; } }
    { // crc32: all buffers of one and two bytes and all splits of longer ones, against the definition bit by bit
      auto ref = [](uint32_t crc, const std::string &s) { crc = ~crc; for (unsigned char ch : s) { crc ^= ch; for (int k = 0; k < 8; k++) crc = crc >> 1 ^ (crc & 1 ? 0xedb88320u : 0); } return ~crc; };
      crc32_init(); for (unsigned j = 0; j < 256; j++) { std::string s; s += (char)i; s += (char)j; for (uint32_t p : {0u, 9u, 0xffffffffu, (uint32_t)(i * 0x01234567)}) if (FILEDB::crc32(p, s.data(), 2) != ref(p, s)) { c.f("crc", "check sum of %02x %02x", (unsigned)i, j); return; } }
      std::string s = pat(i, 1, i); uint32_t w = ref(0, s); for (size_t k = 0; k <= s.size(); k++) if (FILEDB::crc32(FILEDB::crc32(0, s.data(), k), s.data() + k, s.size() - k) != w) { c.f("crc", "check sum split at %zu", k); return; } crc32_init(); if (FILEDB::crc32(0, s.data(), s.size()) != w) { c.f("crc", "check sum after a second init"); return; } }
    { // hash functions depend on exactly the given bytes
      typedef unsigned (*H)(char *, unsigned); static const H hs[] = {RSHash, JSHash, PJWHash, ELFHash, BKDRHash, SDBMHash, DJBHash, DEKHash, BPHash, FNVHash, APHash, db_hash_func};
      std::string s = pat(i, 2, i); for (H h : hs) { char *x = (char *)malloc(i ? i : 1), *y = (char *)malloc(i ? i : 1); memcpy(x, s.data(), i); memcpy(y, s.data(), i); unsigned a = h(x, i), b = h(y, i); bool same = !memcmp(x, s.data(), i); free(x); free(y); if (a != b || !same) { c.f("hash", "a hash function is not a function"); return; } } }
    c.nontrivial = true; c.states.push_back(i); };
  su.fams.push_back(f);
}
static void configinfo(Suite &su) {
  Family f; f.name = "config-info"; f.count = 6 * 6 * 6 * 6 * 6 * 4;
  f.run = [](uint64_t i, Ctx &c) {
    static const int V[] = {0, 1, -1, 4096, 2147483647, -2147483647 - 1}; static const std::string N[] = {"", "name", "N/A", std::string(200, 'z')};
    Radix r(i); int a = V[r.take(6)], b = V[r.take(6)], d = V[r.take(6)], e = V[r.take(6)], g = V[r.take(6)]; std::string n = N[r.take(4)];
    ConfigInfo x; x.configNumber(a); x.index(b); x.insert(d); x.type(e); x.modifiedTime(g); x.urlname(n); ConfigInfo y(x), z; z = y; z = *&z; c.transitions++;
    for (auto *q : {&x, &y, &z}) if (q->configNumber() != a || q->index() != b || q->inserted() != d || q->type() != e || q->modifiedTime() != g || q->urlname() != n) { c.f("config", "a configuration record changed in copying"); return; }
    std::ostringstream o; o << x; if (o.str().empty()) { c.f("config", "nothing printed"); return; }
    c.nontrivial = true; c.outcome = d; c.states.push_back(i); };
  su.fams.push_back(f);
}
int main(int a, char **v) {
  return mc_main(a, v, "P20", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    strings<StringKey>(s, "key"); strings<UserData>(s, "data"); floats(s, T); orders(s, T); configinfo(s);
  });
}
