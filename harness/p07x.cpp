// P07, second part: threads that read through one typed store (or copies of it) each see the stored objects, under every schedule.
#include "typed.h"
#include "ctlsched.h"
#include <new>
// objects of the store and everything its calls allocate belong to the watched heap
void *operator new(size_t n) { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
typedef ConfDataStoreDB<StringKey, UserData> Plain;
struct Simple : ConfDataStoreDBSimple {
  int insert(const StringKey &k, const UserData &d) { return ConfDataStoreDBSimple::insert<StringKey, UserData>(k, d); }
  int get(const StringKey &k, UserData &d) { return ConfDataStoreDBSimple::get<StringKey, UserData>(k, d); }
  bool exist(const StringKey &k) { return ConfDataStoreDBSimple::exist<StringKey>(k); }
  int getBinary(const std::string &k, std::string &d) { return getBinaryData(db->dbh_, k, d); }
  void keys(std::vector<StringKey> &k) { ConfDataStoreDBSimple::keys<StringKey, UserData>(k); }
  void keysAndData(std::vector<StringKey> &k, std::vector<UserData> &d) { ConfDataStoreDBSimple::keysAndData<StringKey, UserData>(k, d); }
};
static const char *ON[] = {"get", "get big", "get absent", "getBinary", "exist", "keys", "user data", "copy and get", "keys and data"};
enum { NOP = 9, NK = 5 };
static std::string kn(unsigned i) { return "key number " + std::to_string(i); }
static std::string vl(unsigned i) { return pat(i, 3, i + 1 == NK ? 9000 : 30 + i); }
static const char *U = "user data of the store";
template <class S> struct Case {
  std::string path; unsigned cache;
  S *s = 0;
  void put(S &t) {
    if (t.open(path, O_RDWR | O_CREAT | O_TRUNC, 0600) != 0) abort();
    for (unsigned i = 0; i < NK; i++) { StringKey k(kn(i)); UserData d(vl(i)); if (t.insert(k, d) != 0) abort(); }
    if (t.insertUserdata(U) != 0) abort();
    if (t.close() != 0) abort();
  }
  void one(S &t, unsigned i) {
    StringKey k(kn(i)); UserData d("unset"); int rc = t.get(k, d);
    if (i >= NK) { if (rc == 0) sched_fail("phantom", "get of an absent key succeeded"); return; }
    if (rc != 0) { sched_fail("lost-key", "get returned " + std::to_string(rc)); return; }
    if (std::string(d) != vl(i)) sched_fail("wrong-data", "get returned another object");
  }
  void op(unsigned o) {
    switch (o) {
      case 0: one(*s, 1); break;
      case 1: one(*s, NK - 1); break;
      case 2: one(*s, NK + 4); break;
      case 3: { std::string d; if (s->getBinary(bin(StringKey(kn(2))), d) != 0) sched_fail("lost-key", "getBinary failed"); else if (d != bin(UserData(vl(2)))) sched_fail("wrong-data", "getBinary returned other bytes"); break; }
      case 4: if (!s->exist(StringKey(kn(3))) || s->exist(StringKey("absent"))) sched_fail("exist", "exist gives a wrong answer"); break;
      case 5: { std::vector<StringKey> k; s->keys(k); std::set<std::string> e; for (auto &x : k) e.insert(std::string(x)); if (k.size() != NK || e.size() != NK || !e.count(kn(0)) || !e.count(kn(NK - 1))) sched_fail("keys", std::to_string(k.size()) + " keys listed"); break; }
      case 6: { std::string u; if (s->getUserdata(u) != 0 || u != U) sched_fail("userdata", "user data differs"); break; }
      case 7: { S c(*s); one(c, 0); break; }
      case 8: { std::vector<StringKey> k; std::vector<UserData> d; s->keysAndData(k, d); if (k.size() != NK || d.size() != NK) { sched_fail("keys", "keysAndData"); break; } for (unsigned i = 0; i < NK; i++) { bool ok = false; for (unsigned j = 0; j < NK; j++) if (std::string(k[i]) == kn(j)) ok = std::string(d[i]) == vl(j); if (!ok) sched_fail("wrong-data", "keysAndData gives another object"); } break; }
    }
  }
};
template <class S> static void explore(Ctx &c, std::vector<std::vector<unsigned>> prog, unsigned cache, int P) {
  Case<S> w; w.path = c.dir + "/t.db"; w.cache = cache;
  { S t; t.setPageSize(512); t.setNumberBuckets(2); t.setMaxUserInfoLen(100); w.put(t); }
  std::string what;
  for (size_t t = 0; t < prog.size(); t++) { what += " T" + std::to_string(t + 1) + ":"; for (unsigned o : prog[t]) { what += " "; what += ON[o]; } }
  c.t("%s store, cache %u bytes;%s; at most %d preemptions", sizeof(S) == sizeof(Plain) ? "shared" : "simple", cache, what.c_str(), P);
  SchedBounds sb; sb.preempt = P; sb.spurious = 0;
  std::vector<std::function<void()>> bodies;
  for (auto &p : prog) bodies.push_back([&w, &p] { for (unsigned o : p) { w.op(o); if (sched_failed()) return; } });
  SchedResult r = sched_explore(sb,
    [&] { w.s = new S; w.s->setCacheSize(cache); if (w.s->open(w.path, O_RDONLY, 0) != 0) sched_fail("open-refused", "open failed"); },
    bodies,
    [&] { w.op(0); w.op(1); if (w.s->close() != 0) sched_fail("close-failed", "close failed"); delete w.s; });
  c.transitions += r.points; c.executions = r.schedules;
  uint64_t base = h64(what.data(), what.size(), cache);
  for (uint64_t x : r.states) c.states.push_back(mix(base, x));
  c.outcome = mix(r.schedules, base); c.nontrivial = r.schedules > 1;
  if (!r.fail.empty()) { c.t("schedule %s", r.schedule.c_str()); c.f(r.klass.c_str(), "%s [%s] schedule %s", r.fail.c_str(), what.c_str(), r.schedule.c_str()); }
}
int main(int a, char **v) {
  return mc_main(a, v, "P07", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough";
    { Family f; f.name = "typed-store"; f.count = NOP * NOP * 2 * 2; f.timeout = 120;
      f.run = [=](uint64_t i, Ctx &c) {
        Radix r(i); unsigned x = r.take(NOP), y = r.take(NOP); unsigned ca = r.take(2) ? 40 * 512 : 512; bool simple = r.take(2);
        int P = (x == 5 || x == 8) && (y == 5 || y == 8) ? 1 : T ? 2 : 1;
        if (simple) explore<Simple>(c, {{x}, {y}}, ca, P); else explore<Plain>(c, {{x}, {y}}, ca, P);
      };
      s.fams.push_back(f); }
  });
}
