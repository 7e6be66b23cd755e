// Bounded-exhaustive exploration runner.
// A suite is a list of families; a family is a finite, indexed set of cases (histories / schedules / faults).
// Every case index in [0,count) is executed exactly once, each in a worker process, so that a crash,
// an exit() or a hang of the code under test is an observation of that case and not of the run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Ctx {
  std::string fail;            // first violation of this case ("" = held)
  std::string trace;           // readable history of this case
  std::string klass;           // stable class of the violation (for known findings)
  bool want_trace = false, live = false;
  std::string dir;             // private scratch directory
  uint64_t transitions = 0;    // operations performed on the implementation
  std::vector<uint64_t> states;// hashes of abstract states visited
  uint64_t outcome = 0;        // hash of what was observed
  bool nontrivial = false;
  uint64_t executions = 1;      // executions of the implementation this case stands for (schedules, faults)
  bool failed() const { return !fail.empty(); }
  void f(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void t(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Family {
  std::string name;
  uint64_t count = 0;
  std::function<void(uint64_t, Ctx &)> run;
  bool isolate = false;  // run every case in its own process
  int timeout = 20;      // seconds per case
};

struct Suite {
  std::string prop;
  std::vector<Family> fams;
};

typedef std::function<void(Suite &, const std::string &tier)> SuiteBuilder;
int mc_main(int argc, char **argv, const std::string &prop, SuiteBuilder b);

static inline uint64_t h64(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  while (n--) { h ^= *c++; h *= 1099511628211ull; }
  return h;
}
static inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a ^= a >> 29; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 32;
  return a;
}
// decode a mixed-radix index
struct Radix {
  uint64_t v;
  explicit Radix(uint64_t x) : v(x) {}
  unsigned take(unsigned n) { unsigned r = v % n; v /= n; return r; }
};
