#include "mc.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

void Ctx::f(const char *cls, const char *fmt, ...) {
  if (!fail.empty()) return;
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  klass = cls; fail = b; if (fail.empty()) fail = cls;
}
void Ctx::t(const char *fmt, ...) {
  if (!want_trace) return;
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (live) { printf("%s\n", b); fflush(stdout); return; }
  trace += b; trace += "\n";
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const uint64_t NSLOT = 1ull << 23;
struct Rec { int fam; uint64_t idx; char cls[96]; char msg[1024]; int kind; };
static const int MAXREC = 256;
struct Shared {
  std::atomic<uint64_t> next[64];
  std::atomic<uint64_t> done[64];
  std::atomic<uint64_t> transitions, nstates, noutcomes, nontrivial, cases, executions;
  std::atomic<int> nrec, stop, ncrash;
  Rec rec[MAXREC];
  struct { std::atomic<int64_t> fam; std::atomic<uint64_t> idx; std::atomic<uint64_t> started; } cur[64];
  std::atomic<uint64_t> st[NSLOT], oc[NSLOT / 8];
};
static Shared *S;
static void insert(std::atomic<uint64_t> *tab, uint64_t n, std::atomic<uint64_t> &cnt, uint64_t h) {
  if (!h) h = 1;
  uint64_t p = h % n;
  for (int k = 0; k < 64; k++) {
    uint64_t e = tab[p].load(std::memory_order_relaxed);
    if (e == h) return;
    if (e == 0) {
      uint64_t z = 0;
      if (tab[p].compare_exchange_strong(z, h)) { cnt++; return; }
      if (z == h) return;
    }
    p = (p + 1) % n;
  }
}
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rmtree(const std::string &d) { nftw(d.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); }
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static std::string scratch_root() {
  const char *e = getenv("MC_SCRATCH");
  std::string base = e ? e : "/dev/shm";
  if (access(base.c_str(), W_OK) != 0) base = "/tmp";
  std::string t = base + "/fdbmc.XXXXXX";
  if (!mkdtemp(&t[0])) { t = "/tmp/fdbmc.XXXXXX"; if (!mkdtemp(&t[0])) { perror("mkdtemp"); exit(3); } }
  return t;
}
static void cleandir(const std::string &d) {
  DIR *h = opendir(d.c_str()); if (!h) return;
  while (dirent *e = readdir(h)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string p = d + "/" + e->d_name;
    if (unlink(p.c_str()) != 0) rmtree(p);
  }
  closedir(h);
}
static void account(Ctx &c) {
  S->transitions += c.transitions;
  for (uint64_t s : c.states) insert(S->st, NSLOT, S->nstates, s);
  insert(S->oc, NSLOT / 8, S->noutcomes, c.outcome);
  if (c.nontrivial) S->nontrivial++;
  S->cases++; S->executions += c.executions;
}
static void record(int fam, uint64_t idx, const std::string &cls, const std::string &msg, int kind) {
  int same = 0, n = S->nrec; if (n > MAXREC) n = MAXREC;
  for (int i = 0; i < n; i++) if (S->rec[i].fam == fam && !strncmp(S->rec[i].cls, cls.c_str(), sizeof(S->rec[i].cls) - 1)) same++;
  if (same >= 12) { if (kind && ++S->ncrash > 400) S->stop = 1; return; }
  int k = S->nrec++;
  if (k >= MAXREC) { S->stop = 1; return; }
  Rec &r = S->rec[k];
  r.fam = fam; r.idx = idx; r.kind = kind;
  snprintf(r.cls, sizeof r.cls, "%s", cls.c_str());
  snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
}
static std::string describe_status(int st) {
  char b[64];
  if (WIFEXITED(st)) snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st));
  else if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal:%d", WTERMSIG(st));
  else snprintf(b, sizeof b, "status:%d", st);
  return b;
}
// Exit code of a worker that has seen a violation in this case and left a record itself
static void run_case(Suite &su, int fi, uint64_t idx, Ctx &c) {
  cleandir(c.dir);
  alarm(su.fams[fi].timeout);
  su.fams[fi].run(idx, c);
  alarm(0);
}
static bool run_isolated(Suite &su, int fi, uint64_t idx, const std::string &dir, bool report) {
  pid_t p = fork();
  if (p == 0) {
    Ctx c; c.dir = dir;
    run_case(su, fi, idx, c);
    account(c);
    if (c.failed()) record(fi, idx, c.klass, c.fail, 0);
    fflush(stdout);
    _exit(c.failed() ? 77 : 0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77)) return true;
  if (report) record(fi, idx, "crash:" + describe_status(st), "process ended: " + describe_status(st), 1);
  return false;
}
enum { RENEW = 88 };
static long resident() { long a = 0, b = 0; FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024; }
static void worker(Suite &su, int w, const std::string &root, int nfam) {
  std::string dir = root + "/w" + std::to_string(w);
  mkdir(dir.c_str(), 0700);
  if (!getenv("MC_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
  uint64_t n = 0;
  for (int fi = 0; fi < nfam; fi++) {
    Family &f = su.fams[fi];
    for (;;) {
      if (S->stop) _exit(0);
      uint64_t idx = S->next[fi]++;
      if (idx >= f.count) break;
      S->cur[w].idx = idx; S->cur[w].fam = fi; 
      if (f.isolate) run_isolated(su, fi, idx, dir, true);
      else {
        Ctx c; c.dir = dir;
        run_case(su, fi, idx, c);
        account(c);
        if (c.failed()) record(fi, idx, c.klass, c.fail, 0);
      }
      S->cur[w].fam = -1;
      S->done[fi]++;
      // what the code under test leaves behind when it ends in the middle of a call is given back by a new process
      if (++n % 16 == 0 && resident() > 400) _exit(RENEW);
    }
  }
  _exit(0);
}
static int find_fam(Suite &su, const std::string &n) {
  for (size_t i = 0; i < su.fams.size(); i++) if (su.fams[i].name == n) return (int)i;
  return -1;
}

int mc_main(int argc, char **argv, const std::string &prop, SuiteBuilder build) {
  std::string mode = argc > 1 ? argv[1] : "";
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  signal(SIGPIPE, SIG_IGN);
  Suite su; su.prop = prop;
  if (mode == "one" && argc >= 4) {   // one FAMILY IDX [traced]
    if (argc >= 5) tier = argv[4];
    build(su, tier);
    int fi = find_fam(su, argv[2]);
    if (fi < 0) { fprintf(stderr, "no family %s\n", argv[2]); return 3; }
    std::string root = scratch_root();
    pid_t p = fork();
    if (p == 0) {
      Ctx c; c.dir = root; c.want_trace = true; c.live = true;
      setvbuf(stdout, 0, _IOLBF, 0);
      run_case(su, fi, strtoull(argv[3], 0, 10), c);
      printf("%s", c.trace.c_str());
      if (c.failed()) printf("FAIL class=%s %s\n", c.klass.c_str(), c.fail.c_str());
      else printf("HELD\n");
      fflush(stdout);
      _exit(c.failed() ? 77 : 0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    rmtree(root);
    if (WIFEXITED(st)) { int e = WEXITSTATUS(st); if (e == 0) return 0; if (e == 77) return 1; }
    printf("FAIL class=crash:%s process ended\n", describe_status(st).c_str());
    return 1;
  }
  if (mode == "list") {
    build(su, tier);
    for (auto &f : su.fams) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.count);
    return 0;
  }
  if (mode != "run" || argc < 3) { fprintf(stderr, "usage: run OUT.json | one FAM IDX [tier] | list\n"); return 3; }
  std::string out = argv[2];
  int W = getenv("MC_JOBS") ? atoi(getenv("MC_JOBS")) : 8;
  build(su, tier);
  const char *only = getenv("MC_ONLY");
  if (only) {
    std::vector<Family> k;
    for (auto &f : su.fams) if (f.name.find(only) != std::string::npos) k.push_back(f);
    su.fams = k;
  }
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  for (auto &c : S->cur) c.fam = -1;
  std::string root = scratch_root();
  double t0 = now();
  double budget = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET")) : 1e9;
  int nf = (int)su.fams.size();
  std::vector<pid_t> pid(W);
  auto spawn = [&](int w) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) worker(su, w, root, nf);
    pid[w] = p;
  };
  for (int w = 0; w < W; w++) spawn(w);
  int live = W;
  bool capped = false;
  // after the first suspect a bounded time is left to find other classes of failure; what still runs then is ended
  double after = getenv("MC_AFTER") ? atof(getenv("MC_AFTER")) : 1e9, tsus = 0, tstop = 0;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(2000);
      double t = now();
      if (S->nrec > 0 && tsus == 0) tsus = t;
      if (!S->stop && (t - t0 > budget || (tsus > 0 && t - tsus > after))) { S->stop = 1; capped = true; }
      if (S->stop && tstop == 0) tstop = t;
      if (tstop > 0 && S->nrec > 0 && t - tstop > 10 && after < 1e8) { 
        for (int i = 0; i < W; i++) { S->cur[i].fam = -1; kill(pid[i], SIGKILL); }
        tstop = t + 5;
      }
      continue;
    }
    if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < W; i++) if (pid[i] == p) w = i;
    if (w < 0) continue;
    int64_t cf = S->cur[w].fam;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && cf < 0) { live--; continue; }
    // the case under way took the worker down
    if (cf >= 0) {
      record((int)cf, S->cur[w].idx, "crash:" + describe_status(st), "process ended: " + describe_status(st), 1);
      S->cases++; S->done[cf]++;
      S->cur[w].fam = -1;
    }
    if (S->stop) live--; else spawn(w);
  }
  int nrec = S->nrec; if (nrec > MAXREC) nrec = MAXREC;
  double wall = now() - t0;
  FILE *o = fopen(out.c_str(), "w");
  if (!o) { perror(out.c_str()); return 3; }
  bool complete = !capped;
  fprintf(o, "{\"property\":\"%s\",\"tier\":\"%s\",\"wall_s\":%.2f,\"cases\":%llu,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"nontrivial\":%llu,\n\"families\":[",
          prop.c_str(), tier.c_str(), wall, (unsigned long long)S->cases, (unsigned long long)S->executions, (unsigned long long)S->transitions,
          (unsigned long long)S->nstates, (unsigned long long)S->noutcomes, (unsigned long long)S->nontrivial);
  for (int i = 0; i < nf; i++) {
    if (S->done[i] < su.fams[i].count) complete = false;
    fprintf(o, "%s{\"name\":\"%s\",\"count\":%llu,\"done\":%llu}", i ? "," : "", su.fams[i].name.c_str(),
            (unsigned long long)su.fams[i].count, (unsigned long long)S->done[i]);
  }
  fprintf(o, "],\n\"complete\":%s,\n\"suspects\":[", complete ? "true" : "false");
  for (int i = 0; i < nrec; i++) {
    Rec &r = S->rec[i];
    fprintf(o, "%s{\"family\":\"%s\",\"idx\":%llu,\"class\":\"%s\",\"msg\":\"%s\",\"kind\":%d}", i ? ",\n" : "",
            su.fams[r.fam].name.c_str(), (unsigned long long)r.idx, jesc(r.cls).c_str(), jesc(r.msg).c_str(), r.kind);
  }
  fprintf(o, "],\n\"samples\":[");
  fflush(o);
  // re-run a few cases to write them out
  bool first = true;
  for (int i = 0; i < nf; i++) {
    if (!su.fams[i].count) continue;
    uint64_t idx = su.fams[i].count / 2;
    int pp[2]; if (pipe(pp)) break;
    fflush(o); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      close(pp[0]);
      int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1);
      Ctx c; c.dir = root; c.want_trace = true; 
      run_case(su, i, idx, c);
      std::string t = c.trace.substr(0, 1500);
      if (write(pp[1], t.data(), t.size()) < 0) {}
      _exit(0);
    }
    close(pp[1]);
    std::string t; char b[4096]; ssize_t n;
    while ((n = read(pp[0], b, sizeof b)) > 0) t.append(b, n);
    close(pp[0]);
    int st; waitpid(p, &st, 0);
    fprintf(o, "%s{\"family\":\"%s\",\"idx\":%llu,\"history\":\"%s\"}", first ? "" : ",\n", su.fams[i].name.c_str(),
            (unsigned long long)idx, jesc(t).c_str());
    first = false;
  }
  fprintf(o, "]}\n");
  fclose(o);
  rmtree(root);
  return 0;
}
