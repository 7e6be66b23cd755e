// P13: only a valid database opens; a refused open leaves the file and the process as they were.
#include "kv.h"
#include "fmt.h"
#include <dirent.h>
#include <sys/wait.h>
static void waitpid_(pid_t p, int *st) { while (waitpid(p, st, 0) < 0) {} }
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static std::string slurp(const std::string &p) {
  std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static void spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static bool mkdb(KV &k, int n) {
  if (!k.create()) return false;
  for (int j = 0; j < n; j++) if (!k.put(mkkey(j, 150), mkval(j, 0, 200))) return false;
  return k.close();
}
// The open must not succeed. Ending the process with a message is this library's way to report a damaged header.
static void mustrefuse(KV &k, int flags, const char *what, bool cmpfile = true) {
  std::string before = cmpfile ? slurp(k.path) : "";
  int f0 = nfds();
  for (int rep = 0; rep < 3; rep++) {
    k.c.transitions++;
    pid_t p = fork();      // a refusal may end the process
    if (p == 0) {
      FFDB_DB *d = k.rawopen(flags);
      if (d) _exit(42);
      _exit(nfds() > f0 + 0 ? 44 : 0);
    }
    int st; waitpid_(p, &st);
    k.c.t("open %s -> %s %d", what, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    if (WIFSIGNALED(st)) { k.c.f("open-crash", "open of %s ended with signal %d", what, WTERMSIG(st)); return; }
    if (WEXITSTATUS(st) == 42) { k.c.f("open-accepted", "open of %s succeeded", what); return; }
    if (WEXITSTATUS(st) == 44) { k.c.f("open-fd-leak", "refused open of %s leaves a file descriptor open", what); return; }
    if (WEXITSTATUS(st) == 99) { k.c.f("open-memory", "open of %s: sanitizer report", what); return; }
    if (cmpfile && slurp(k.path) != before) { k.c.f("file-changed", "refused open of %s changed the file", what); return; }
    k.c.outcome = mix(k.c.outcome, st);
  }
}
int main(int a, char **v) {
  return mc_main(a, v, "P13", [](Suite &s, const std::string &tier) {
    bool T = tier == "thorough"; (void)T;
    { Family f; f.name = "truncated-header"; f.count = 332 * 2;       // every length shorter than a header
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned n = r.take(332); int m = r.take(2) ? O_RDWR : O_RDONLY;
        KV k(c, Cfg()); if (!mkdb(k, 4)) return;
        std::string s = slurp(k.path).substr(0, n); spit(k.path, s);
        char w[64]; snprintf(w, sizeof w, "a file of %u bytes", n);
        mustrefuse(k, m, w); c.nontrivial = true; c.states.push_back(mix(1, n));
      };
      s.fams.push_back(f); }
    { Family f; f.name = "header-fields"; f.count = 83 * 6 * 2 * 2;       // every word of the header changed, checksum not adjusted
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned w = r.take(83), how = r.take(6); int m = r.take(2) ? O_RDWR : O_RDONLY;
        KV k(c, Cfg()); if (!mkdb(k, r.take(2) ? 0 : 4)) return;
        std::string s = slurp(k.path); unsigned char *q = (unsigned char *)&s[w * 4]; unsigned char old[4]; memcpy(old, q, 4);
        switch (how) { case 0: q[0] ^= 1; break; case 1: q[1] ^= 0x80; break; case 2: q[2] ^= 0x10; break; case 3: q[3] ^= 1; break; case 4: q[0] = ~q[0]; q[1] = ~q[1]; q[2] = ~q[2]; q[3] = ~q[3]; break; case 5: memset(q, old[0] || old[1] || old[2] || old[3] ? 0 : 0xff, 4); break; }
        spit(k.path, s);
        char nm[64]; snprintf(nm, sizeof nm, "a file with header word %u damaged", w);
        mustrefuse(k, m, nm); c.nontrivial = true; c.states.push_back(mix(2, i));
      };
      s.fams.push_back(f); }
    { Family f; f.name = "identity"; f.count = 12 * 2 * 5 * 3 * 2 * 3;     // consistent header, but not one this program may use
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); unsigned w = r.take(12); int m = r.take(2) ? O_RDWR : O_RDONLY;
        static const int NK[] = {4, 0, 1, 2, 40}; int nk = NK[r.take(5)]; Cfg g; static const unsigned NBS[] = {1, 4, 32}; g.nb = NBS[r.take(3)]; g.rearr = r.take(2);
        static const unsigned BSZ[] = {512, 1024, 8192}; g.bsize = BSZ[r.take(3)];
        KV k(c, g); if (!mkdb(k, nk)) return;
        Img im; im.load(k.path); const char *nm = "";
        switch (w) {
          case 0: im.s32(0, 0xcece3435); nm = "a file with another magic number"; break;
          case 1: im.s32(0, 0x3434cece); nm = "a file with the magic number reversed"; break;
          case 2: im.s32(0, 0x061561); nm = "a Berkeley DB magic number"; break;
          case 3: im.s32(4, 4); nm = "version 4"; break;
          case 4: im.s32(4, 7); nm = "version 7"; break;
          case 5: im.s32(4, 0); nm = "version 0"; break;
          case 6: im.s32(4, 0x06000000); nm = "version in the other byte order"; break;
          case 7: im.s32(64, im.h32(64) + 1); nm = "a file made with another hash function"; break;
          case 8: k.cfg.hash = H_CONST; nm = "a file with the wrong hash function given"; break;
          case 9: k.cfg.hash = H_ID; nm = "a file with the wrong hash function given"; break;
          case 10: im.b.push_back('x'); nm = "a file that is not a whole number of pages"; break;
          case 11: im.b.resize(im.b.size() - 1); nm = "a file one byte short of a whole page"; break;
        }
        im.header_crc(); im.save(k.path);
        mustrefuse(k, m, nm); c.nontrivial = true; c.states.push_back(mix(3, i));
      };
      s.fams.push_back(f); }
    { Family f; f.name = "environment"; f.count = 14;
      f.run = [](uint64_t w, Ctx &c) {
        KV k(c, Cfg()); if (!mkdb(k, 4)) return;
        std::string good = k.path, before = slurp(k.path);
        switch (w) {
          case 0: k.path = c.dir + "/nosuchfile"; mustrefuse(k, O_RDONLY, "a missing file", false); break;
          case 1: k.path = c.dir + "/nosuchfile"; mustrefuse(k, O_RDWR, "a missing file", false); break;
          case 2: k.path = c.dir + "/nodir/x"; mustrefuse(k, O_RDWR | O_CREAT, "a file in a missing directory", false); break;
          case 3: k.path = c.dir; mustrefuse(k, O_RDONLY, "a directory", false); break;
          case 4: mustrefuse(k, O_WRONLY, "a file write-only"); break;
          case 5: mustrefuse(k, O_RDWR | O_CREAT | O_EXCL, "an existing file exclusively"); break;
          case 6: { FFDB_HASHINFO h = k.info(); if (ffdb_dbopen(0, O_RDONLY, 0, &h)) c.f("open-accepted", "null name"); break; }
          case 7: k.path = c.dir + "/n1"; k.cfg.bsize = 2097152; mustrefuse(k, O_RDWR | O_CREAT | O_TRUNC, "a page size beyond the maximum", false); break;
          case 8: k.path = c.dir + "/n2"; k.cfg.bsize = 128; mustrefuse(k, O_RDWR | O_CREAT | O_TRUNC, "a page too small for the header", false); break;
          case 9: k.path = c.dir + "/n3"; k.cfg.bsize = 256; mustrefuse(k, O_RDWR | O_CREAT | O_TRUNC, "a page too small for the header", false); break;
          case 10: spit(k.path, std::string(4096, 0)); before = ""; mustrefuse(k, O_RDONLY, "a file of zeros"); break;
          case 11: spit(k.path, std::string(4096, 'a')); before = ""; mustrefuse(k, O_RDWR, "a text file"); break;
          case 12: { // wrong hints do not hurt a valid file
            k.cfg.bsize = 4096; k.cfg.nb = 64; k.cfg.uil = 9; k.cfg.nc = 77; if (!k.open(O_RDONLY) || !k.checkall() || !k.close()) return; break; }
          case 13: { FFDB_DB *d = ffdb_dbopen(k.path.c_str(), O_RDONLY, 0, 0); if (!d) { c.f("open-refused", "open without info"); break; } k.db = d; k.oflags = O_RDONLY; if (!k.checkall()) return; k.close(); break; }
        }
        if (c.failed()) return;
        if (w < 6 && slurp(good) != before) { c.f("file-changed", "refused open changed an existing file"); return; }
        if (w != 10 && w != 11) { k.path = good; k.cfg = Cfg(); if (!k.open(O_RDWR) || !k.checkall() || !k.close()) return; }
        c.nontrivial = true; c.states.push_back(mix(4, w));
      };
      s.fams.push_back(f); }
    { // opening modes on an existing file: O_CREAT keeps it, O_TRUNC empties it; every history of up to three opens
      Family f; f.name = "modes"; f.count = 4 * 4 * 4 * 3;
      f.run = [](uint64_t i, Ctx &c) {
        Radix r(i); static const int fl[] = {O_RDWR, O_RDWR | O_CREAT, O_RDONLY, O_RDWR | O_CREAT | O_TRUNC};
        unsigned o[3]; for (unsigned x = 0; x < 3; x++) o[x] = r.take(4); int n = r.take(3) * 5;
        KV k(c, Cfg()); if (!mkdb(k, n)) return;
        for (unsigned x = 0; x < 3; x++) {
          if (!k.open(fl[o[x]]) || !k.checkall() || !k.scan(0) || !k.absent(mkkey(0xabc, 40))) return;
          if (!k.put(mkkey(100 + x, 90), mkval(x, 0, 70)) || !k.checkall()) return;     // refused on a read-only handle
          k.state(); if (!k.close()) return;
        }
        if (!k.open(O_RDONLY) || !k.checkall() || !k.scan(0) || !k.close()) return;
        c.nontrivial = true;
      };
      s.fams.push_back(f); }
  });
}
