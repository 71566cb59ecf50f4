// Simulation of the speed programs: real main, real sort, simulated time-stamp
// counter and stub products that consume simulated time. One forked child per run.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sstream>
#include <iostream>
typedef unsigned __int128 u128;
#define X(n) extern "C" int prog_##n(void);
PROGRAMS
#undef X
static struct { const char *name; int (*f)(void); } progs[] = {
#define X(n) {#n, prog_##n},
PROGRAMS
#undef X
};
static const char *fam[4] = {"ntt1024_product%d", "naive_ntt1024_product%d", "ntt_red1024_product%d", "ntt_red1024_product%d_asm"};
static const int NF = 20;
static std::string fname(int k) { char b[64]; snprintf(b, sizeof b, fam[k / 5], k % 5 + 1); return b; }

// ------------------------------------------------------------ the simulated clock
static const uint32_t MAXD = 1 << 20;
struct Sh {
  uint64_t now, reads, calls[NF], nd[NF], last, traps;
  int between, who, have;           // calls since the last reading, the last one called
  uint64_t stray;                   // differences that span several calls
  int crash; uint64_t rip, addr;
  int done, rc;
  uint64_t d[NF][MAXD];             // measured differences per routine
};
static Sh *S;
static uint64_t *dur[NF]; static uint64_t durn;      // durations of the calls
static uint64_t readcost;

extern "C" __attribute__((target("general-regs-only"), used)) uint64_t clk_next(void) {
  S->now += readcost;
  uint64_t v = S->now;
  if (S->have && S->between == 1) { int k = S->who; if (S->nd[k] < MAXD) S->d[k][S->nd[k]++] = v - S->last; }
  else if (S->have && S->between > 1) S->stray++;
  S->have = 1; S->between = 0; S->last = v; S->reads++;
  return v;
}
// what rdtsc does: low half in eax, high half in edx, nothing else changes (flags: an asm statement may change them)
asm(".globl clk_read\n clk_read:\n"
    "push %rbp\n mov %rsp,%rbp\n push %rcx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n"
    "and $-16,%rsp\n call clk_next\n mov %rax,%rdx\n shr $32,%rdx\n mov %eax,%eax\n"
    "lea -56(%rbp),%rsp\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rcx\n pop %rbp\n ret\n");
extern "C" __attribute__((target("general-regs-only"))) void clk_call(int k) {
  uint64_t i = S->calls[k]++;
  S->now += dur[k] ? dur[k][i % durn] : 1;
  S->between++; S->who = k;
}
#define ST(f, p, k) extern "C" void f(int32_t *, int32_t *, int32_t *) { clk_call(k); }
#define ST5(a, b, n) ST(a##1##b, , n) ST(a##2##b, , n + 1) ST(a##3##b, , n + 2) ST(a##4##b, , n + 3) ST(a##5##b, , n + 4)
ST5(ntt1024_product, , 0)
ST5(naive_ntt1024_product, , 5)
ST5(ntt_red1024_product, , 10)
ST5(ntt_red1024_product, _asm, 15)

static void on_segv(int, siginfo_t *si, void *u) {
  ucontext_t *c = (ucontext_t *)u;
  greg_t *g = c->uc_mcontext.gregs;
  const uint8_t *ip = (const uint8_t *)g[REG_RIP];
  int len = 0;
  if (si->si_code == SI_KERNEL) {
    if (ip[0] == 0x0f && ip[1] == 0x31) len = 2;
    else if (ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9) len = 3;
  }
  if (len) {
    uint64_t v = clk_next();
    g[REG_RAX] = (uint32_t)v; g[REG_RDX] = v >> 32; if (len == 3) g[REG_RCX] = 0;
    g[REG_RIP] += len;
    S->traps++;
    return;
  }
  S->crash = 1; S->rip = g[REG_RIP]; S->addr = (uint64_t)si->si_addr;
  signal(SIGSEGV, SIG_DFL); raise(SIGSEGV);
}

// ------------------------------------------------------------ clock histories
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint64_t in(uint64_t lo, uint64_t hi) { return lo + (next() >> 3) % (hi - lo + 1); } };
static void killer(std::vector<uint64_t> &v, int at, bool desc, uint64_t base) {
  // the element a quicksort pivoting on the middle (or first, or last) looks at is always extreme
  uint32_t n = v.size();
  std::vector<uint32_t> id(n);
  for (uint32_t i = 0; i < n; i++) id[i] = i;
  for (uint32_t m = n; m; m--) {
    uint32_t p = at == 0 ? m / 2 : at == 1 ? 0 : at == 2 ? m - 1 : (m - 1) / 2;
    uint32_t x = id[p];
    v[x] = base + (desc ? n - m : m);
    id[p] = id[0]; id[0] = id[m - 1]; id[m - 1] = x;
  }
}
static void pattern(std::vector<uint64_t> &v, int kind, uint64_t seed, uint64_t base, uint64_t span) {
  Rng g(seed);
  uint64_t n = v.size();
  if (!span) span = 1;
  for (uint64_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: v[i] = base; break;
      case 1: v[i] = base + g.in(0, span); break;
      case 2: v[i] = base + i; break;
      case 3: v[i] = base + (n - i); break;
      case 4: v[i] = base + (i < n / 2 ? i : n - i); break;
      case 5: v[i] = base + (i < n / 2 ? n / 2 - i : i - n / 2); break;
      case 6: v[i] = base + i % (1 + span % 1000); break;
      case 7: v[i] = base + g.in(0, 3) * span; break;
      case 8: v[i] = base + g.in(0, 50) + (g.in(0, 999) == 0 ? (uint64_t)1 << g.in(20, 62) : 0); break;
      case 9: v[i] = g.in(0, 99) == 0 ? 0 - g.in(1, span) : base + g.in(0, 20); break;          // the counter jumps back
      case 10: v[i] = g.in(0, 99) == 0 ? span : 0; break;                                      // the counter hardly moves
      case 11: v[i] = g.next(); break;
      case 12: v[i] = base + (i & 1 ? span : 0); break;
      case 13: v[i] = base + g.in(0, 20); break;                                               // plus one outlier below
      case 14: v[i] = i < n / 2 ? base : base + span; break;                                   // frequency step
      case 15: v[i] = i < n / 2 + (seed & 1) ? base + span : base; break;
      default: v[i] = base + g.in(0, span); break;
    }
  }
  if (kind == 13 && n) { uint64_t where[] = {0, n - 1, n / 2, n / 2 - 1, 1, n - 2, g.in(0, n - 1)}; v[where[seed % 7]] = base + ((uint64_t)1 << (30 + seed % 30)); }
  if (kind >= 20 && kind < 28) killer(v, kind & 3, kind & 4, base);
}

static std::string slurp(int fd) {
  std::string s; char b[65536]; off_t o = 0; ssize_t k;
  while ((k = pread(fd, b, sizeof b, o)) > 0) { s.append(b, k); o += k; }
  return s;
}
static uint64_t fnv(uint64_t h, uint64_t x) { h = (h ^ x) * 0x100000001b3ull; return h ^ h >> 31; }
static std::string clean(std::string s) { for (char &c : s) if (c == '\n' || c == '\t') c = ' '; return s.substr(0, 400); }

int main() {
  S = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int of = memfd_create("o", 0), ef = memfd_create("e", 0);
  FILE *out = fdopen(dup(1), "w");
  std::string line; int prog = 0; uint64_t start = 0; int limit = 60;
  std::vector<std::vector<uint64_t>> D(NF);
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string w; is >> w;
    if (w == "begin") { is >> prog >> start >> readcost >> durn >> limit; for (auto &d : D) d.clear(); for (auto &p : dur) p = 0; }
    else if (w == "pat") { int k, kind; uint64_t seed, base, span; is >> k >> kind >> seed >> base >> span; k += 5 * prog; D[k].resize(durn); pattern(D[k], kind, seed, base, span); dur[k] = D[k].data(); }
    else if (w == "end") {
      memset(S, 0, offsetof(Sh, d));
      S->now = start;
      ftruncate(of, 0); ftruncate(ef, 0); lseek(of, 0, SEEK_SET); lseek(ef, 0, SEEK_SET);
      fflush(out);
      pid_t c = fork();
      if (!c) {
        dup2(of, 1); dup2(ef, 2);
        struct rlimit rl = {(rlim_t)limit, (rlim_t)limit + 2};
        setrlimit(RLIMIT_CPU, &rl);
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0);
        prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
        int rc = progs[prog].f();
        fflush(stdout);
        S->done = 1;
        exit(rc);
      }
      int st; waitpid(c, &st, 0);
      std::string so = slurp(of), se = slurp(ef);
      uint64_t h = 0xcbf29ce484222325ull;
      for (unsigned char ch : so) h = fnv(h, ch);
      for (unsigned char ch : se) h = fnv(h, ch);
      h = fnv(h, st);
      std::string cls, det; char b[500];
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { cls = "hang"; snprintf(b, sizeof b, "no end after %d s of processor time", limit); det = b; }
      else if (WIFSIGNALED(st)) { cls = "crash"; snprintf(b, sizeof b, "killed by signal %d after %llu readings", WTERMSIG(st), (unsigned long long)S->reads); det = b; }
      else if (WEXITSTATUS(st) != 0) { cls = "failure"; snprintf(b, sizeof b, "exit status %d; stderr: ", WEXITSTATUS(st)); det = b + clean(se); }
      uint64_t backward = 0, measured = 0, zero = 0, huge = 0, reports = 0;
      for (int k = 0; k < NF; k++) { h = fnv(h, S->nd[k]); for (uint64_t i = 0; i < S->nd[k]; i++) { uint64_t d = S->d[k][i]; measured++; if (d >> 63) backward++; else if (d > (1ull << 40)) huge++; if (!d) zero++; h = fnv(h, d); } }
      if (cls.empty()) {
        // label line, then its median and average
        std::istringstream os(so); std::string l; int cur = -1; std::string label;
        std::map<int, std::map<std::string, uint64_t>> got; std::map<int, int> times;
        while (std::getline(os, l) && cls.empty()) {
          bool isname = false;
          for (int k = 0; k < NF; k++) {
            std::string f = fname(k); size_t q = l.find(f);
            if (q == std::string::npos) continue;
            char nx = q + f.size() < l.size() ? l[q + f.size()] : ' ', pv = q ? l[q - 1] : ' ';
            if (isalnum(nx) || nx == '_' || isalnum(pv) || pv == '_') continue;
            cur = k; times[k]++; isname = true;
          }
          if (isname) continue;
          for (const char *key : {"median", "average"}) {
            size_t q = l.find(key);
            if (q == std::string::npos) continue;
            size_t e = l.find_first_of("-0123456789", q);
            if (e == std::string::npos) { cls = "report"; det = "no number in: " + clean(l); break; }
            if (cur < 0) { cls = "report"; det = "a report without a routine: " + clean(l); break; }
            if (got[cur].count(key)) { cls = "report"; det = fname(cur) + " is reported twice"; break; }
            got[cur][key] = strtoull(l.c_str() + e, 0, 10);
          }
        }
        for (int k = 0; k < NF && cls.empty(); k++) {
          std::string f = fname(k);
          uint64_t n = S->nd[k];
          if (!n) { if (got.count(k)) { cls = "attribution"; det = f + " is reported and was never measured"; } continue; }
          if (!got[k].count("median") || !got[k].count("average")) { cls = "attribution"; det = f + " was measured and is not reported"; break; }
          reports++;
          std::vector<uint64_t> d(S->d[k], S->d[k] + n);
          u128 sum = 0; for (uint64_t x : d) sum += x;
          std::sort(d.begin(), d.end());
          uint64_t m = got[k]["median"], a = got[k]["average"];
          uint64_t lo = d[(n - 1) / 2], hi = d[n / 2];
          if (m < lo || m > hi) { cls = "median"; snprintf(b, sizeof b, "%s: median %llu reported, %llu measured (%llu differences)", f.c_str(), (unsigned long long)m, (unsigned long long)hi, (unsigned long long)n); det = b; break; }
          uint64_t a1 = (uint64_t)sum / n, a2 = (uint64_t)(sum / n);
          if (a != a1 && a != a2) { cls = "average"; snprintf(b, sizeof b, "%s: average %llu reported, %llu measured (%llu differences)", f.c_str(), (unsigned long long)a, (unsigned long long)a1, (unsigned long long)n); det = b; break; }
        }
        if (cls.empty() && !reports) { cls = "report"; det = "nothing is reported"; }
      }
      fprintf(out, "%s\t%s\t%016llx\treads=%llu measured=%llu backward=%llu zero=%llu huge=%llu reports=%llu traps=%llu wraps=%d\n", cls.empty() ? "-" : cls.c_str(), clean(det).c_str(), (unsigned long long)h,
              (unsigned long long)S->reads, (unsigned long long)measured, (unsigned long long)backward, (unsigned long long)zero, (unsigned long long)huge, (unsigned long long)reports, (unsigned long long)S->traps, S->now < start);
      fflush(out);
    }
  }
}
