/*
 * stepsim: instruction-level simulator for the NTT library.
 *
 * The library's own objects are linked into this program (section libtext).
 * Every run happens in a fresh forked process.  Real threads execute real
 * library code, one at a time (baton); a schedule given on standard input says
 * at which instruction a call is interrupted and what happens there: another
 * thread continues, a handler calls the library again, the call is abandoned,
 * a page of an array is missing, ...  Nothing else decides who runs.
 *
 * Commands on standard input (one line of integers each):
 *   P <op>         profile: addresses of the libtext instructions the call executes
 *   R <scenario>   run
 *   C <config>     one avx2_supported() call under an emulated processor
 * Answers on standard output, one line each.
 */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <vector>
#include <string>
#include <pthread.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>

typedef uint16_t u16;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
static const int Q = 12289;

enum { K_PROD = 1, K_XF, K_WRAP, K_EW1, K_MUL16, K_MUL32, K_SCAL, K_SHUF, K_WSHUF };
enum { E_SHIFT = 1, E_RED, E_RED2, E_CORR, E_NORM, E_NORM3, E_BITREV };
enum { F_NTT = 0, F_NAIVE, F_RED, F_ASM };

struct Fn { const char *name; void *p; int kind, fam, n, inrev, outrev, comb, tabrev, inv, ew; int psi; };
#define FN_DECL
#include "ops.inc"
#undef FN_DECL
static Fn FNS[] = {
#include "ops.inc"
};
static const int NFNS = sizeof(FNS) / sizeof(FNS[0]);

extern "C" u8 __start_libtext[], __stop_libtext[];

/* ------------------------------------------------------------------ output */
static int out_fd = 1;
[[noreturn]] static void finish(const char *cls, const char *fmt, ...);

static struct Shared {                      /* filled during the run, printed at the end */
  u64 hash; int fired[8]; int unfired; int switches, nested, abandoned, pgfaults, evictions, ops, skipped, maxdepth, spins;
  u64 site[64]; int nsite; u64 steps;
} S;

static void mix(u64 x) { S.hash = (S.hash ^ x) * 1099511628211ull; S.hash ^= S.hash >> 29; }

static void finish(const char *cls, const char *fmt, ...) {
  char d[512], b[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
  for (char *c = d; *c; c++) if (*c == '|' || *c == '\n') *c = ' ';
  int k = snprintf(b, sizeof b, "%s|%s|%016llx|ops=%d sw=%d ne=%d ab=%d un=%d pf=%d ev=%d sk=%d dp=%d sp=%d st=%llu|", cls, d, (unsigned long long)S.hash,
                   S.ops, S.switches, S.nested, S.abandoned, S.unfired, S.pgfaults, S.evictions, S.skipped, S.maxdepth, S.spins, (unsigned long long)S.steps);
  for (int i = 0; i < S.nsite && k < 3800; i++) k += snprintf(b + k, sizeof b - k, "%llx ", (unsigned long long)S.site[i]);
  b[k++] = '\n';
  const char *p = b;
  while (k > 0) { ssize_t w = write(out_fd, p, k); if (w <= 0) break; p += w; k -= w; }
  _exit(0);
}

/* ------------------------------------------------------------------ random */
struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  i64 range(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo + 1)); }
};

static const i64 RED_MAX = 8796042698752ll;   /* largest product the reductions are defined for */
/* values in [lo, hi] in one of several shapes */
static void pattern(int32_t *v, int n, int pat, u64 seed, i64 lo, i64 hi) {
  Rng r(seed * 77 + pat);
  i64 mid = (lo + hi) / 2;
  for (int i = 0; i < n; i++) {
    i64 x;
    switch (pat) {
      case 1: x = hi; break;
      case 2: x = lo; break;
      case 3: x = (i & 1) ? lo : hi; break;
      case 4: x = (r.next() % 16) ? (lo <= 0 && hi >= 0 ? 0 : lo) : r.range(lo, hi); break;
      case 5: x = mid + r.range(-2, 2); if (x < lo) x = lo; if (x > hi) x = hi; break;
      case 6: x = lo + (i64)(((__int128)(hi - lo) * i) / (n > 1 ? n - 1 : 1)); break;
      case 7: { static const i64 e[] = {0, 1, -1, 2, -2, 4095, 4096, 4097, -4096, -4097, 6144, 6145, -6144, -6145, 12288, 12289, -12288, -12289, 12290, 24577, -8192, 8193};
                x = e[r.next() % (sizeof e / sizeof e[0])]; if (x < lo) x = lo; if (x > hi) x = hi; break; }
      case 8: x = (r.next() & 1) ? hi - (i64)(r.next() % 3) : lo + (i64)(r.next() % 3); if (x < lo) x = lo; if (x > hi) x = hi; break;
      case 9: x = ((i >> 3) & 1) ? lo : hi; break;
      case 10: x = lo <= 0 && hi >= 0 ? 0 : lo; break;                                  /* monomial, see below */
      case 11: x = i ? v[0] : r.range(lo, hi); break;                                   /* constant */
      case 14: x = i < n / 2 ? r.range(lo, hi) : lo <= 0 && hi >= 0 ? 0 : lo; break;    /* upper half empty */
      case 15: x = i >= 4 && i >= n / 8 ? v[i % (n / 8 > 4 ? n / 8 : 4)] : r.range(lo, hi); break; /* periodic */
      default: x = r.range(lo, hi);
    }
    v[i] = (int32_t)x;
  }
  if (pat == 4 && n) v[r.next() % n] = (int32_t)hi;
  if (pat == 10 && n) v[r.next() % n] = (int32_t)((r.next() & 1) ? hi : r.range(lo, hi));
}

/* the same values with a small change: one element, two exchanged, or two changed with the same sum */
static void tweak(int32_t *v, int n, int tw, i64 lo, i64 hi) {
  if (!tw || n < 1) return;
  Rng r(tw);
  int kind = r.next() % 4, i = r.next() % n, j = r.next() % n;
  if (kind == 0) v[i] = (int32_t)r.range(lo, hi);
  else if (kind == 1) { int32_t x = v[i]; v[i] = v[j]; v[j] = x; }
  else if (kind == 2) { if (i != j && v[i] < hi && v[j] > lo) { v[i]++; v[j]--; } }
  else { v[n / 2] = (int32_t)r.range(lo, hi); if (n > 3) v[n / 3] = (int32_t)r.range(lo, hi); }
}
/* pat: shape in the last digits, seed of the change above them */
static void shape(int32_t *v, int n, int pat, int tw, u64 seed, i64 lo, i64 hi) { pattern(v, n, pat, seed, lo, hi); tweak(v, n, tw, lo, hi); }

/* ------------------------------------------------------------------ reference model */
static int modq(i64 x) { i64 r = x % Q; return (int)(r < 0 ? r + Q : r); }
static int powq(int b, i64 e) { i64 r = 1, x = b; for (; e; e >>= 1) { if (e & 1) r = r * x % Q; x = x * x % Q; } return (int)r; }
static int log2i(u32 n) { int k = 0; while ((1u << k) < n) k++; return k; }
static u32 rev(u32 i, int k) { u32 r = 0; for (int b = 0; b < k; b++) r |= ((i >> b) & 1) << (k - 1 - b); return r; }
static i64 red64(i64 z) { return 3 * (z & 4095) - (z >> 12); }

static void ref_product(const int32_t *a, const int32_t *b, int n, int32_t *c) {
  static __thread u32 bb[4096];
  /* c[k] = sum_{i<=k} a[i] b[k-i] - sum_{i>k} a[i] b[n+k-i] */
  for (int i = 0; i < n; i++) { bb[n + i] = b[i]; bb[i] = (Q - b[i]) % Q; }
  for (int k = 0; k < n; k++) {
    u64 s = 0;
    const u32 *p = bb + n + k;
    for (int i = 0; i < n; i++) s += (u64)(u32)a[i] * p[-i];
    c[k] = (int32_t)(s % Q);
  }
}

/* polynomials in [0, Q-1] chosen by what a routine makes of them: with an extreme transform (12),
   or extreme after the multiplication by the powers of psi (13) */
static void spectral(int32_t *v, int n, int pat, u64 seed, int psi) {
  Rng r(seed * 79 + pat);
  if (pat == 13) {
    i64 p = 8193; bool top = r.next() & 1;
    for (int i = 0; i < n; i++) {
      i64 w = p > 6144 ? p - Q : p, best = 0;
      for (int t = 0; t < 48; t++) {
        i64 x = t == 0 ? 0 : t == 1 ? Q - 1 : r.range(0, Q - 1), z = x * w, y = 3 * (z & 4095) - (z >> 12);
        if (t == 0 || (top ? y > best : y < best)) { best = y; v[i] = (int32_t)x; }
      }
      p = p * psi % Q;
    }
    return;
  }
  static __thread int32_t t[2048]; static __thread u32 w[4096];
  static const int sh[] = {1, 2, 3, 4, 7, 8, 9, 10, 11, 14};
  pattern(t, n, sh[r.next() % 10], seed + 1, 0, Q - 1);
  /* v[i] = psi^-i / n * sum_j t[j] psi^(-2ij) */
  int ipsi = powq(psi, 12287), in = powq(n, 12287); i64 x = 1;
  for (int i = 0; i < 2 * n; i++) { w[i] = (u32)x; x = x * ipsi % Q; }
  for (int i = 0; i < n; i++) {
    u64 a = 0; u32 e = 0;
    for (int j = 0; j < n; j++) { a += (u64)w[e] * (u32)t[j]; e += 2 * i; if (e >= 2u * n) e -= 2 * n; }
    v[i] = (int32_t)(a % Q * w[i] % Q * in % Q);
  }
}

static void ref_transform(const Fn &f, const int32_t *in, int n, int psi, int32_t *out) {
  static __thread u32 w[2048], x[2048];
  int k = log2i(n);
  i64 om = (i64)psi * psi % Q, v = 1;
  for (int i = 0; i < n; i++) { w[i] = (u32)v; v = v * om % Q; }
  v = 1;
  for (int i = 0; i < n; i++) {
    i64 y = modq(in[f.inrev ? rev(i, k) : i]);
    if (f.comb == 1) y = y * v % Q;
    x[i] = (u32)y;
    v = v * psi % Q;
  }
  v = 1;
  for (int j = 0; j < n; j++) {
    u64 s = 0;
    for (int i = 0; i < n; i++) s += (u64)x[i] * w[((u64)i * j) & (n - 1)];
    i64 y = s % Q;
    if (f.comb == 2) y = y * v % Q;
    out[f.outrev ? rev(j, k) : j] = (int32_t)y;
    v = v * psi % Q;
  }
}

/* ------------------------------------------------------------------ memory */
static const u64 SLOT_BASE = 0x200000000ull, RO_BASE = 0x300000000ull, AREA = 0x100000;   /* one area per megabyte */
static int SLOT_PAGES = 4, SLOT_BYTES = 4 * 4096;      /* larger for runs with large arrays */
static const int MAXSLOT = 24, MAXRO = 24, MAXN = 70000;
struct Slot { u8 *base, *shadow; int busy; int aoff, alen; };     /* array at [aoff, aoff+alen) */
static Slot slots[MAXSLOT];
static int nslots;
struct Ro { u8 *base; u8 *copy; int off, len, kind, n, psi; };
static Ro ros[MAXRO];
static int nros;

/* our own memory: a call may be interrupted inside the C library's allocator */
static u8 *heap_at = (u8 *)0x600000000ull, *heap_end;
static void *own_alloc(size_t n) {
  if (!heap_end) {
    void *p = mmap(heap_at, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(77);
    heap_end = heap_at + (64 << 20);
  }
  u8 *p = heap_at; heap_at += (n + 63) & ~63ull;
  if (heap_at > heap_end) _exit(77);
  return p;
}

static u8 *map_area(u64 at) {
  u8 *p = (u8 *)mmap((void *)at, SLOT_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(77); }
  return p;
}

static void operand(int32_t *v, int n, int pat, int tw, u64 seed, int psi) {
  if ((pat == 12 || pat == 13) && psi && n <= 2048) { spectral(v, n, pat, seed, psi); tweak(v, n, tw, 0, Q - 1); }
  else shape(v, n, pat, tw, seed, 0, Q - 1);
}
static void fill_slack(Slot &s, u64 seed) {
  Rng r(seed);
  for (int i = 0; i < SLOT_BYTES; i += 8) {
    u64 x = r.next();
    for (int b = 0; b < 8; b++) { int o = i + b; if (o < s.aoff || o >= s.aoff + s.alen) s.base[o] = s.shadow[o] = (u8)(x >> (8 * b)); }
  }
}

/* place = 2*slack + tightend */
static int place_off(int place, int len, int elt) {
  int slack = (place >> 1) * elt;
  int off = (place & 1) ? SLOT_BYTES - len - slack : slack;
  if (off < 0 || off + len > SLOT_BYTES) { fprintf(stderr, "bad placement\n"); _exit(77); }
  return off;
}

/* ------------------------------------------------------------------ scenario */
struct Op;
struct Event { u64 addr; int hit, steps, act, arg; std::vector<Op> nested; };
struct RoSpec { int kind, n, psi, tabrev, comb, pat; u64 seed; int place; };
struct Op { int f, n, slot[3], place[3], pat, ro, ro2, scalar; u64 seed; RoSpec fill[2]; std::vector<Event> ev; };
struct Thr { std::vector<Op> ops; };
static int mode;                             /* 5..8 = property */
static std::vector<Thr> thr;
static std::vector<int> finish_order;
static int evict_rate;

static std::vector<i64> tok; static size_t tp;
static i64 T() { if (tp >= tok.size()) { fprintf(stderr, "short scenario\n"); _exit(77); } return tok[tp++]; }

static RoSpec parse_ro() {
  RoSpec r; r.kind = T(); r.n = T(); r.psi = T(); r.tabrev = T(); r.comb = T(); r.pat = T(); r.seed = T(); r.place = T();
  return r;
}

static Op parse_op() {
  Op o;
  o.f = T(); o.n = T();
  for (int i = 0; i < 3; i++) o.slot[i] = T();
  for (int i = 0; i < 3; i++) o.place[i] = T();
  o.pat = T(); o.seed = T(); o.ro = T(); o.ro2 = T(); o.scalar = T();
  for (int i = 0; i < 2; i++) { o.fill[i].kind = 0; if (T()) o.fill[i] = parse_ro(); }
  int ne = T();
  for (int i = 0; i < ne; i++) {
    Event e; e.addr = T(); e.hit = T(); e.steps = T(); e.act = T(); e.arg = T();
    int nn = T();
    for (int j = 0; j < nn; j++) e.nested.push_back(parse_op());
    o.ev.push_back(e);
  }
  return o;
}

enum { RO_TAB_U = 1, RO_TAB_S, RO_PSI, RO_MUL_U, RO_MUL_S, RO_I32_Q, RO_I32_R, RO_PAIRS };
static void fill_ro(Ro &r, const RoSpec &sp) {
  int kind = sp.kind, n = sp.n, psi = sp.psi, tabrev = sp.tabrev, comb = sp.comb, pat = sp.pat; u64 seed = sp.seed;
  r.kind = kind; r.n = n; r.psi = psi;
  static __thread int32_t v[MAXN + 16];
  int elt = 2, cnt = n;
  if (kind == RO_TAB_U || kind == RO_TAB_S) {
    i64 om = (i64)psi * psi % Q;
    pattern(v, 1, 0, seed, 0, Q - 1);
    for (int t = 1; t < n; t *= 2)
      for (int j = 0; j < t; j++) {
        i64 x = powq((int)om, (i64)(n / (2 * t)) * (tabrev ? rev(j, log2i(t)) : j));
        if (comb) x = x * powq(psi, n / (2 * t)) % Q;
        v[t + j] = (int32_t)x;
      }
    if (kind == RO_TAB_S) for (int j = 0; j < n; j++) { i64 x = (i64)v[j] * 8193 % Q; v[j] = (int32_t)(x > 6144 ? x - Q : x); }
  } else if (kind == RO_PSI) {
    i64 x = 1; for (int j = 0; j < n; j++) { v[j] = (int32_t)x; x = x * psi % Q; }
  } else if (kind == RO_MUL_U) shape(v, n, pat % 100, pat / 100, seed, 0, Q - 1);
  else if (kind == RO_MUL_S) shape(v, n, pat % 100, pat / 100, seed, -12288, 12288);
  else if (kind == RO_I32_Q) { elt = 4; shape(v, n, pat % 100, pat / 100, seed, 0, Q - 1); }
  else if (kind == RO_I32_R) {
    elt = 4;
    i64 m = comb > 0 ? (1ll << comb) - 1 : comb < 0 ? RED_MAX / ((1ll << -comb) - 1) : 0; if (m > 2147483647) m = 2147483647;
    if (comb) shape(v, n, pat % 100, pat / 100, seed, -m, m); else shape(v, n, pat % 100, pat / 100, seed, -524287, 536573);
  }
  else if (kind == RO_PAIRS) {
    cnt = 0; int k = log2i(n);
    for (int a = 0; a < n; a++) { int b = rev(a, k); if (a < b) { v[cnt++] = a; v[cnt++] = b; } }
  }
  r.len = cnt * elt;
  r.off = place_off(sp.place, r.len, elt);
  mprotect(r.base, SLOT_BYTES, PROT_READ | PROT_WRITE);
  Rng g(seed ^ 0x5555);
  for (int j = 0; j < SLOT_BYTES; j++) r.base[j] = (u8)g.next();
  for (int j = 0; j < cnt; j++) { if (elt == 2) ((int16_t *)(r.base + r.off))[j] = (int16_t)v[j]; else ((int32_t *)(r.base + r.off))[j] = v[j]; }
  memcpy(r.copy, r.base, SLOT_BYTES);
  mprotect(r.base, SLOT_BYTES, PROT_READ);
}
static void make_ro(int i) {
  Ro &r = ros[i];
  r.base = map_area(RO_BASE + i * AREA + 4096);
  r.copy = (u8 *)own_alloc(SLOT_BYTES);
  fill_ro(r, parse_ro());
}

/* ------------------------------------------------------------------ breakpoints */
struct Bp { u64 addr; u8 orig; int users; };
static Bp bps[512]; static int nbps;
static u8 *profile_orig; static bool profiling; static std::vector<u64> prof;

static Bp *bp_find(u64 a) { for (int i = 0; i < nbps; i++) if (bps[i].addr == a) return &bps[i]; return NULL; }
static void bp_set(u64 a, bool on) { u8 *p = (u8 *)a; *(volatile u8 *)p = on ? 0xcc : bp_find(a)->orig; }
static void bp_arm(u64 a) {
  Bp *b = bp_find(a);
  if (!b) { if (nbps == 512) _exit(77); b = &bps[nbps++]; b->addr = a; b->orig = *(u8 *)a; b->users = 0; }
  b->users++;
  bp_set(a, true);
}
static void bp_disarm(u64 a) { Bp *b = bp_find(a); if (--b->users == 0) bp_set(a, false); }
static bool bp_armed(u64 a) { Bp *b = bp_find(a); return b && b->users > 0; }

/* ------------------------------------------------------------------ threads and baton */
struct OpCtx { Op *op; int ev, hits, burst; bool armed, inburst, active; int32_t *expect; OpCtx *up; sigjmp_buf jb; };
struct TS { int id; volatile int turn; pthread_t th; pid_t tid; OpCtx *ctx; u64 stepover; bool done, dead; int depth; u8 *alt; } ts[8];
static int nthr;
static volatile int all_done;
static volatile u64 progress;
static __thread TS *me;
static volatile int holder;

static void fwait(volatile int *w) { while (!*w) syscall(SYS_futex, w, FUTEX_WAIT, 0, NULL, NULL, 0); }
static void fpost(volatile int *w) { __atomic_store_n(w, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, w, FUTEX_WAKE, 1, NULL, NULL, 0); }
static void give(int j) { holder = j; progress++; fpost(&ts[j].turn); }
static void take() { fwait(&me->turn); me->turn = 0; }

static int next_thread(int pref) {
  if (pref >= 0 && pref < nthr && !ts[pref].done) return pref;
  for (int j : finish_order) if (!ts[j].done) return j;
  return -1;
}

/* ------------------------------------------------------------------ who a library call thinks it is run by */
/* numbers of threads are arbitrary but distinct; all threads share one processor, so each finds it as another left it */
static u64 ident[8];
static void set_ident(u64 seed) {
  Rng r(seed ^ 0x1d);
  int sh = r.next() % 3 ? (int)(r.next() % 13) : 0;
  u64 base = 300 + r.next() % 60000, k = 0;
  for (auto &x : ident) { x = base + (k << sh); k += 1 + (sh ? 0 : r.next() % 3); }
}
extern "C" int sim_gettid() { return (int)ident[me ? me->id & 7 : 0]; }
extern "C" u64 sim_pthread_self() { return 0x7f00000006c0ull + ident[me ? me->id & 7 : 0] * 0x801000ull; }
extern "C" u64 sim_thrd_current() { return sim_pthread_self(); }
extern "C" int sim_sched_getcpu() { return (int)(ident[0] & 7); }
extern "C" long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n == SYS_gettid) return sim_gettid();
  if (n == SYS_getcpu) { if (a) *(unsigned *)a = sim_sched_getcpu(); if (b) *(unsigned *)b = 0; return 0; }
  return syscall(n, a, b, c, d, e, f);
}

/* ------------------------------------------------------------------ conservation of memory */
static void check_slot_range(int i, int from, int to, const char *what) {
  Slot &s = slots[i];
  if (memcmp(s.base + from, s.shadow + from, to - from) == 0) return;
  int o = from; while (s.base[o] == s.shadow[o]) o++;
  finish("foreign-write", "%s: byte %d of array area %d (array at %d..%d) changed by a call that was not given it", what, o, i, s.aoff, s.aoff + s.alen);
}
static bool op_uses(const Op *o, int slot) { if (o) for (int i = 0; i < 3; i++) if (o->slot[i] == slot) return true; return false; }

/* control point: only the arrays of `running` may have changed since the last one */
static void unprotect_running(OpCtx *c);
static void control(OpCtx *c, const char *what) {
  const Op *running = c ? c->op : NULL;
  for (int i = 0; i < nslots; i++) {
    Slot &s = slots[i];
    if (op_uses(running, i)) {
      check_slot_range(i, 0, s.aoff, what);
      check_slot_range(i, s.aoff + s.alen, SLOT_BYTES, what);
      memcpy(s.shadow + s.aoff, s.base + s.aoff, s.alen);
    } else check_slot_range(i, 0, SLOT_BYTES, what);
  }
}
static void stir(OpCtx *c, u64 x) {            /* the neighbours of a suspended call's arrays change meanwhile */
  for (int k = 0; k < 3; k++) if (c->op->slot[k] >= 0) fill_slack(slots[c->op->slot[k]], c->op->seed * 31 + x + k);
}

/* ------------------------------------------------------------------ calling the library */
struct CF {
  u64 fn, a[6];            /* 0, 8..48 */
  u64 cs[6];               /* 56: rbx rbp r12 r13 r14 r15 on entry */
  u64 out[6];              /* 104: the same on return */
  u64 rsp_in, rsp_out;     /* 152, 160 */
  u64 flags, canary;       /* 168, 176 */
  u64 bad, rax;            /* 184, 192 */
  u64 r10, r11, rax_in;    /* 200, 208, 216 */
  u32 mx_in, mx_out;       /* 224, 228 */
  u32 mx_call; u16 cw_call, cw_out;   /* 232, 236, 238: floating-point modes of the caller */
  u16 cw_in, pad0[3]; u64 pad1;       /* 240 */
  u8 vec[512];             /* 256 */
};
extern "C" { __thread CF *cur_cf; void tramp(CF *); extern char tramp_end[]; }
asm(R"(
.intel_syntax noprefix
.text
.globl tramp
.type tramp,@function
tramp:
  push rbx
  push rbp
  push r12
  push r13
  push r14
  push r15
  sub rsp, 264
  mov rax, [rdi+176]
  xor ecx, ecx
1: mov [rsp+rcx*8], rax
  inc ecx
  cmp ecx, 32
  jb 1b
  mov [rsp+256], rdi
  mov rax, [rdi]
  mov [rsp+248], rax
  mov [rdi+152], rsp
  stmxcsr [rdi+224]
  fnstcw [rdi+240]
  ldmxcsr [rdi+232]
  fldcw [rdi+236]
  vmovdqu ymm0, [rdi+256]
  vmovdqu ymm1, [rdi+288]
  vmovdqu ymm2, [rdi+320]
  vmovdqu ymm3, [rdi+352]
  vmovdqu ymm4, [rdi+384]
  vmovdqu ymm5, [rdi+416]
  vmovdqu ymm6, [rdi+448]
  vmovdqu ymm7, [rdi+480]
  vmovdqu ymm8, [rdi+512]
  vmovdqu ymm9, [rdi+544]
  vmovdqu ymm10, [rdi+576]
  vmovdqu ymm11, [rdi+608]
  vmovdqu ymm12, [rdi+640]
  vmovdqu ymm13, [rdi+672]
  vmovdqu ymm14, [rdi+704]
  vmovdqu ymm15, [rdi+736]
  mov rbx, [rdi+56]
  mov rbp, [rdi+64]
  mov r12, [rdi+72]
  mov r13, [rdi+80]
  mov r14, [rdi+88]
  mov r15, [rdi+96]
  mov rsi, [rdi+16]
  mov rdx, [rdi+24]
  mov rcx, [rdi+32]
  mov r8, [rdi+40]
  mov r9, [rdi+48]
  mov r10, [rdi+200]
  mov r11, [rdi+208]
  mov rax, [rdi+216]
  mov rdi, [rdi+8]
  call [rsp+248]
  mov r11, fs:[cur_cf@tpoff]
  mov [r11+192], rax
  mov [r11+160], rsp
  mov [r11+104], rbx
  mov [r11+112], rbp
  mov [r11+120], r12
  mov [r11+128], r13
  mov [r11+136], r14
  mov [r11+144], r15
  stmxcsr [r11+228]
  fnstcw [r11+238]
  fldcw [r11+240]
  mov rsp, [r11+152]
  ldmxcsr [r11+224]
  pushfq
  pop rax
  mov [r11+168], rax
  cld
  vzeroupper
  xor ecx, ecx
  xor edx, edx
  mov rax, [r11+176]
2: cmp [rsp+rcx*8], rax
  je 3f
  inc rdx
3: inc ecx
  cmp ecx, 31
  jb 2b
  mov [r11+184], rdx
  add rsp, 264
  pop r15
  pop r14
  pop r13
  pop r12
  pop rbp
  pop rbx
  ret
.globl tramp_end
tramp_end:
.size tramp, .-tramp
.att_syntax prefix
)");

static void protect_pages(OpCtx *c);

/* execute one library call with its own inputs, check its result */
static void run_op(Op *op, int idx) {
  const Fn &f = FNS[op->f];
  if (!f.p) { S.skipped++; return; }
  for (int k = 0; k < 3; k++) if (op->slot[k] >= 0 && slots[op->slot[k]].busy) { S.skipped++; mix(0xdead); return; }
  int n = f.n ? f.n : op->n, cnt = n;
  OpCtx *c = (OpCtx *)own_alloc(sizeof(OpCtx)); memset(c, 0, sizeof *c);
  c->op = op; c->up = me->ctx;
  c->expect = (int32_t *)own_alloc(4 * (cnt < 2048 ? 2048 : cnt));
  control(NULL, "before a call");
  if (op->fill[0].kind) fill_ro(ros[op->ro], op->fill[0]);      /* the same address, new contents */
  if (op->fill[1].kind) fill_ro(ros[op->ro2], op->fill[1]);
  /* arrays */
  int32_t *arr[3] = {0, 0, 0};
  for (int k = 0; k < 3; k++) if (op->slot[k] >= 0) {
    Slot &s = slots[op->slot[k]];
    s.busy = 1;
    s.alen = cnt * 4; s.aoff = place_off(op->place[k], s.alen, 4);
    fill_slack(s, op->seed * 131 + k);
    arr[k] = (int32_t *)(s.base + s.aoff);
  }
  static __thread int32_t va[MAXN], vb[MAXN];
  if (n > MAXN) _exit(77);
  CF cf; memset(&cf, 0, sizeof cf);
  Rng g(op->seed ^ 0xabcdef);
  bool redf = f.fam == F_RED || f.fam == F_ASM;
  u64 hi[6]; for (int i = 0; i < 6; i++) hi[i] = (op->seed & 1) ? (g.next() << 32) : (g.next() & 1 ? 0xffffffff00000000ull : 0);
  for (int i = 0; i < 6; i++) cf.a[i] = g.next();
  int32_t *out = arr[0]; bool cmpmod = false;
  const void *ro = op->ro >= 0 ? ros[op->ro].base + ros[op->ro].off : NULL, *ro2 = op->ro2 >= 0 ? ros[op->ro2].base + ros[op->ro2].off : NULL;
  switch (f.kind) {
    case K_PROD:
      operand(va, n, op->pat % 100, op->pat / 10000, op->seed, f.psi);
      operand(vb, n, op->pat / 100 % 100, op->pat / 10000 * 3, op->seed + 7, f.psi);
      pattern(arr[0], n, 0, op->seed + 9, -2147483648ll, 2147483647ll);
      memcpy(arr[1], va, 4 * n); memcpy(arr[2], vb, 4 * n);
      ref_product(va, vb, n, c->expect);
      cf.a[0] = (u64)arr[0]; cf.a[1] = (u64)arr[1]; cf.a[2] = (u64)arr[2];
      break;
    case K_XF: case K_WRAP: {
      int psi = f.kind == K_XF ? ros[op->ro].psi : f.inv ? powq(f.psi, 12287) : f.psi;
      if (redf && op->pat % 100 != 12 && op->pat % 100 != 13) shape(va, n, op->pat % 100, op->pat / 10000, op->seed, -21499, 21499);
      else operand(va, n, op->pat % 100, op->pat / 10000, op->seed, psi);
      memcpy(arr[0], va, 4 * n);
      ref_transform(f, va, n, psi, c->expect);
      cmpmod = redf || f.fam == F_NAIVE;
      cf.a[0] = (u64)arr[0];
      if (f.kind == K_XF) { cf.a[1] = hi[0] | (u32)n; cf.a[2] = (u64)ro; if (f.fam == F_NAIVE) cf.a[3] = hi[1] | Q; }
      break; }
    case K_EW1: {
      i64 lo = -2147483648ll, h = 2147483647ll;
      if (f.ew == E_SHIFT) lo = 0, h = Q - 1;
      if (f.ew == E_CORR) { if (f.fam == F_ASM) lo = -Q, h = 2 * Q - 1; else lo = -130, h = 12413; }
      shape(va, n, op->pat % 100, op->pat / 10000, op->seed, lo, h);
      memcpy(arr[0], va, 4 * n);
      int k = log2i(n);
      for (int i = 0; i < n; i++) {
        i64 x = va[i], y = 0;
        switch (f.ew) {
          case E_SHIFT: y = x > 6144 ? x - Q : x; break;
          case E_RED: y = red64(x); break;
          case E_RED2: y = red64(red64(x)); break;
          case E_CORR: case E_NORM: y = modq(x); break;
          case E_NORM3: y = modq(x * 8193); break;
          case E_BITREV: y = va[rev(i, k)]; break;
        }
        c->expect[i] = (int32_t)y;
      }
      cf.a[0] = (u64)arr[0]; cf.a[1] = hi[0] | (u32)n;
      break; }
    case K_MUL16: {
      if (redf) shape(va, n, op->pat % 100, op->pat / 10000, op->seed, -(1 << 28), 1 << 28); else shape(va, n, op->pat % 100, op->pat / 10000, op->seed, 0, Q - 1);
      if (redf && op->seed % 3 == 0) for (int i = 0; i < n; i++) {      /* the whole domain: any product the reduction may be given */
        i64 m = ((const int16_t *)ro)[i]; m = RED_MAX / (m < 0 ? -m : m ? m : 1); if (m > 2147483647) m = 2147483647;
        int32_t y[1]; pattern(y, 1, (op->pat + i) % 3 ? 0 : 8, op->seed + i, -m, m); va[i] = y[0];
      }
      memcpy(arr[0], va, 4 * n);
      for (int i = 0; i < n; i++) { i64 p = ((const int16_t *)ro)[i]; c->expect[i] = redf ? (int32_t)red64(va[i] * p) : modq(va[i] * p); }
      cf.a[0] = (u64)arr[0]; cf.a[1] = hi[0] | (u32)n; cf.a[2] = (u64)ro; if (f.fam == F_NAIVE) cf.a[3] = hi[1] | Q;
      break; }
    case K_MUL32: {
      const int32_t *x = (const int32_t *)ro, *y = (const int32_t *)ro2;
      pattern(arr[0], n, 0, op->seed + 9, -2147483648ll, 2147483647ll);
      for (int i = 0; i < n; i++) c->expect[i] = redf ? (int32_t)red64((i64)x[i] * y[i]) : modq((i64)x[i] * y[i]);
      cf.a[0] = (u64)arr[0]; cf.a[1] = hi[0] | (u32)n; cf.a[2] = (u64)ro; cf.a[3] = (u64)ro2; if (f.fam == F_NAIVE) cf.a[4] = hi[1] | Q;
      break; }
    case K_SCAL: {
      i64 sc = op->scalar;
      i64 m = redf ? RED_MAX / (sc < 0 ? -sc : sc ? sc : 1) : 0; if (m > 2147483647) m = 2147483647;
      if (redf) shape(va, n, op->pat % 100, op->pat / 10000, op->seed, -m, m); else shape(va, n, op->pat % 100, op->pat / 10000, op->seed, 0, Q - 1);
      memcpy(arr[0], va, 4 * n);
      for (int i = 0; i < n; i++) c->expect[i] = redf ? (int32_t)red64(va[i] * sc) : modq(va[i] * sc);
      cf.a[0] = (u64)arr[0]; cf.a[1] = hi[0] | (u32)n; cf.a[2] = hi[1] | (u32)(int32_t)sc; if (f.fam == F_NAIVE) cf.a[3] = hi[2] | Q;
      break; }
    case K_SHUF: case K_WSHUF: {
      shape(va, n, op->pat % 100, op->pat / 10000, op->seed, -2147483648ll, 2147483647ll);
      memcpy(arr[0], va, 4 * n);
      int k = log2i(n);
      for (int i = 0; i < n; i++) c->expect[i] = va[rev(i, k)];
      cf.a[0] = (u64)arr[0]; if (f.kind == K_SHUF) { cf.a[1] = (u64)ro; cf.a[2] = hi[0] | (u32)(ros[op->ro].len / 4); }
      break; }
  }
  cf.fn = (u64)f.p;
  cf.mx_call = 0x1f80; cf.cw_call = 0x37f;
  { u64 x = g.next(); if (x % 3 == 0) { cf.mx_call |= (u32)(x >> 8 & 3) << 13 | (u32)(x >> 10 & 1) << 15 | (u32)(x >> 11 & 1) << 6; cf.cw_call = 0x7f | (x >> 12 & 1 ? 0x300 : x >> 13 & 1 ? 0x200 : 0) | (u16)(x >> 8 & 3) << 10; } }
  for (int i = 0; i < 6; i++) cf.cs[i] = g.next();
  cf.canary = g.next(); cf.r10 = g.next(); cf.r11 = g.next(); cf.rax_in = g.next();
  for (int i = 0; i < 512; i++) cf.vec[i] = (u8)g.next();
  control(c, "preparing a call");
  S.ops++; mix(op->f); mix(n);
  int depth = ++me->depth; if (depth > S.maxdepth) S.maxdepth = depth;
  CF *upcf = cur_cf;
  me->ctx = c;
  struct { u32 cw, sw, tw, r[4]; } x87 = {0x37f, 0, 0xffff, {0}};
  if (mode == 6) asm volatile("fninit");
  int jumped = sigsetjmp(c->jb, 1);
  if (jumped == 0) {
    cur_cf = &cf;
    c->ev = 0; c->hits = 0;
    if (!op->ev.empty() && !profiling) { bp_arm(op->ev[0].addr); c->armed = true; }
    protect_pages(c);
    c->active = true;
    tramp(&cf);
    c->active = false;
    if (mode == 6) { asm volatile("fnstenv %0" : "=m"(x87)); asm volatile("fninit"); }
  } else {
    c->active = false;
    asm volatile("cld; vzeroupper" ::: "memory");
    if (me->stepover) { u64 a = me->stepover; me->stepover = 0; if (bp_armed(a)) bp_set(a, true); }
  }
  cur_cf = upcf;
  me->ctx = c->up;
  me->depth = depth - 1;
  if (c->armed) { bp_disarm(op->ev[c->ev].addr); c->armed = false; }
  if (!jumped) S.unfired += (int)op->ev.size() - c->ev;
  unprotect_running(c);
  if (profiling) return;
  progress++;
  const char *nm = f.name;
  control(c, nm);
  for (int k = 0; k < 3; k++) if (op->slot[k] >= 0) slots[op->slot[k]].busy = 0;
  if (!jumped) {
    for (int i = 0; i < n; i++) {
      i64 got = out[i], want = c->expect[i];
      if (cmpmod ? modq(got) != want : got != want)
        finish("wrong-result", "%s (n=%d, thread %d, call %d, depth %d): element %d is %lld, the exact result is %lld%s", nm, n, me->id, idx, depth, i, (long long)got, (long long)want, cmpmod ? " modulo 12289" : "");
    }
    for (int i = 0; i < n; i += 5) mix((u32)out[i]);
    if (mode == 6) {
      static const char *rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
      for (int i = 0; i < 6; i++) if (cf.out[i] != cf.cs[i]) finish("register-lost", "%s returned with %s changed", nm, rn[i]);
      if (cf.rsp_out != cf.rsp_in) finish("register-lost", "%s returned with rsp moved by %lld", nm, (long long)(cf.rsp_out - cf.rsp_in));
      if (cf.flags & 0x400) finish("register-lost", "%s returned with the direction flag set", nm);
      if ((cf.mx_call ^ cf.mx_out) & ~0x3fu) finish("register-lost", "%s returned with the MXCSR control bits changed", nm);
      if ((x87.tw & 0xffff) != 0xffff || cf.cw_out != cf.cw_call) finish("register-lost", "%s returned with the x87 state changed (control %x, tags %x)", nm, cf.cw_out, x87.tw & 0xffff);
      if (cf.bad) finish("stack-overwritten", "%s overwrote its caller's stack frame", nm);
    }
  } else mix(0xabad);
}

/* ------------------------------------------------------------------ missing pages (C08) */
static u64 recent[3]; static int nrecent; static Rng *evict_rng;
static void protect_pages(OpCtx *c) {
  if (mode != 8 || profiling) return;
  nrecent = 0;
  for (int k = 0; k < 3; k++) if (c->op->slot[k] >= 0) mprotect(slots[c->op->slot[k]].base, SLOT_BYTES, PROT_NONE);
  if (c->op->ro >= 0) mprotect(ros[c->op->ro].base, SLOT_BYTES, PROT_NONE);
  if (c->op->ro2 >= 0) mprotect(ros[c->op->ro2].base, SLOT_BYTES, PROT_NONE);
}
static void unprotect_running(OpCtx *c) {
  if (mode != 8 || profiling) return;
  for (int k = 0; k < 3; k++) if (c->op->slot[k] >= 0) mprotect(slots[c->op->slot[k]].base, SLOT_BYTES, PROT_READ | PROT_WRITE);
  if (c->op->ro >= 0) mprotect(ros[c->op->ro].base, SLOT_BYTES, PROT_READ);
  if (c->op->ro2 >= 0) mprotect(ros[c->op->ro2].base, SLOT_BYTES, PROT_READ);
}
/* page containing a byte of an array of the running call? */
static int page_owner(OpCtx *c, u64 pg, int *prot) {
  for (int k = 0; k < 3; k++) if (c->op->slot[k] >= 0) {
    Slot &s = slots[c->op->slot[k]];
    u64 lo = (u64)s.base + s.aoff, hi = lo + s.alen;
    if (pg + 4096 > lo && pg < hi) { *prot = PROT_READ | PROT_WRITE; return 1; }
  }
  int rr[2] = {c->op->ro, c->op->ro2};
  for (int k = 0; k < 2; k++) if (rr[k] >= 0) {
    Ro &s = ros[rr[k]];
    u64 lo = (u64)s.base + s.off, hi = lo + s.len;
    if (pg + 4096 > lo && pg < hi) { *prot = PROT_READ; return 1; }
  }
  return 0;
}

/* ------------------------------------------------------------------ signals */
static const char *where(u64 rip) {
  static char b[64];
  if (rip >= (u64)__start_libtext && rip < (u64)__stop_libtext) snprintf(b, sizeof b, "library code +0x%llx", (unsigned long long)(rip - (u64)__start_libtext));
  else snprintf(b, sizeof b, "0x%llx", (unsigned long long)rip);
  return b;
}

static bool cpu_active;
static void on_fault(int sig, siginfo_t *si, void *ucv) {
  ucontext_t *uc = (ucontext_t *)ucv;
  u64 rip = uc->uc_mcontext.gregs[REG_RIP], err = uc->uc_mcontext.gregs[REG_ERR];
  OpCtx *c = me ? me->ctx : NULL;
  if (cpu_active) finish("crash", "avx2_supported raised signal %d at %s", sig, where(rip));
  if (!c || !c->active) { fprintf(stderr, "stepsim: own fault, signal %d at %llx addr %p\n", sig, (unsigned long long)rip, si->si_addr); _exit(78); }
  const char *nm = FNS[c->op->f].name;
  if (sig == SIGSEGV && (si->si_code == SEGV_ACCERR || si->si_code == SEGV_MAPERR)) {
    u64 a = (u64)si->si_addr, pg = a & ~4095ull;
    bool wr = err & 2;
    int prot = 0;
    if (mode == 8 && page_owner(c, pg, &prot) && !(wr && !(prot & PROT_WRITE))) {
      static u64 last_rip; static int same;
      if (rip == last_rip) same++; else { same = 0; last_rip = rip; }
      S.pgfaults++; mix(pg);
      if (evict_rate && same < 20 && (int)(evict_rng->next() % 100) < evict_rate) {
        /* memory pressure: pages that were not touched just now go away again */
        for (int k = 0; k < 3; k++) if (c->op->slot[k] >= 0) for (int p = 0; p < SLOT_PAGES; p++) {
          u64 q = (u64)slots[c->op->slot[k]].base + p * 4096; bool keep = q == pg;
          for (int i = 0; i < 3; i++) if (recent[i] == q) keep = true;
          if (!keep) { mprotect((void *)q, 4096, PROT_NONE); S.evictions++; }
        }
      }
      recent[nrecent++ % 3] = pg;
      mprotect((void *)pg, 4096, prot);
      return;
    }
    u64 i = (a - SLOT_BASE) / AREA, j = (a - RO_BASE) / AREA;
    if (a >= RO_BASE && a < RO_BASE + MAXRO * AREA) {
      u64 o = a - (RO_BASE + j * AREA + 4096);
      bool given = (int)j == c->op->ro || (int)j == c->op->ro2;
      int lo = ros[j].off, hi = lo + ros[j].len;
      if (wr && o < (u64)SLOT_BYTES) finish("ro-write", "%s writes to read-only operand %d, byte %lld (operand at %d..%d), at %s", nm, (int)j, (long long)o, lo, hi, where(rip));
      finish("out-of-bounds", "%s %s byte %lld of read-only area %d (operand at %d..%d%s), at %s", nm, wr ? "writes" : "reads", (long long)o, (int)j, lo, hi, given ? "" : ", not given", where(rip));
    }
    if (a >= SLOT_BASE && a < SLOT_BASE + MAXSLOT * AREA) {
      i64 o = (i64)(a - (SLOT_BASE + i * AREA + 4096));
      finish("out-of-bounds", "%s %s byte %lld of array area %d (array at %d..%d), at %s", nm, wr ? "writes" : "reads", (long long)o, (int)i, slots[i].aoff, slots[i].aoff + slots[i].alen, where(rip));
    }
    finish("crash", "%s %s unmapped address %llx at %s", nm, wr ? "writes to" : "reads from", (unsigned long long)a, where(rip));
  }
  finish("crash", "%s raised signal %d (code %d) at %s", nm, sig, si->si_code, where(rip));
}

static void fire(OpCtx *c, Event &e, ucontext_t *uc) {
  u64 rip = uc->uc_mcontext.gregs[REG_RIP];
  if (S.nsite < 64) S.site[S.nsite++] = rip;
  mix(rip); mix(e.act); mix(me->id);
  progress++;
  control(c, FNS[c->op->f].name);
  stir(c, (u64)c->ev + 1);
  int my = me->id;
  switch (e.act) {
    case 1: {                               /* another thread continues */
      int j = next_thread(e.arg);
      if (j >= 0 && j != my) { S.switches++; give(j); take(); }
      break; }
    case 2: {                               /* the handler calls the library */
      volatile u8 junk[6000];
      Rng r(rip + c->ev);
      if (mode == 6) for (size_t i = 0; i < sizeof junk; i++) junk[i] = (u8)r.next();
      S.nested++;
      u64 so = me->stepover; me->stepover = 0;
      for (size_t i = 0; i < e.nested.size(); i++) run_op(&e.nested[i], 1000 + (int)i);
      me->stepover = so;
      /* the handler's own use of registers a handler may use freely */
      asm volatile("vpcmpeqd %%ymm0,%%ymm0,%%ymm0; vmovdqa %%ymm0,%%ymm1; vmovdqa %%ymm0,%%ymm2; vmovdqa %%ymm0,%%ymm3; vmovdqa %%ymm0,%%ymm4; vmovdqa %%ymm0,%%ymm5; vmovdqa %%ymm0,%%ymm6; vmovdqa %%ymm0,%%ymm7; vmovdqa %%ymm0,%%ymm8; vmovdqa %%ymm0,%%ymm15" ::: "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm15", "memory");
      break; }
    case 3:                                 /* abandoned: jump out of the handler */
      S.abandoned++;
      siglongjmp(c->jb, 1);
    case 4: case 5: {                       /* abandoned: the thread ends / is never scheduled again */
      S.abandoned++;
      c->active = false;
      for (OpCtx *x = c; x; x = x->up) for (int k = 0; k < 3; k++) if (x->op->slot[k] >= 0) slots[x->op->slot[k]].busy = 0;
      me->done = me->dead = true;
      int j = next_thread(-1);
      if (j >= 0) give(j); else { all_done = 1; fpost(&all_done); }
      if (e.act == 4) for (;;) syscall(SYS_exit, 0);
      for (;;) pause(); }
  }
  /* nothing but this thread's own earlier writes may be seen here */
  control(NULL, "after an interruption");
}

static void on_trap(int, siginfo_t *si, void *ucv) {
  ucontext_t *uc = (ucontext_t *)ucv;
  greg_t *g = uc->uc_mcontext.gregs;
  int sav_errno = errno;
  if (profiling) {
    u64 a = g[REG_RIP] - 1;
    if (si->si_code == SI_KERNEL && a >= (u64)__start_libtext && a < (u64)__stop_libtext) {
      *(volatile u8 *)a = profile_orig[a - (u64)__start_libtext];
      prof.push_back(a);
      g[REG_RIP] = a;
    }
    return;
  }
  bool brk = si->si_code == SI_KERNEL;
  OpCtx *c = me->ctx;
  if (brk && !bp_armed(g[REG_RIP] - 1)) {
    if (c && c->active) finish("crash", "%s executed a trap instruction at %s", FNS[c->op->f].name, where(g[REG_RIP] - 1));
    _exit(78);
  }
  S.steps++;
  if (brk) {
    u64 a = g[REG_RIP] - 1;
    g[REG_RIP] = a;
    if (c && c->active && c->armed && !c->inburst && c->op->ev[c->ev].addr == a) {
      Event &e = c->op->ev[c->ev];
      if (++c->hits == e.hit) {
        if (e.steps) { c->inburst = true; c->burst = e.steps; }
        else {
          c->armed = false;
          bp_disarm(a);
          fire(c, e, uc);
          c->ev++; c->hits = 0;
          if (c->ev < (int)c->op->ev.size()) { bp_arm(c->op->ev[c->ev].addr); c->armed = true; }
        }
      }
    }
  } else {
    if (me->stepover) { u64 a = me->stepover; me->stepover = 0; if (bp_armed(a)) bp_set(a, true); }
    g[REG_EFL] &= ~0x100ll;
    if (c && c->inburst) {
      u64 rip = g[REG_RIP];
      if (!c->active || (rip >= (u64)tramp && rip < (u64)tramp_end)) c->inburst = false;     /* the call has returned: nothing left to interrupt */
      else if (--c->burst == 0) {
        Event &e = c->op->ev[c->ev];
        c->inburst = false; c->armed = false;
        bp_disarm(e.addr);
        fire(c, e, uc);
        c->ev++; c->hits = 0;
        if (c->ev < (int)c->op->ev.size()) { bp_arm(c->op->ev[c->ev].addr); c->armed = true; }
      }
    }
  }
  u64 rip = g[REG_RIP];
  if (bp_armed(rip)) { bp_set(rip, false); me->stepover = rip; g[REG_EFL] |= 0x100; }
  else g[REG_EFL] &= ~0x100ll;
  if (c && c->inburst) g[REG_EFL] |= 0x100;
  errno = sav_errno;
}

/* a call waits for another one (a lock): let the others run */
static void on_spin(int, siginfo_t *, void *) {
  if (!me || holder != me->id) return;
  int j = -1;
  for (int k = 1; k < nthr; k++) { int x = (me->id + k) % nthr; if (!ts[x].done) { j = x; break; } }
  S.spins++;
  if (j < 0) return;
  int my = me->id;
  OpCtx *c = me->ctx;
  if (c && c->active) { control(c, FNS[c->op->f].name); stir(c, 99); }
  (void)my;
  give(j); take();
}

static void install(int sig, void (*h)(int, siginfo_t *, void *), bool alt) {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = h; sa.sa_flags = SA_SIGINFO | SA_NODEFER | (alt ? SA_ONSTACK : 0);
  sigaction(sig, &sa, NULL);
}

static void *thread_main(void *arg) {
  me = (TS *)arg;
  me->tid = (pid_t)syscall(SYS_gettid);
  stack_t ss; ss.ss_sp = me->alt; ss.ss_size = 512 * 1024; ss.ss_flags = 0;
  sigaltstack(&ss, NULL);
  take();
  for (size_t i = 0; i < thr[me->id].ops.size(); i++) run_op(&thr[me->id].ops[i], (int)i);
  control(NULL, "thread end");
  me->done = true;
  int j = next_thread(-1);
  if (j >= 0) give(j); else { fpost(&all_done); }
  for (;;) pause();                          /* thread teardown would not be under our control */
  return NULL;
}

static void setup_process() {
  install(SIGTRAP, on_trap, mode != 6);
  install(SIGSEGV, on_fault, true); install(SIGBUS, on_fault, true); install(SIGILL, on_fault, true); install(SIGFPE, on_fault, true);
  install(SIGUSR1, on_spin, mode != 6);
}

static void do_run() {
  memset(&S, 0, sizeof S); S.hash = 1469598103934665603ull;
  mode = T();
  SLOT_PAGES = T(); SLOT_BYTES = SLOT_PAGES * 4096; if (SLOT_PAGES < 4 || SLOT_PAGES > 128) _exit(77);
  evict_rate = T(); u64 eseed = T(); evict_rng = new Rng(eseed); set_ident(eseed);
  nslots = T(); nros = T(); nthr = T();
  for (int i = 0; i < nros; i++) make_ro(i);
  for (int i = 0; i < nslots; i++) {
    slots[i].base = map_area(SLOT_BASE + i * AREA + 4096);
    slots[i].shadow = (u8 *)own_alloc(SLOT_BYTES);
    slots[i].busy = 0; slots[i].aoff = slots[i].alen = 0;
    fill_slack(slots[i], 1000 + i);
  }
  int first = T();
  for (int i = 0; i < nthr; i++) finish_order.push_back(T());
  thr.resize(nthr);
  for (int i = 0; i < nthr; i++) { int k = T(); for (int j = 0; j < k; j++) thr[i].ops.push_back(parse_op()); }
  setup_process();
  for (int i = 0; i < nthr; i++) {
    ts[i].id = i; ts[i].alt = (u8 *)mmap((void *)(0x400000000ull + i * 0x1000000ull), 512 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    void *st = mmap((void *)(0x500000000ull + i * 0x1000000ull), 12 * 1024 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, 12 * 1024 * 1024);
    if (pthread_create(&ts[i].th, &at, thread_main, &ts[i])) _exit(77);
  }
  give(first);
  /* wait; when nothing has moved for a long time, somebody waits for somebody else */
  u64 last = progress; int stuck = 0, spins = 0; u64 lastops = 0; double cpu0 = -1;
  while (!all_done) {
    struct timespec t = {0, 200 * 1000000};
    syscall(SYS_futex, &all_done, FUTEX_WAIT, 0, &t, NULL, 0);
    if (all_done) break;
    if (progress != last) { last = progress; stuck = 0; cpu0 = -1; continue; }
    /* stuck: 3 s of processor time in one call, or 10 s without using the processor */
    clockid_t ck; struct timespec cp = {0, 0};
    if (!pthread_getcpuclockid(ts[holder].th, &ck)) clock_gettime(ck, &cp);
    double cpu = cp.tv_sec + cp.tv_nsec * 1e-9;
    if (cpu0 < 0) cpu0 = cpu;
    if (++stuck < 50 && cpu - cpu0 < 3) continue;
    stuck = 0; cpu0 = -1;
    if (mode == 5 && spins < 4 * nthr) { if ((u64)S.ops != lastops) { lastops = S.ops; spins = 0; } spins++; int h = holder; syscall(SYS_tgkill, getpid(), ts[h].tid, SIGUSR1); continue; }
    S.hash = 0;
    finish("hang", "thread %d does not finish its call of %s although nothing disturbs it any more", holder, ts[holder].ctx ? FNS[ts[holder].ctx->op->f].name : "?");
  }
  for (int i = 0; i < nslots; i++) check_slot_range(i, 0, SLOT_BYTES, "end of run");
  for (int i = 0; i < nros; i++) if (memcmp(ros[i].base, ros[i].copy, SLOT_BYTES)) finish("ro-write", "read-only operand %d changed", i);
  finish("-", "ok");
}

static std::vector<u64> universe;

static void do_profile() {
  memset(&S, 0, sizeof S);
  mode = 5; profiling = true;
  nslots = T(); nros = T();
  for (int i = 0; i < nros; i++) make_ro(i);
  for (int i = 0; i < nslots; i++) { slots[i].base = map_area(SLOT_BASE + i * AREA + 4096); slots[i].shadow = (u8 *)own_alloc(SLOT_BYTES); fill_slack(slots[i], 1000 + i); }
  Op o = parse_op();
  setup_process();
  size_t len = __stop_libtext - __start_libtext;
  profile_orig = (u8 *)malloc(len);
  memcpy(profile_orig, __start_libtext, len);
  prof.reserve(universe.size());
  for (u64 a : universe) *(volatile u8 *)a = 0xcc;
  ts[0].id = 0; me = &ts[0]; ts[0].alt = (u8 *)malloc(512 * 1024);
  stack_t ss; ss.ss_sp = me->alt; ss.ss_size = 512 * 1024; ss.ss_flags = 0;
  sigaltstack(&ss, NULL);
  run_op(&o, 0);
  std::string b;
  char t[32];
  for (u64 a : prof) { snprintf(t, sizeof t, "%llx ", (unsigned long long)a); b += t; }
  b += "\n";
  const char *p = b.data(); size_t k = b.size();
  while (k > 0) { ssize_t w = write(out_fd, p, k); if (w <= 0) break; p += w; k -= w; }
  _exit(0);
}

/* ------------------------------------------------------------------ emulated processor (C09) */
extern "C" bool avx2_supported(void) __attribute__((weak));
struct Cpu { u32 maxleaf; u32 l1[4], l7[4], top[4], hyp; u64 xcr0; u32 vendor[3]; };
static Cpu cpu; static int cpu_insns, cpu_cpuid, cpu_xgetbv; 

static void emulate_cpuid(u32 leaf, u32 sub, u32 r[4]) {
  r[0] = r[1] = r[2] = r[3] = 0;
  if (leaf == 0) { r[0] = cpu.maxleaf; r[1] = cpu.vendor[0]; r[3] = cpu.vendor[1]; r[2] = cpu.vendor[2]; return; }
  if (leaf >= 0x40000000u && leaf < 0x50000000u) { r[0] = cpu.hyp; return; }
  if (leaf >= 0x80000000u) { if (leaf == 0x80000000u) r[0] = 0x80000008u; return; }
  if (leaf > cpu.maxleaf) {                 /* Intel: data of the highest basic leaf */
    if (cpu.maxleaf == 1) memcpy(r, cpu.l1, 16); else memcpy(r, cpu.top, 16);
    return;
  }
  if (leaf == 1) { memcpy(r, cpu.l1, 16); return; }
  if (leaf == 7) { if (sub == 0) memcpy(r, cpu.l7, 16); return; }
  if (leaf == cpu.maxleaf) { memcpy(r, cpu.top, 16); return; }
}

static u8 cpu_entry;
static void on_step(int, siginfo_t *si, void *ucv) {
  ucontext_t *uc = (ucontext_t *)ucv;
  greg_t *g = uc->uc_mcontext.gregs;
  if (si->si_code == SI_KERNEL && (u64)g[REG_RIP] - 1 == (u64)avx2_supported) {
    *(volatile u8 *)avx2_supported = cpu_entry;
    g[REG_RIP]--;
    cpu_active = true;
  }
  for (;;) {
    u64 rip = g[REG_RIP];
    if (rip >= (u64)tramp && rip < (u64)tramp_end) {
      cpu_active = false; g[REG_EFL] &= ~0x100ll; return;      /* returned */
    }
    if (!cpu_active) { g[REG_EFL] &= ~0x100ll; return; }
    if (++cpu_insns > 20000) finish("hang", "avx2_supported does not return within 20000 instructions");
    const u8 *p = (const u8 *)rip;
    if (p[0] == 0x0f && p[1] == 0xa2) {
      u32 r[4]; u32 leaf = (u32)g[REG_RAX], sub = (u32)g[REG_RCX];
      emulate_cpuid(leaf, sub, r);
      mix(leaf); cpu_cpuid++;
      g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3];
      g[REG_RIP] += 2;
      continue;
    }
    if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd0) {
      cpu_xgetbv++;
      if (!(cpu.l1[2] & (1u << 27))) finish("illegal-instruction", "avx2_supported executes xgetbv although the operating system has not enabled it (CPUID.1:ECX.OSXSAVE = 0)");
      u32 x = (u32)g[REG_RCX];
      if (x != 0) finish("illegal-instruction", "avx2_supported executes xgetbv with ECX = %u", x);
      g[REG_RAX] = (u32)cpu.xcr0; g[REG_RDX] = (u32)(cpu.xcr0 >> 32);
      g[REG_RIP] += 3;
      continue;
    }
    /* vector instructions need the state they test for */
    const u8 *q = p;
    if (*q == 0xc5 || *q == 0xc4 || *q == 0x62) {
      u32 need = (1u << 27) | (1u << 28);
      if ((cpu.l1[2] & need) != need || (cpu.xcr0 & 6) != 6) finish("illegal-instruction", "avx2_supported executes a vector instruction this configuration does not support");
    }
    mix(rip - (u64)__start_libtext);
    g[REG_EFL] |= 0x100;
    return;
  }
}

static void do_cpu() {
  memset(&S, 0, sizeof S); S.hash = 1469598103934665603ull;
  if (!avx2_supported) finish("-", "absent");
  cpu.maxleaf = T();
  for (int i = 0; i < 4; i++) cpu.l1[i] = T();
  for (int i = 0; i < 4; i++) cpu.l7[i] = T();
  for (int i = 0; i < 4; i++) cpu.top[i] = T();
  cpu.hyp = T(); cpu.xcr0 = T(); u64 seed = T();
  for (int i = 0; i < 3; i++) cpu.vendor[i] = T();
  if (cpu.maxleaf == 7) memcpy(cpu.top, cpu.l7, 16);
  install(SIGTRAP, on_step, true);
  install(SIGSEGV, on_fault, true); install(SIGBUS, on_fault, true); install(SIGILL, on_fault, true); install(SIGFPE, on_fault, true);
  static u8 alt[1 << 19];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
  sigaltstack(&ss, NULL);
  Rng g(seed);
  CF cf; memset(&cf, 0, sizeof cf);
  for (int i = 0; i < 6; i++) cf.a[i] = g.next();
  for (int i = 0; i < 6; i++) cf.cs[i] = g.next();
  for (int i = 0; i < 512; i++) cf.vec[i] = (u8)g.next();
  cf.canary = g.next(); cf.r10 = g.next(); cf.r11 = g.next(); cf.rax_in = g.next();
  cf.fn = (u64)avx2_supported;
  cf.mx_call = 0x1f80; cf.cw_call = 0x37f;
  cur_cf = &cf;
  cpu_entry = *(u8 *)avx2_supported;
  *(volatile u8 *)avx2_supported = 0xcc;
  tramp(&cf);
  if (cpu_active || cpu_insns == 0) _exit(78);
  bool want = cpu.maxleaf >= 7 && (cpu.l1[2] >> 27 & 1) && (cpu.l1[2] >> 28 & 1) && (cpu.l7[1] >> 5 & 1) && (cpu.xcr0 & 6) == 6;
  bool got = cf.rax & 0xff;
  mix(got); mix(cpu_insns);
  S.ops = cpu_insns; S.switches = cpu_cpuid; S.nested = cpu_xgetbv;
  if ((cf.rax & 0xff) > 1) finish("wrong-answer", "avx2_supported returned the boolean %llu", (unsigned long long)(cf.rax & 0xff));
  if (got != want) finish("wrong-answer", "avx2_supported() = %d, but max leaf %u, OSXSAVE %u, AVX %u, AVX2 %u, XCR0 %llx means %d", got, cpu.maxleaf, cpu.l1[2] >> 27 & 1, cpu.l1[2] >> 28 & 1,
                          cpu.l7[1] >> 5 & 1, (unsigned long long)cpu.xcr0, want);
  static const char *rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
  for (int i = 0; i < 6; i++) if (cf.out[i] != cf.cs[i]) finish("register-lost", "avx2_supported returned with %s changed", rn[i]);
  if (cf.rsp_out != cf.rsp_in) finish("register-lost", "avx2_supported returned with rsp moved");
  if (cf.flags & 0x400) finish("register-lost", "avx2_supported returned with the direction flag set");
  if ((cf.mx_call ^ cf.mx_out) & ~0x3fu) finish("register-lost", "avx2_supported returned with the MXCSR control bits changed");
  if (cf.bad) finish("stack-overwritten", "avx2_supported overwrote its caller's stack frame");
  finish("-", "%d", want);
}

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  if (argc > 1) {
    FILE *f = fopen(argv[1], "r");
    if (!f) { perror(argv[1]); return 77; }
    unsigned long long a;
    while (fscanf(f, "%llx", &a) == 1) universe.push_back(a);
    fclose(f);
  }
  u64 lo = (u64)__start_libtext & ~4095ull, hi = ((u64)__stop_libtext + 4095) & ~4095ull;
  if (mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); return 77; }
  static char *line = NULL; size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, stdin)) > 0) {
    if (line[0] == 'F') {
      for (int i = 0; i < NFNS; i++) printf("%s %d\n", FNS[i].name, FNS[i].p != NULL);
      printf("\n"); fflush(stdout);
      continue;
    }
    tok.clear(); tp = 0;
    char *p = line + 1, *e;
    for (;;) { long long v = strtoll(p, &e, 10); if (e == p) break; tok.push_back(v); p = e; }
    int pf[2]; if (pipe(pf)) return 77;
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(pf[0]); out_fd = pf[1];
      if (line[0] == 'P') do_profile();
      if (line[0] == 'C') do_cpu();
      do_run();
      _exit(77);
    }
    close(pf[1]);
    std::string r; char buf[4096];
    bool dead = false;
    for (;;) {
      struct pollfd pp = {pf[0], POLLIN, 0};
      int k = poll(&pp, 1, 120000);
      if (k == 0) { kill(pid, SIGKILL); dead = true; break; }
      ssize_t g = read(pf[0], buf, sizeof buf);
      if (g <= 0) break;
      r.append(buf, g);
    }
    close(pf[0]);
    int st; waitpid(pid, &st, 0);
    if (dead) r = "hang|the run did not end|0|||\n";
    else if (r.empty() || r.back() != '\n') {
      char t[100];
      if (WIFSIGNALED(st)) snprintf(t, sizeof t, "crash|process ended by signal %d|%d|||\n", WTERMSIG(st), WTERMSIG(st));
      else snprintf(t, sizeof t, "ERROR|exit status %d|0|||\n", WEXITSTATUS(st));
      r = t;
    }
    fwrite(r.data(), 1, r.size(), stdout); fflush(stdout);
  }
  return 0;
}
