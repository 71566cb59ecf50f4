// Simulation of the interval analysis (src/intervals.c, ntt_red_interval.c,
// red_bounds.c): real code, simulated allocator, one forked child per run.
#include "alloc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <sstream>
#include <iostream>
extern "C" {
#include "ntt_red_interval.h"
#include "red_bounds.h"
#define R(n) void real_##n(int32_t *, uint32_t, const int16_t *);
R(ntt_red_ct_rev2std) R(mulntt_red_ct_rev2std) R(ntt_red_ct_std2rev) R(mulntt_red_ct_std2rev)
R(ntt_red_gs_rev2std) R(nttmul_red_gs_rev2std) R(ntt_red_gs_std2rev) R(nttmul_red_gs_std2rev)
}
typedef int64_t i64;
typedef __int128 i128;
typedef std::vector<i64> W;
typedef int (*main_t)(void);
#define X(n) extern "C" int prog_##n(void);
PROGRAMS
#undef X
struct Prog { const char *name; main_t f; };
static Prog progs[] = {
#define X(n) {#n, prog_##n},
PROGRAMS
#undef X
};
static const int NPROG = sizeof progs / sizeof progs[0];

struct Iv { i64 lo, hi; };
struct Op { std::string k; int a = 0, b = 0, c = 0; long n = 0, w = 0; uint64_t seed = 0; i64 v[4] = {0, 0, 0, 0}; };
struct Rec { int op; uint32_t n; uint32_t in_off[3], in_n[3], out_off; uint64_t so0, so1; };
struct Rep {
  AnaState st;
  int done, at_op, skipped, ran, checks, realruns, outside32, stops;
  char cls[48], detail[512];
  uint64_t hash;
  uint32_t nrec, niv;
  Rec rec[64];
  Iv iv[64 * 4096];
};
static Rep *rep;
static int out_fd, err_fd;
static bool judging = true;      // C11 checks on (off in fault runs)

static void fail(const char *cls, const char *fmt, ...) {
  if (!rep->cls[0]) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(rep->detail, sizeof rep->detail, fmt, ap);
    va_end(ap);
    strncpy(rep->cls, cls, sizeof rep->cls - 1);
  }
  fflush(stdout);
  _exit(77);
}
static void die_misuse() { fail("memory", "%s", ana_st->error); }
static void mix(uint64_t x) { rep->hash = (rep->hash ^ x) * 0x100000001b3ull; rep->hash ^= rep->hash >> 29; }

struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  i64 in(i64 lo, i64 hi) { return lo + (i64)((next() >> 11) % (uint64_t)(hi - lo + 1)); } };

// ------------------------------------------------------------ concrete semantics
static const i64 Q = 12289;
static inline i64 cred(i64 x) { return 3 * (x & 4095) - (x >> 12); }
static inline i64 cmod(i64 x) { i64 r = x % Q; return r < 0 ? r + Q : r; }

static void keep(W &w, Rng &g) {       // 8 smallest, 8 largest, 8 others
  std::sort(w.begin(), w.end());
  w.erase(std::unique(w.begin(), w.end()), w.end());
  if (w.size() <= 24) return;
  W r(w.begin(), w.begin() + 8);
  r.insert(r.end(), w.end() - 8, w.end());
  for (int i = 0; i < 8; i++) r.push_back(w[g.in(8, w.size() - 9)]);
  w.swap(r);
}
static W pick(Iv a, Rng &g, int n) {
  W w; w.push_back(a.lo); w.push_back(a.hi);
  for (int i = 0; i < n; i++) w.push_back(g.in(a.lo, a.hi));
  return w;
}
// values red(k*x) for x in [lo,hi]; exact extremes (they lie within one period of an end)
static W redscale(Iv a, i64 k, Rng &g, int limit = 4096) {
  W w;
  i64 best[4] = {INT64_MIN, INT64_MIN, INT64_MAX, INT64_MAX};
  auto put = [&](i64 x) { i64 r = cred(k * x); if (r > best[0]) { best[1] = best[0]; best[0] = r; } if (r < best[2]) { best[3] = best[2]; best[2] = r; } };
  i64 m = std::min<i128>(limit, (i128)a.hi - a.lo + 1);
  for (i64 i = 0; i < m; i++) { put(a.lo + i); put(a.hi - i); }
  for (i64 b : best) if (b != INT64_MIN && b != INT64_MAX) w.push_back(b);
  for (i64 x : pick(a, g, 6)) w.push_back(cred(k * x));
  return w;
}
static W redof(const W &y, i64 k) { W w; for (i64 v : y) w.push_back(cred(k * v)); return w; }
static W comb(const W &a, const W &b, int sign, Rng &g) {   // realisable sums of independent values
  W r;
  W x = a, y = b;
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  int m = std::min<size_t>(4, x.size()), k = std::min<size_t>(4, y.size());
  for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) {
    r.push_back(x[i] + sign * (sign > 0 ? y[j] : y[y.size() - 1 - j]));
    r.push_back(x[x.size() - 1 - i] + sign * (sign > 0 ? y[y.size() - 1 - j] : y[j]));
  }
  for (int i = 0; i < 16; i++) r.push_back(x[g.in(0, x.size() - 1)] + sign * y[g.in(0, y.size() - 1)]);
  keep(r, g);
  return r;
}

// the eight networks: kind 0..7; bit0 premul/postmul variant
struct Slot { bool leaf; Iv iv; W w; };
static W vals(const Slot &s, Rng &g) { return s.leaf ? pick(s.iv, g, 6) : s.w; }
static void butterfly(Slot &lo, Slot &hi, bool gs, bool unit, i64 w, Rng &g, int scan) {
  Slot x = lo, y = hi;
  lo.leaf = hi.leaf = false;
  if (!gs) {
    W z = unit ? vals(y, g) : y.leaf ? redscale(y.iv, w, g, scan) : redof(y.w, w);
    W xv = vals(x, g);
    lo.w = comb(xv, z, +1, g); hi.w = comb(xv, z, -1, g);
  } else {
    W xv = vals(x, g), yv = vals(y, g);
    lo.w = comb(xv, yv, +1, g);
    if (unit) hi.w = comb(xv, yv, -1, g);
    else if (x.leaf && y.leaf) { hi.w = redscale({x.iv.lo - y.iv.hi, x.iv.hi - y.iv.lo}, w, g, scan); keep(hi.w, g); }
    else { hi.w = redof(comb(xv, yv, -1, g), w); keep(hi.w, g); }
  }
}
static const auto nostage = []() {};
template <class F, class G = decltype(nostage)> static void network(int kind, uint32_t n, F f, G stage = nostage) {   // f(i, j, gs, unit, index of p); stage() after each round
  bool gs = kind >= 4, mul = kind & 1, blockwise = kind == 0 || kind == 1 || kind == 6 || kind == 7;
  std::vector<uint32_t> ts;
  for (uint32_t t = 1; t < n; t <<= 1) ts.push_back(t);
  if (gs) std::reverse(ts.begin(), ts.end());
  for (uint32_t t : ts) {
    for (uint32_t j = 0; j < t; j++) {
      bool unit = !mul && j == 0;
      if (blockwise) for (uint32_t s = j; s < n; s += 2 * t) f(s, s + t, gs, unit, t + j);
      else { uint32_t d = n / (2 * t); for (uint32_t s = 2 * d * j; s < 2 * d * j + d; s++) f(s, s + d, gs, unit, t + j); }
    }
    stage();
  }
}
typedef void (*abs1_t)(interval_t **, uint32_t, const int16_t *);
typedef void (*abs2_t)(interval_t **, uint32_t, const interval_t **);
typedef void (*real_t)(int32_t *, uint32_t, const int16_t *);
static abs1_t A1[8] = {abstract_ntt_red_ct_rev2std, abstract_mulntt_red_ct_rev2std, abstract_ntt_red_ct_std2rev, abstract_mulntt_red_ct_std2rev,
                       abstract_ntt_red_gs_rev2std, abstract_nttmul_red_gs_rev2std, abstract_ntt_red_gs_std2rev, abstract_nttmul_red_gs_std2rev};
static abs2_t A2[8] = {abstract2_ntt_red_ct_rev2std, abstract2_mulntt_red_ct_rev2std, abstract2_ntt_red_ct_std2rev, abstract2_mulntt_red_ct_std2rev,
                       abstract2_ntt_red_gs_rev2std, abstract2_nttmul_red_gs_rev2std, abstract2_ntt_red_gs_std2rev, abstract2_nttmul_red_gs_std2rev};
static real_t RN[8] = {real_ntt_red_ct_rev2std, real_mulntt_red_ct_rev2std, real_ntt_red_ct_std2rev, real_mulntt_red_ct_std2rev,
                       real_ntt_red_gs_rev2std, real_nttmul_red_gs_rev2std, real_ntt_red_gs_std2rev, real_nttmul_red_gs_std2rev};

static std::vector<int16_t> ptable(uint32_t n, long kind, uint64_t seed) {
  Rng g(seed);
  std::vector<int16_t> p(n ? n : 1);
  i64 q = g.in(2, Q - 1), v = g.in(1, Q - 1);
  for (auto &x : p) {
    if (kind == 0) x = g.in(-6144, 6144);
    else if (kind == 1) { v = v * q % Q; x = v > 6144 ? v - Q : v; }
    else if (kind == 2) { static const i64 s[] = {-6144, 6144, 1, -1, 4096, -4096, 2048, 3, -4095, 0}; x = s[g.in(0, 9)]; }
    else x = g.in(-6144, 6144) & ~(i64)((1 << g.in(0, 11)) - 1);
  }
  return p;
}

// ------------------------------------------------------------ the run
static const int PAD = 4;
struct Arr { uint32_t n = 0; std::vector<interval_t *> v; interval_t **p() { return v.data() + PAD; } };
static Arr A[4];
static interval_t sentinel;

static Iv gen_iv(long kind, Rng &g) {
  i64 a, b;
  switch (kind) {
    case 0: return {0, Q - 1};
    case 1: return {-6144, 6144};
    case 2: return {-21499, 21499};
    case 3: a = g.in(0, Q - 1); return {a, a};
    case 4: a = g.in(0, Q - 1); b = g.in(0, Q - 1); break;
    case 5: a = g.in(-Q, 2 * Q - 1); b = g.in(-Q, 2 * Q - 1); break;
    case 6: { i64 m = (i64)1 << g.in(2, 40); a = g.in(-m, m); b = g.in(0, 1) ? a + g.in(0, std::min<i64>(m, 9000)) : g.in(-m, m); break; }
    case 7: { static const i64 e[] = {0, 1, -1, 4095, 4096, -4096, -4095, 6144, 6145, -6144, 12288, 12289, -12289, 24577, -12288, 8192, 2147483647, -2147483648LL, 2147483648LL};
              a = e[g.in(0, 18)]; b = e[g.in(0, 18)]; break; }
    case 8: a = g.in(-6144, 6144); return {a, a + g.in(0, 12)};       // narrow: factors of abstract products
    case 9: a = g.in(-6144, 6144); return {a, a};
    case 11: a = g.in(-40, 40); b = a + g.in(0, 40); break;             // few values
    case 12: if (g.in(0, 2)) return {0, 0}; a = g.in(-6144, 6144); b = g.in(-6144, 6144); break;
    default: a = g.in(-2147483648LL, 2147483647LL); b = g.in(-2147483648LL, 2147483647LL);
  }
  if (a > b) std::swap(a, b);
  return {a, b};
}
static std::vector<Iv> snap(Arr &a) { std::vector<Iv> r; for (uint32_t i = 0; i < a.n; i++) r.push_back({a.p()[i]->min, a.p()[i]->max}); return r; }
static void fresh(Arr &a, uint32_t n) { a.n = n; a.v.assign(n + 2 * PAD, &sentinel); for (uint32_t i = 0; i < n; i++) a.p()[i] = 0; }
static void check_slots(int opi, const char *k) {
  std::map<const void *, int> seen;
  for (int t = 0; t < 4; t++) {
    Arr &a = A[t];
    if (a.v.empty()) continue;
    for (int i = 0; i < PAD; i++) if (a.v[i] != &sentinel || a.v[a.n + PAD + i] != &sentinel) fail("slots", "op %d (%s) wrote outside array %d", opi, k, t);
    for (uint32_t i = 0; i < a.n; i++) {
      interval_t *p = a.p()[i];
      if (!p) fail("slots", "op %d (%s): array %d slot %u is empty", opi, k, t, i);
      if (ana_lookup(p) == 0) fail("slots", "op %d (%s): array %d slot %u holds a freed interval", opi, k, t, i);
      if (seen.count(p)) fail("slots", "op %d (%s): array %d slot %u shares its interval with another slot", opi, k, t, i);
      seen[p] = 1;
      if (p->min > p->max) fail("slots", "op %d (%s): array %d slot %u is [%lld, %lld]", opi, k, t, i, (long long)p->min, (long long)p->max);
    }
  }
  if (sentinel.min != 4242 || sentinel.max != 4242) fail("slots", "op %d (%s) wrote through a slot outside the array", opi, k);
}
static i64 maxabs(const std::vector<Iv> &v) { i64 m = 0; for (auto &i : v) { m = std::max(m, i.lo < 0 ? -i.lo : i.lo); m = std::max(m, i.hi < 0 ? -i.hi : i.hi); } return m; }
static void inside(int opi, const char *k, uint32_t i, interval_t *r, const W &w) {
  rep->checks += w.size();
  for (i64 v : w) if (v < r->min || v > r->max)
    fail("enclosure", "op %d (%s): slot %u: the value %lld is produced, the bounds are [%lld, %lld]", opi, k, i, (long long)v, (long long)r->min, (long long)r->max);
}
static void same(int opi, const char *k, Arr &a, const std::vector<Iv> &s, const std::vector<interval_t *> &ptrs) {
  for (uint32_t i = 0; i < a.n; i++) {
    if (a.p()[i] != ptrs[i + PAD]) fail("slots", "op %d (%s) replaced slot %u of an array it may only read", opi, k, i);
    if (a.p()[i]->min != s[i].lo || a.p()[i]->max != s[i].hi) fail("slots", "op %d (%s) changed slot %u of an array it may only read", opi, k, i);
  }
}
static uint32_t save(const std::vector<Iv> &v) {
  if (rep->niv + v.size() > sizeof rep->iv / sizeof rep->iv[0]) return ~0u;
  uint32_t o = rep->niv;
  for (auto &x : v) rep->iv[rep->niv++] = x;
  return o;
}
static std::string slurp(int fd) {
  std::string s; char b[65536]; off_t o = 0; ssize_t k;
  while ((k = pread(fd, b, sizeof b, o)) > 0) { s.append(b, k); o += k; }
  return s;
}
// the printed report: every printed bound that leaves 32 bits needs a warning for its slot, and the last
// bounds printed for a slot are the returned ones. Returns the bounds printed for each slot, in order.
static std::vector<std::vector<Iv>> check_text(int opi, const char *k, uint64_t from, Arr &a) {
  std::string s = slurp(out_fd).substr(from);
  std::vector<std::vector<Iv>> seq(a.n); std::vector<uint32_t> warned(a.n, 0);
  std::istringstream is(s); std::string l;
  while (std::getline(is, l)) {
    size_t q = l.find("a["), c;
    if (q == std::string::npos) continue;
    unsigned i; long long x, y;
    if (sscanf(l.c_str() + q, "a[%u]", &i) != 1) continue;
    bool wl = l.find("verflow") != std::string::npos;
    if (i >= a.n) fail("printed", "op %d (%s): the report names slot %u of %u", opi, k, i, a.n);
    if (wl) warned[i]++;
    c = l.find('[', q + 2);
    if (!wl && c != std::string::npos && sscanf(l.c_str() + c, "[%lld, %lld]", &x, &y) == 2) seq[i].push_back({x, y});
  }
  for (uint32_t i = 0; i < a.n; i++) {
    interval_t *p = a.p()[i];
    bool out = p->min < INT32_MIN || p->max > INT32_MAX;
    if (out) { rep->outside32++; if (!warned[i]) fail("silent-overflow", "op %d (%s): slot %u is [%lld, %lld], outside 32 bits, and no overflow is reported", opi, k, i, (long long)p->min, (long long)p->max); }
    uint32_t outs = 0;
    for (auto &v : seq[i]) if (v.lo < INT32_MIN || v.hi > INT32_MAX) outs++;
    if (outs > warned[i]) fail("silent-overflow", "op %d (%s): %u of the bounds printed for slot %u leave 32 bits but only %u overflows are reported for it", opi, k, outs, i, warned[i]);
    if (!seq[i].empty()) {
      Iv v = seq[i].back();
      if (v.lo != p->min || v.hi != p->max)
        fail("printed", "op %d (%s): slot %u is printed as [%lld, %lld] and returned as [%lld, %lld]", opi, k, i, (long long)v.lo, (long long)v.hi, (long long)p->min, (long long)p->max);
    }
  }
  return seq;
}
static void inside_printed(int opi, const char *k, uint32_t round, uint32_t i, Iv r, const W &w) {
  rep->checks += w.size();
  for (i64 v : w) if (v < r.lo || v > r.hi)
    fail("printed", "op %d (%s): after round %u slot %u can be %lld, the printed bounds are [%lld, %lld]", opi, k, round, i, (long long)v, (long long)r.lo, (long long)r.hi);
}
static bool is_xform(const std::string &k) { return k == "x1" || k == "x2"; }

// one operation on A[]; returns false if it does not apply
static bool apply(const Op &o, int opi, bool judge) {
  const char *k = o.k.c_str();
  Arr &a = A[o.a];
  Rng g(o.seed + 17);
  if (o.k == "new") {
    if (!a.v.empty()) return false;
    Rng r(o.seed);
    fresh(a, o.n);
    for (uint32_t i = 0; i < a.n; i++) {
      Iv v = gen_iv(o.w, r);
      a.p()[i] = v.lo == v.hi && (i & 1) ? point(v.lo) : interval(v.lo, v.hi);
      if (judge && a.p()[i] && (a.p()[i]->min != v.lo || a.p()[i]->max != v.hi)) fail("enclosure", "op %d: interval(%lld, %lld) is [%lld, %lld]", opi, (long long)v.lo, (long long)v.hi, (long long)a.p()[i]->min, (long long)a.p()[i]->max);
    }
    return true;
  }
  if (a.v.empty()) return false;
  if (o.k == "del") {
    Rng r(o.seed);
    std::vector<uint32_t> ord; for (uint32_t i = 0; i < a.n; i++) ord.push_back(i);
    for (uint32_t i = a.n; i > 1; i--) std::swap(ord[i - 1], ord[r.in(0, i - 1)]);
    for (uint32_t i : ord) { delete_interval(a.p()[i]); }
    a.v.clear(); a.n = 0;
    return true;
  }
  std::vector<Iv> in = snap(a);
  i64 m = maxabs(in);
  uint32_t n = a.n;
  if (o.k == "x1" || o.k == "x2") {
    if (m > ((i64)1 << 34)) return false;
    std::vector<int16_t> p;
    int kind = o.w & 7;
    off_t so = lseek(out_fd, 0, SEEK_END);
    Arr *pa = 0; std::vector<Iv> pin; std::vector<interval_t *> pp;
    if (o.k == "x1") {
      p = ptable(n, o.b, o.seed);
      std::vector<int16_t> p0 = p;
      A1[kind](a.p(), n, p.data());
      if (judge && p != p0) fail("slots", "op %d (%s) changed its table", opi, k);
    } else {
      pa = &A[o.b];
      if (pa->v.empty() || pa == &a || pa->n < n) return false;
      pin = snap(*pa);
      if (maxabs(pin) > 6200) return false;
      i64 width = 0; for (auto &x : pin) width = std::max(width, x.hi - x.lo);
      if (width > 40 && n > 64) return false;
      pp = pa->v;
      A2[kind](a.p(), n, (const interval_t **)pa->p());
      if (judge) same(opi, k, *pa, pin, pp);
      for (uint32_t i = 0; i < n; i++) p.push_back(g.in(0, 2) ? g.in(pin[i].lo, pin[i].hi) : g.in(0, 1) ? pin[i].lo : pin[i].hi);
    }
    fflush(stdout);
    if (!judge) return true;
    check_slots(opi, k);
    std::vector<Slot> s(n);
    for (uint32_t i = 0; i < n; i++) { s[i].leaf = true; s[i].iv = in[i]; }
    int scan = n <= 64 ? 4096 : 1024;
    auto seq = check_text(opi, k, so, a);
    uint32_t rounds = 0, round = 0; for (uint32_t t = 1; t < n; t <<= 1) rounds++;
    bool every = true;                          // a report of the bounds after every round
    for (auto &v : seq) if (v.size() != rounds + 1) every = false;
    if (every) for (uint32_t i = 0; i < n; i++) inside_printed(opi, k, 0, i, seq[i][0], W{in[i].lo, in[i].hi});
    network(kind, n, [&](uint32_t i, uint32_t j, bool gs, bool unit, uint32_t pi) { butterfly(s[i], s[j], gs, unit, p[pi], g, scan); },
            [&]() { round++; if (every) for (uint32_t i = 0; i < n; i++) inside_printed(opi, k, round, i, seq[i][round], s[i].w); });
    for (uint32_t i = 0; i < n; i++) inside(opi, k, i, a.p()[i], s[i].leaf ? pick(s[i].iv, g, 2) : s[i].w);
    // the library routine the analysis speaks about, on concrete vectors
    if (m < (1 << 19)) for (int r = 0; r < 3; r++) {
      std::vector<int32_t> c(n); std::vector<i64> e(n); bool fits = true;
      for (uint32_t i = 0; i < n; i++) e[i] = c[i] = r == 0 ? g.in(in[i].lo, in[i].hi) : g.in(0, 1) ? in[i].lo : in[i].hi;
      network(kind, n, [&](uint32_t i, uint32_t j, bool gs, bool unit, uint32_t pi) {
        i64 x = e[i], y = e[j];
        if (!gs) { if (!unit) y = cred(y * p[pi]); e[i] = x + y; e[j] = x - y; }
        else { e[i] = x + y; e[j] = unit ? x - y : cred((x - y) * p[pi]); if (std::abs(x - y) > INT32_MAX) fits = false; }
        if (std::abs(e[i]) > INT32_MAX || std::abs(e[j]) > INT32_MAX) fits = false;
      });
      if (!fits) break;
      RN[kind](c.data(), n, p.data());
      rep->realruns++;
      for (uint32_t i = 0; i < n; i++) inside(opi, k, i, a.p()[i], W{c[i], e[i]});
    }
    return true;
  }
  if (o.k == "mulred") {                       // A[c] := red(A[a] * A[b])
    Arr &b = A[o.b], &c = A[o.c];
    if (b.v.empty() || !c.v.empty() || b.n != n) return false;
    std::vector<Iv> bin = snap(b);
    if (m > ((i64)1 << 24) || maxabs(bin) > ((i64)1 << 24)) return false;
    for (uint32_t i = 0; i < n; i++) if (std::min(in[i].hi - in[i].lo, bin[i].hi - bin[i].lo) > (n > 64 ? 40 : 13000)) return false;
    auto pa = a.v, pb = b.v;
    fresh(c, n);
    abstract_mul_reduce_array(c.p(), n, (const interval_t **)a.p(), (const interval_t **)b.p());
    if (!judge) return true;
    same(opi, k, a, in, pa); same(opi, k, b, bin, pb);
    check_slots(opi, k);
    for (uint32_t i = 0; i < n; i++) {
      for (i64 w : pick(bin[i], g, 3)) inside(opi, k, i, c.p()[i], redscale(in[i], w, g, 512));
      for (i64 w : pick(in[i], g, 3)) inside(opi, k, i, c.p()[i], redscale(bin[i], w, g, 512));
    }
    return true;
  }
  if (o.k == "bin") {                          // A[a][i] := A[a][i] op A[b][i], the way callers replace slots
    Arr &b = A[o.b];
    if (b.v.empty() || b.n < n || o.a == o.b) return false;
    std::vector<Iv> bin = snap(b);
    if (m > ((i64)1 << 44) || maxabs(bin) > ((i64)1 << 44)) return false;
    auto pb = b.v;
    for (uint32_t i = 0; i < n; i++) {
      interval_t *x = a.p()[i];
      a.p()[i] = o.w == 0 ? add(x, b.p()[i]) : o.w == 1 ? sub(x, b.p()[i]) : neg(x);
      delete_interval(x);
    }
    if (!judge) return true;
    same(opi, k, b, bin, pb); check_slots(opi, k);
    for (uint32_t i = 0; i < n; i++) {
      W w;
      for (i64 x : pick(in[i], g, 3)) { if (o.w == 2) w.push_back(-x); else for (i64 y : pick(bin[i], g, 3)) w.push_back(o.w ? x - y : x + y); }
      inside(opi, k, i, a.p()[i], w);
    }
    return true;
  }
  // slotwise operations
  std::vector<int16_t> p, p0;
  int32_t cst = 0;
  if (o.k == "norm") abstract_normalize(a.p(), n);
  else if (o.k == "inv3") abstract_normalize_inv3(a.p(), n);
  else if (o.k == "shift") { for (auto &x : in) if (x.lo < 0 || x.hi >= Q) return false; abstract_shift_array(a.p(), n); }
  else if (o.k == "red") abstract_reduce_array(a.p(), n);
  else if (o.k == "red2") abstract_reduce_array_twice(a.p(), n);
  else if (o.k == "correct") { for (auto &x : in) if (x.lo < -Q || x.hi >= 2 * Q) return false; abstract_correct(a.p(), n); }
  else if (o.k == "mul16") { if (m > ((i64)1 << 40)) return false; p = p0 = ptable(n, o.b, o.seed); abstract_mul_reduce_array16(a.p(), n, p.data()); if (judge && p != p0) fail("slots", "op %d (%s) changed its table", opi, k); }
  else if (o.k == "scalar") { if (m > ((i64)1 << 28)) return false; cst = (int32_t)o.v[0]; abstract_scalar_mul_reduce_array(a.p(), n, cst); }
  else return false;
  if (!judge) return true;
  check_slots(opi, k);
  for (uint32_t i = 0; i < n; i++) {
    Iv v = in[i]; W w, xs = pick(v, g, 6);
    auto cand = [&](i64 x) { if (x >= v.lo && x <= v.hi) xs.push_back(x); };
    if (o.k == "norm") { for (i64 e : {v.lo, v.hi}) for (int d = -1; d <= 1; d++) { i64 b = (e - cmod(e)) + d * Q; cand(b); cand(b - 1); } for (i64 x : xs) w.push_back(cmod(x)); }
    else if (o.k == "inv3") { for (i64 r : {(i64)0, (i64)12288, (i64)1}) { i64 x = v.lo + cmod(cmod(3 * r) - v.lo); cand(x); } for (i64 x : xs) w.push_back(cmod(cmod(x) * 8193)); }
    else if (o.k == "shift") { cand(6144); cand(6145); for (i64 x : xs) w.push_back(x <= 6144 ? x : x - Q); }
    else if (o.k == "correct") { for (i64 x : {-1, 0, 12288, 12289, 12290, -12289}) cand(x); for (i64 x : xs) w.push_back(x < 0 ? x + Q : x >= Q ? x - Q : x); }
    else if (o.k == "red") w = redscale(v, 1, g, n > 64 ? 512 : 4096);
    else if (o.k == "red2") { for (i64 e : {v.lo | 4095, v.hi & ~(i64)4095, (v.hi & ~(i64)4095) - 1, v.lo + 4096}) for (int d = -3; d <= 3; d++) cand(e + d); for (i64 x : xs) w.push_back(cred(cred(x))); }
    else w = redscale(v, o.k == "mul16" ? (i64)p[i] : (i64)cst, g, n > 64 ? 512 : 4096);
    inside(opi, k, i, a.p()[i], w);
  }
  return true;
}

// 64-bit arithmetic that does not fit must stop the program; run in a child of the child
struct Big { int done; i64 lo, hi; };
static void big_op(const Op &o, int opi) {
  static Big *b;
  if (!b) b = (Big *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  b->done = 0;
  fflush(stdout); fflush(stderr);
  int ef = memfd_create("e", 0);
  pid_t c = fork();
  if (c == 0) {
    static AnaState mine; mine = *ana_st; ana_st = &mine;
    dup2(ef, 2); dup2(ef, 1);
    if (o.w == 3) {
      Rng g(o.seed); uint32_t n = o.a, at = g.in(0, n - 1);
      std::vector<interval_t *> v(n);
      for (uint32_t i = 0; i < n; i++) v[i] = i == at ? interval(o.v[0], o.v[1]) : interval(-100, 15000);
      abstract_correct(v.data(), n);
      b->lo = v[at]->min; b->hi = v[at]->max; b->done = 1;
      _exit(0);
    }
    if (o.w == 4) {
      interval_t *r = interval(o.v[0], o.v[1]);
      b->lo = r->min; b->hi = r->max; b->done = 1;
      _exit(0);
    }
    interval_t *x = interval(o.v[0], o.v[1]), *y = interval(o.v[2], o.v[3]);
    interval_t *r = o.w == 0 ? add(x, y) : o.w == 1 ? sub(x, y) : neg(x);
    b->lo = r->min; b->hi = r->max; b->done = 1;
    delete_interval(x); delete_interval(y); delete_interval(r);
    _exit(0);
  }
  int st; waitpid(c, &st, 0);
  i128 lo, hi;
  if (o.w == 0) { lo = (i128)o.v[0] + o.v[2]; hi = (i128)o.v[1] + o.v[3]; }
  else if (o.w == 1) { lo = (i128)o.v[0] - o.v[3]; hi = (i128)o.v[1] - o.v[2]; }
  else { lo = -(i128)o.v[1]; hi = -(i128)o.v[0]; }
  bool fits = lo >= INT64_MIN && hi <= INT64_MAX;
  std::string msg = slurp(ef); close(ef);
  if (o.w >= 3) {
    bool stopped = !b->done && ((WIFEXITED(st) && WEXITSTATUS(st)) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT));
    bool valid = o.w == 4 ? o.v[0] <= o.v[1] : o.v[0] >= -Q && o.v[1] < 2 * Q;
    if (!b->done && !stopped) fail("enclosure", "op %d: the analysis crashed on [%lld, %lld]", opi, (long long)o.v[0], (long long)o.v[1]);
    if (valid && stopped) fail("stopped", "op %d: the analysis refuses the valid interval [%lld, %lld]: %s", opi, (long long)o.v[0], (long long)o.v[1], msg.substr(0, 200).c_str());
    if (stopped && msg.empty()) fail("silent-overflow", "op %d: stopped without a word on [%lld, %lld]", opi, (long long)o.v[0], (long long)o.v[1]);
    if (b->done && o.w == 4) { if (!valid || b->lo != o.v[0] || b->hi != o.v[1]) fail("enclosure", "op %d: interval(%lld, %lld) is [%lld, %lld]", opi, (long long)o.v[0], (long long)o.v[1], (long long)b->lo, (long long)b->hi); }
    if (b->done && o.w == 3) for (i64 x : {o.v[0], o.v[1]}) {
      i64 y = x < 0 ? x + Q : x >= Q ? x - Q : x;
      if (y < b->lo || y > b->hi) fail("enclosure", "op %d: correct: %lld becomes %lld, the bounds for [%lld, %lld] are [%lld, %lld]", opi, (long long)x, (long long)y, (long long)o.v[0], (long long)o.v[1], (long long)b->lo, (long long)b->hi);
    }
    if (stopped) rep->stops++;
    rep->checks++;
    return;
  }
  const char *nm = o.w == 0 ? "add" : o.w == 1 ? "sub" : "neg";
  if (fits) {
    if (!b->done || b->lo > (i64)lo || b->hi < (i64)hi) fail("enclosure", "op %d: %s([%lld, %lld], [%lld, %lld]) is wrong or stopped the program", opi, nm, (long long)o.v[0], (long long)o.v[1], (long long)o.v[2], (long long)o.v[3]);
  } else {
    rep->stops++;
    bool stopped = !b->done && ((WIFEXITED(st) && WEXITSTATUS(st)) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT));
    if (!stopped) fail("silent-overflow", "op %d: %s([%lld, %lld], [%lld, %lld]) leaves 64 bits and returns [%lld, %lld]", opi, nm, (long long)o.v[0], (long long)o.v[1], (long long)o.v[2], (long long)o.v[3], (long long)b->lo, (long long)b->hi);
    if (msg.empty()) fail("silent-overflow", "op %d: %s stopped the program without a word", opi, nm);
  }
  rep->checks++;
}

// the bounds of red_bounds.h; each result is computed again at the end of the history
struct Kept { size_t op; std::vector<i64> r; };
static std::vector<Kept> kept_results;
static const char *RB[] = {"min/max_red", "min/max_red_mul", "min/max_red_mul_interval", "ct_bound", "gs_bound", "ct_bound_fixed", "gs_bound_fixed", "ntt_ct_bounds", "ntt_gs_bounds"};
static std::vector<i64> bounds_op(const Op &o, int opi, bool judge) {
  i64 a = o.v[0], b = o.v[1], lo = o.v[2], hi = o.v[3], r0, r1, m0 = 0, m1 = 0, w0 = 0, w1 = 0;
  const char *k = RB[o.w];
  Rng g(o.seed + 5);
  auto enclosed = [&](const W &w, i64 l, i64 h, const char *what) {
    rep->checks += w.size();
    for (i64 v : w) if (v < l || v > h) fail("enclosure", "op %d: %s(%lld, %lld, %lld, %lld): the %s %lld is possible, the bounds are [%lld, %lld]", opi, k, (long long)a, (long long)b, (long long)lo, (long long)hi, what, (long long)v, (long long)l, (long long)h);
  };
  auto attained = [&](i64 r, i64 x, i64 w) {
    if (x < a || x > b || cred(w * x) != r) fail("enclosure", "op %d: %s(%lld, %lld, %lld) returns %lld with argument %lld, where the value is %lld", opi, k, (long long)a, (long long)b, (long long)w, (long long)r, (long long)x, (long long)cred(w * x));
  };
  std::vector<i64> ws = {lo, hi};
  for (i64 e : {(i64)0, (i64)1, (i64)-1, lo + 1, hi - 1}) if (e >= lo && e <= hi) ws.push_back(e);
  for (int i = 0; i < 8; i++) ws.push_back(g.in(lo, hi));
  Iv sym = {-b, b}, sym2 = {-2 * b, 2 * b};
  switch (o.w) {
    case 0: r0 = min_red(a, b, &m0); r1 = max_red(a, b, &m1);
      if (judge) { enclosed(redscale({a, b}, 1, g), r0, r1, "value"); attained(r0, m0, 1); attained(r1, m1, 1); }
      return {r0, r1, m0, m1};
    case 1: r0 = min_red_mul(a, b, lo, &m0); r1 = max_red_mul(a, b, lo, &m1);
      if (judge) { enclosed(redscale({a, b}, lo, g), r0, r1, "value"); attained(r0, m0, lo); attained(r1, m1, lo); }
      return {r0, r1, m0, m1};
    case 2: r0 = min_red_mul_interval(a, b, lo, hi, &m0, &w0); r1 = max_red_mul_interval(a, b, lo, hi, &m1, &w1);
      if (judge) {
        for (i64 w : ws) enclosed(redscale({a, b}, w, g), r0, r1, "value");
        for (int t = 0; t < 2; t++) { // zero is where the search starts, so it need not be attained
          i64 r = t ? r1 : r0, x = t ? m1 : m0, w = t ? w1 : w0;
          if (r && (w < lo || w > hi)) fail("enclosure", "op %d: %s(%lld, %lld, %lld, %lld) names the weight %lld", opi, k, (long long)a, (long long)b, (long long)lo, (long long)hi, (long long)w);
          if (r) attained(r, x, w);
        }
      }
      return {r0, r1, m0, m1, w0, w1};
    case 3: r0 = ct_bound(b, lo, hi);
      if (judge) for (i64 w : ws) { W z = redscale(sym, w, g), x = {-b, b, 0}; enclosed(comb(x, z, 1, g), -r0, r0, "value of x"); enclosed(comb(x, z, -1, g), -r0, r0, "value of y"); }
      return {r0};
    case 4: r0 = gs_bound(b, lo, hi);
      if (judge) for (i64 w : ws) { enclosed(redscale(sym2, w, g), -r0, r0, "value of y"); enclosed({-2 * b, 2 * b}, -r0, r0, "value of x"); }
      return {r0};
    case 5: r0 = ct_bound_fixed(b, lo);
      if (judge) { W z = redscale(sym, lo, g), x = {-b, b, 0}; enclosed(comb(x, z, 1, g), -r0, r0, "value of x"); enclosed(comb(x, z, -1, g), -r0, r0, "value of y"); }
      return {r0};
    case 6: r0 = gs_bound_fixed(b, lo);
      if (judge) { enclosed(redscale(sym2, lo, g), -r0, r0, "value of y"); enclosed({-2 * b, 2 * b}, -r0, r0, "value of x"); }
      return {r0};
  }
  uint32_t n = o.n, rounds = 0; for (uint32_t t = 1; t < n; t <<= 1) rounds++;
  std::vector<int16_t> p = ptable(n, o.b, o.seed), p0 = p;
  std::vector<i64> bd(rounds + 1 + 8, 0x5ca1ab1e);
  r0 = (o.w == 7 ? ntt_ct_bounds : ntt_gs_bounds)(b, n, p.data(), bd.data() + 4);
  if (!judge) return {r0};
  if (p != p0) fail("slots", "op %d (%s) changed its table", opi, k);
  for (int i = 0; i < 4; i++) if (bd[i] != 0x5ca1ab1e || bd[rounds + 5 + i] != 0x5ca1ab1e) fail("slots", "op %d (%s) wrote outside the array of bounds", opi, k);
  if (r0 != bd[4 + rounds]) fail("printed", "op %d (%s) returns %lld and stores %lld", opi, k, (long long)r0, (long long)bd[4 + rounds]);
  enclosed({-b, b}, -bd[4], bd[4], "input");
  for (int kind = o.w == 7 ? 1 : 5; kind < (o.w == 7 ? 4 : 8); kind += 2) {
    std::vector<Slot> s(n);
    for (auto &x : s) { x.leaf = true; x.iv = sym; }
    uint32_t round = 0;
    network(kind, n, [&](uint32_t i, uint32_t j, bool gs, bool unit, uint32_t pi) { butterfly(s[i], s[j], gs, unit, p[pi], g, n <= 64 ? 4096 : 512); },
            [&]() { round++; for (auto &x : s) enclosed(x.w, -bd[4 + round], bd[4 + round], "value after a round"); });
  }
  bd.erase(bd.begin(), bd.begin() + 4);
  return bd;
}

struct Scen { AnaPlan plan; int prog = -1; std::vector<Op> ops; std::vector<std::pair<uint64_t, uint64_t>> fails; int verify = 0; };

static void child(const Scen &s, const AnaPlan &plan, bool judge, int only, const Rep *src) {
  // only >= 0: replay record `only` of src from a clean state
  struct rlimit rl = {20, 22};
  setrlimit(RLIMIT_CPU, &rl);
  ftruncate(out_fd, 0); ftruncate(err_fd, 0); lseek(out_fd, 0, SEEK_SET); lseek(err_fd, 0, SEEK_SET);
  dup2(out_fd, 1); dup2(err_fd, 2);
  ana_plan = plan;
  ana_st = &rep->st;
  ana_die = die_misuse;
  judging = judge;
  sentinel.min = sentinel.max = 4242;
  rep->hash = 0xcbf29ce484222325ull;
  ana_start();
  if (s.prog >= 0) {
    int rc = progs[s.prog].f();
    fflush(stdout);
    ana_finish();
    rep->done = 1;
    _exit(rc);
  }
  if (only >= 0) {
    const Rec &r = src->rec[only];
    const Op &o = s.ops[r.op];
    int who[3] = {o.a, o.b, o.c};
    for (int t = 0; t < 3; t++) if (r.in_n[t]) {
      Arr &a = A[who[t]];
      fresh(a, r.in_n[t]);
      for (uint32_t i = 0; i < r.in_n[t]; i++) a.p()[i] = interval(src->iv[r.in_off[t] + i].lo, src->iv[r.in_off[t] + i].hi);
    }
    apply(o, r.op, false);
    fflush(stdout);
    Arr &d = A[o.k == "mulred" ? o.c : o.a];
    save(snap(d));
    rep->done = 1;
    _exit(0);
  }
  for (size_t i = 0; i < s.ops.size(); i++) {
    const Op &o = s.ops[i];
    rep->at_op = i;
    if (o.k == "big") { if (judge) { big_op(o, i); rep->ran++; } continue; }
    if (o.k == "bounds") {
      std::vector<i64> r = bounds_op(o, i, judge);
      rep->ran++;
      for (i64 v : r) mix(v);
      if (judge) kept_results.push_back({i, r});
      continue;
    }
    bool binary = o.k == "x2" || o.k == "mulred" || o.k == "bin";
    bool rec = judge && rep->nrec < 64 && o.k != "new" && o.k != "del" && !A[o.a].v.empty() && A[o.a].n <= 1024;
    Rec r; memset(&r, 0, sizeof r);
    if (rec) {
      r.op = i;
      r.in_off[0] = save(snap(A[o.a])); r.in_n[0] = A[o.a].n;
      if (binary && !A[o.b].v.empty() && o.b != o.a) { r.in_off[1] = save(snap(A[o.b])); r.in_n[1] = A[o.b].n; }
      r.so0 = lseek(out_fd, 0, SEEK_END);
    }
    uint64_t live0 = ana_st->live;
    bool ran = apply(o, i, judge);
    if (!ran) { rep->skipped++; continue; }
    rep->ran++;
    fflush(stdout);
    Arr &d = A[o.k == "mulred" ? o.c : o.a];
    if (judge && o.k != "new" && o.k != "del") {
      uint64_t want = live0 + (o.k == "mulred" ? d.n : 0);
      if (ana_st->live > want) fail("leak", "op %d (%s): %llu blocks live before, %llu after, %llu expected", (int)i, o.k.c_str(), (unsigned long long)live0, (unsigned long long)ana_st->live, (unsigned long long)want);
      if (ana_st->live < want) fail("lost", "op %d (%s): %llu blocks live before, %llu after, %llu expected", (int)i, o.k.c_str(), (unsigned long long)live0, (unsigned long long)ana_st->live, (unsigned long long)want);
    }
    if (!d.v.empty()) for (auto &v : snap(d)) { mix(v.lo); mix(v.hi); }
    if (rec) {
      r.so1 = lseek(out_fd, 0, SEEK_END);
      r.out_off = save(snap(d)); r.n = d.n;
      if (r.out_off != ~0u && r.in_off[0] != ~0u && r.in_off[1] != ~0u) rep->rec[rep->nrec++] = r;
    }
  }
  for (auto &q : kept_results) {
    const Op &o = s.ops[q.op];
    std::vector<i64> r = bounds_op(o, q.op, true);
    if (r != q.r) fail("history", "op %d (%s) returned %lld at first and %lld later in the same history", (int)q.op, RB[o.w], (long long)q.r[0], (long long)r[0]);
  }
  for (int t = 0; t < 4; t++) if (!A[t].v.empty()) { Op o; o.k = "del"; o.a = t; o.seed = t + plan.seed; apply(o, 999, false); }
  ana_finish();
  if (judge && ana_st->live) fail("leak", "%llu blocks remain after the caller released everything", (unsigned long long)ana_st->live);
  rep->done = 1;
  _exit(0);
}

static int run(const Scen &s, const AnaPlan &plan, bool judge, int only = -1, const Rep *src = 0) {
  memset(rep, 0, offsetof(Rep, rec));
  ana_st = &rep->st;
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) child(s, plan, judge, only, src);
  int st; waitpid(c, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) exit(3);      // the simulator itself is out of resources
  return st;
}
static uint64_t hs(const std::string &s) { uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return h; }
static std::string stname(int st) {
  char b[64];
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
  return b;
}
static std::string clean(std::string s) { for (char &c : s) if (c == '\n' || c == '\t') c = ' '; return s.substr(0, 300); }

int main() {
  rep = (Rep *)mmap(0, sizeof(Rep), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  out_fd = memfd_create("out", 0); err_fd = memfd_create("err", 0);
  Rep *src = (Rep *)mmap(0, sizeof(Rep), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  FILE *out = fdopen(dup(1), "w");
  std::string line;
  Scen s;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string w; is >> w;
    if (w == "begin") { s = Scen(); memset(&s.plan, 0, sizeof s.plan); }
    else if (w == "plan") is >> s.plan.policy >> s.plan.guard >> s.plan.fill >> s.plan.seed;
    else if (w == "fail") { uint64_t a, b; is >> a >> b; s.fails.push_back({a, b}); }
    else if (w == "prog") is >> s.prog;
    else if (w == "verify") is >> s.verify;
    else if (w == "op") { Op o; is >> o.k >> o.a >> o.b >> o.c >> o.n >> o.w >> o.seed >> o.v[0] >> o.v[1] >> o.v[2] >> o.v[3]; s.ops.push_back(o); }
    else if (w == "end") {
      std::string cls, det; uint64_t h = 0;
      char stats[400] = "";
      int fired = 0, ver = 0;
      bool faulty = !s.fails.empty();
      bool judge = !faulty;
      int st = run(s, s.plan, judge);
      std::string so = slurp(out_fd), se = slurp(err_fd);
      h = rep->hash ^ rep->st.hash * 3 ^ hs(so);
      AnaState a0 = rep->st; uint64_t rh = rep->hash;
      int ran = rep->ran, skipped = rep->skipped, checks = rep->checks, realruns = rep->realruns, o32 = rep->outside32, stops = rep->stops;
      if (rep->cls[0]) { cls = rep->cls; det = rep->detail; }
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { cls = "hang"; det = "no end after 20 s of processor time, operation " + std::to_string(rep->at_op); }
      else if (!rep->done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        cls = "stopped"; char b[200]; snprintf(b, sizeof b, "with all allocations granted: %s at operation %d; stderr: ", stname(st).c_str(), rep->at_op); det = b + clean(se);
      }
      else if (s.prog >= 0 && !faulty) {       // text must not depend on the allocator
        AnaPlan p0; memset(&p0, 0, sizeof p0);
        run(s, p0, false);
        if (slurp(out_fd) != so) { cls = "allocator"; det = std::string("the output of ") + progs[s.prog].name + " depends on what the allocator returns"; }
        ver = 1;
      }
      if (cls.empty() && !faulty && s.prog < 0 && s.verify) {
        memcpy(src, rep, offsetof(Rep, iv) + (size_t)rep->niv * sizeof(Iv));
        AnaPlan p0; memset(&p0, 0, sizeof p0);
        for (uint32_t k = 0; k < src->nrec && cls.empty(); k++) {
          if ((int)((k * 7 + s.plan.seed) % 4) >= s.verify) continue;
          int r = run(s, p0, false, k, src);
          ver++;
          const Rec &rc = src->rec[k];
          std::string so2 = slurp(out_fd);
          bool bad = !rep->done || !WIFEXITED(r) || WEXITSTATUS(r) || rep->niv != rc.n;
          uint32_t bi = 0;
          for (uint32_t i = 0; !bad && i < rc.n; i++) if (rep->iv[i].lo != src->iv[rc.out_off + i].lo || rep->iv[i].hi != src->iv[rc.out_off + i].hi) { bad = true; bi = i; }
          bool text = so2 != so.substr(rc.so0, rc.so1 - rc.so0);
          if (bad || text) {
            cls = "history";
            char b[300];
            snprintf(b, sizeof b, "op %d (%s): slot %u is [%lld, %lld] in this history and [%lld, %lld] in a fresh process%s", rc.op, s.ops[rc.op].k.c_str(), bi,
                     (long long)src->iv[rc.out_off + bi].lo, (long long)src->iv[rc.out_off + bi].hi, (long long)rep->iv[bi].lo, (long long)rep->iv[bi].hi, text ? "; the printed text differs" : "");
            det = b;
          }
        }
      }
      if (cls.empty() && faulty && a0.allocs) {
        AnaPlan p = s.plan;
        for (auto &f : s.fails) if (p.nfail < 16) {
          uint64_t at = 1 + f.first % a0.allocs;
          p.fail[p.nfail][0] = at; p.fail[p.nfail][1] = f.second ? at + f.second - 1 : ~0ull; p.nfail++;
        }
        int r = run(s, p, false);
        std::string fo = slurp(out_fd), fe = slurp(err_fd);
        fired = rep->st.failed;
        h = h * 31 ^ rep->st.hash ^ hs(fo) ^ (uint64_t)r;
        char at[120]; snprintf(at, sizeof at, "allocation %llu of %llu fails, operation %d: ", (unsigned long long)p.fail[0][0], (unsigned long long)a0.allocs, rep->at_op);
        bool aborted = WIFSIGNALED(r) && WTERMSIG(r) == SIGABRT;
        if (rep->cls[0]) { cls = std::string("fault-") + rep->cls; det = at + std::string(rep->detail); }
        else if (WIFSIGNALED(r) && WTERMSIG(r) == SIGXCPU) { cls = "fault-hang"; det = at + std::string("the program does not end"); }
        else if (WIFSIGNALED(r) && !aborted) { cls = "fault-crash"; det = at + stname(r); }
        else if (rep->done && s.prog < 0) {
          if (rep->hash != rh || fo != so) { cls = "fault-wrong-bounds"; det = at + std::string("the analysis goes on and its bounds differ"); }
        }
        else if (rep->done && WEXITSTATUS(r) == 0) {
          if (fo != so) { cls = "fault-wrong-bounds"; det = at + std::string("the program succeeds and prints something else"); }
        }
        else if (WIFEXITED(r) && WEXITSTATUS(r) == 0) { cls = "fault-exit-0"; det = at + std::string("the program stops with status 0"); }
        else if (fe.empty()) { cls = "fault-silent"; det = at + std::string("the program stops without a diagnostic"); }
        else if (so.compare(0, fo.size(), fo) != 0) { cls = "fault-wrong-bounds"; det = at + std::string("the text printed before the stop is not what a run with enough memory prints"); }
      }
      snprintf(stats, sizeof stats, "allocs=%llu frees=%llu reused=%llu peak=%llu fired=%d ran=%d skipped=%d checks=%d real=%d outside32=%d stops=%d verified=%d",
               (unsigned long long)a0.allocs, (unsigned long long)a0.frees, (unsigned long long)a0.reused, (unsigned long long)a0.peak, fired, ran, skipped, checks, realruns, o32, stops, ver);
      fprintf(out, "%s\t%s\t%016llx\t%s\n", cls.empty() ? "-" : cls.c_str(), clean(det).c_str(), (unsigned long long)h, stats);
      fflush(out);
    }
  }
  return 0;
}
