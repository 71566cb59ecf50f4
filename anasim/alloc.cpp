#include "alloc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

struct AnaPlan ana_plan;
static AnaState own;
struct AnaState *ana_st = &own;
void (*ana_die)(void);

namespace {
struct Blk { uint8_t *p; size_t n; bool live; };     // p = user pointer, n = user size
std::vector<Blk> blks;
std::unordered_map<const void *, int> idx;
std::unordered_map<size_t, std::vector<int>> freed;  // per size, in order of freeing
uint8_t *arena, *at, *end, *gat, *gend;
uint64_t rs;
bool on;
const size_t RZ = 32;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
void ev(uint64_t x) { ana_st->hash = (ana_st->hash ^ x) * 0x100000001b3ull; }
void err(const char *what, uint64_t n) {
  if (!ana_st->error[0]) snprintf(ana_st->error, sizeof ana_st->error, "%s (allocation event %llu)", what, (unsigned long long)n);
  if (ana_die) ana_die();
}
size_t up(size_t n) { return (n + 15) & ~(size_t)15; }
uint8_t rz(int i) { return (uint8_t)(0xC3 ^ (i * 7)); }
void redzones(Blk &b, int i, bool set) {
  if (ana_plan.guard) return;
  uint8_t *lo = b.p - RZ, *hi = b.p + b.n;
  size_t tail = up(b.n) - b.n + RZ;
  if (set) { memset(lo, rz(i), RZ); memset(hi, rz(i), tail); return; }
  for (size_t k = 0; k < RZ; k++) if (lo[k] != rz(i)) { err("write before a block", ana_st->allocs); return; }
  for (size_t k = 0; k < tail; k++) if (hi[k] != rz(i)) { err("write past a block", ana_st->allocs); return; }
}
void poison(Blk &b, bool set) {
  if (ana_plan.guard || ana_plan.fill == 2) return;   // fill 2 keeps the old content readable on purpose
  if (set) { memset(b.p, 0xDB, b.n); return; }
  for (size_t k = 0; k < b.n; k++) if (b.p[k] != 0xDB) { err("write to a freed block", ana_st->allocs); return; }
}
void *get(size_t n, bool zero) {
  uint64_t k = ++ana_st->allocs;
  if (on) for (int i = 0; i < ana_plan.nfail; i++)
    if (k >= ana_plan.fail[i][0] && k <= ana_plan.fail[i][1]) { ana_st->failed++; ev(k * 4 + 1); errno = ENOMEM; return 0; }
  int id = -1;
  auto &fl = freed[n];
  if (ana_plan.policy && !fl.empty() && !ana_plan.guard) {
    size_t j = ana_plan.policy == 1 ? fl.size() - 1 : ana_plan.policy == 2 ? 0 : rnd() % fl.size();
    id = fl[j];
    if (j == fl.size() - 1) fl.pop_back(); else if (ana_plan.policy == 2) fl.erase(fl.begin()); else { fl[j] = fl.back(); fl.pop_back(); }
    poison(blks[id], false);
    redzones(blks[id], id, false);
    ana_st->reused++;
  } else {
    Blk b; b.n = n; b.live = true;
    if (ana_plan.guard) {
      size_t pg = (up(n) + 4095) & ~(size_t)4095;
      // one reserved region: released pages join the guard pages around them
      if (!gat) {
        gat = (uint8_t *)mmap(0, (size_t)1 << 34, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (gat == MAP_FAILED) { fprintf(stderr, "simulator out of address space\n"); _exit(99); }
        gend = gat + ((size_t)1 << 34);
      }
      uint8_t *m = gat;
      gat += pg + 4096;
      if (gat > gend || mprotect(m, pg, PROT_READ | PROT_WRITE)) { fprintf(stderr, "simulator out of address space\n"); _exit(99); }
      b.p = m + pg - up(n);
    } else {
      size_t need = RZ + up(n) + RZ;
      need = (need + 15) & ~(size_t)15;
      if (at + need > end) {
        size_t sz = need > (1u << 24) ? need : (1u << 24);
        arena = at = (uint8_t *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (arena == MAP_FAILED) { fprintf(stderr, "simulator out of memory\n"); _exit(99); }
        end = at + sz;
      }
      b.p = at + RZ;
      at += need;
    }
    id = blks.size();
    blks.push_back(b);
    idx[b.p] = id;
  }
  Blk &b = blks[id];
  b.live = true;
  redzones(b, id, true);
  if (zero || ana_plan.fill == 0) memset(b.p, 0, n);
  else if (ana_plan.fill == 1) for (size_t i = 0; i < n; i++) b.p[i] = (uint8_t)(rnd() >> 24);
  else if (ana_plan.fill == 3) memset(b.p, 0xff, n);
  ana_st->live++;
  if (ana_st->live > ana_st->peak) ana_st->peak = ana_st->live;
  ev(k * 4); ev(n); ev(id);
  return b.p;
}
void put(void *p) {
  if (!p) return;
  ana_st->frees++;
  auto it = idx.find(p);
  if (it == idx.end()) { err("free of something that was never allocated", ana_st->frees); return; }
  Blk &b = blks[it->second];
  if (!b.live) { err("block freed twice", ana_st->frees); return; }
  redzones(b, it->second, false);
  b.live = false;
  ana_st->live--;
  ev(it->second * 4 + 2);
  if (ana_plan.guard) {
    uintptr_t lo = (uintptr_t)b.p & ~(uintptr_t)4095;
    if (mmap((void *)lo, (uintptr_t)b.p + up(b.n) - lo, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(99);
  } else {
    poison(b, true);
    freed[b.n].push_back(it->second);
  }
}
}

extern "C" {
void ana_start(void) {
  memset(ana_st, 0, sizeof *ana_st);
  ana_st->hash = 0xcbf29ce484222325ull;
  rs = ana_plan.seed * 2 + 1;
  on = true;
}
void ana_finish(void) {
  on = false;
  for (size_t i = 0; i < blks.size(); i++) {
    if (ana_plan.guard) break;
    redzones(blks[i], i, false);
    if (!blks[i].live) poison(blks[i], false);
  }
}
int ana_lookup(const void *p) {
  auto it = idx.find(p);
  if (it == idx.end()) return -1;
  return blks[it->second].live ? 1 : 0;
}
void *ana_malloc(size_t n) { return get(n, false); }
void *ana_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; return get(n, true); }
void ana_free(void *p) { put(p); }
void *ana_realloc(void *p, size_t n) {
  if (!p) return get(n, false);
  if (!n) { put(p); return 0; }
  auto it = idx.find(p);
  if (it == idx.end() || !blks[it->second].live) { err("realloc of a block that is not live", ana_st->allocs); return 0; }
  size_t o = blks[it->second].n;
  void *q = get(n, false);
  if (!q) return 0;
  memcpy(q, p, o < n ? o : n);
  put(p);
  return q;
}
void *ana_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; return ana_realloc(p, n); }
void *ana_aligned_alloc(size_t al, size_t n) { (void)al; return get(n, false); }
int ana_posix_memalign(void **r, size_t al, size_t n) { (void)al; void *p = get(n, false); if (!p) return ENOMEM; *r = p; return 0; }
}
