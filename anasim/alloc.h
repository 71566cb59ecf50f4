// Simulated allocator for the interval analysis. The analysis objects have
// malloc & co. renamed to ana_*.  Everything it does is a function of the plan.
#ifndef ANA_ALLOC_H
#define ANA_ALLOC_H
#include <stdint.h>
#include <stddef.h>
struct AnaPlan {
  int policy;          // 0 never reuse, 1 last freed first, 2 first freed first, 3 seeded choice
  int guard;           // 1: a page per block, freed pages become inaccessible
  int fill;            // content of a new block: 0 zero, 1 seeded garbage, 2 what was there, 3 all ones
  uint64_t seed;
  int nfail;           // failing allocations: [from,to] pairs, 1-based
  uint64_t fail[16][2];
};
struct AnaState {
  uint64_t allocs, frees, failed, live, peak, reused;
  uint64_t hash;
  char error[160];     // first misuse seen ("" = none)
};
extern "C" {
extern struct AnaPlan ana_plan;
extern struct AnaState *ana_st;         // may live in shared memory
void ana_start(void);                   // after ana_plan was filled
void ana_finish(void);                  // checks red zones and poison of all blocks
int ana_lookup(const void *p);          // 1 live, 0 freed block, -1 not ours
extern void (*ana_die)(void);           // called when a misuse is seen
}
#endif
