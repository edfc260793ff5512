// The hostile neighbour: one thread runs, and after every instruction all bytes that belong to other threads get new seeded
// values, as if those threads had just written them.  No instruction of the running thread may ever write such a byte back.
#include <stdio.h>
#include <string.h>
#include "rt.h"
extern struct nb { unsigned char *p; int n; unsigned char *foreign; } nb_objs[]; extern int nb_nobj, nb_on;
static unsigned char want[64 * 1024]; extern long sim_hooks;
const char *sim_step(long step) {
  if (!nb_on) return 0;
  unsigned char *w = want; uint64_t z = sim_seed * 0x9e3779b97f4a7c15ull + step * 0x94d049bb133111ebull;
  for (int i = 0; i < nb_nobj; i++) {
    struct nb *o = &nb_objs[i];
    for (int k = 0; k < o->n; k++, w++) if (o->foreign[k]) {
      if (o->p[k] != *w && sim_hooks) { say("neighbour overwritten: byte %d of object %d, which belongs to another thread, was changed", k, i); return sim_msg; }
      z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; *w = o->p[k] ^= (z >> 32) | 1; // never the old value
    }
  }
  sim_hooks++; return 0;
}
