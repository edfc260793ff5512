// Oracle: every thread reports exactly what the same text compiled by gcc reports when the threads run one after another.
// Tags 900+k: computed by signal handlers. Tags >= 1000: 1000+k = the address and size of object k (instances of different threads must be disjoint, and an object
// stays where it is); 2000+k = a height of the stack, the same on every visit.
#include <stdio.h>
#include "rt.h"
static int next(Ev *e, int n, int i, int t) { while (i < n && (e[i].t != t || e[i].tag >= 900)) i++; return i; }
extern const char *sim_veto(void) __attribute__((weak));
const char *oracle(void) {
  if (sim_veto && sim_veto()) { sim_msg[0] = 0; return 0; } // the simulator cannot judge this run
  ref_run();
  if (sim_veto && sim_veto()) { sim_msg[0] = 0; return 0; }
  for (int t = 0; t < sim_nthreads; t++) for (int i = next(sim_ev, sim_nev, 0, t), j = next(ref_ev, ref_nev, 0, t), k = 0;; i = next(sim_ev, sim_nev, i + 1, t), j = next(ref_ev, ref_nev, j + 1, t), k++) {
    if (i >= sim_nev && j >= ref_nev) break;
    if (i >= sim_nev) { say("wrong history: thread %d ends after %d events, expected %d (%ld, %ld)", t, k, ref_ev[j].tag, ref_ev[j].a, ref_ev[j].b); return sim_msg; }
    if (j >= ref_nev) { say("wrong history: thread %d reports %d (%ld, %ld) after its %d expected events", t, sim_ev[i].tag, sim_ev[i].a, sim_ev[i].b, k); return sim_msg; }
    if (sim_ev[i].tag != ref_ev[j].tag || sim_ev[i].a != ref_ev[j].a || sim_ev[i].b != ref_ev[j].b) {
      say("wrong history: event %d of thread %d is %d (%ld, %ld), expected %d (%ld, %ld)", k, t, sim_ev[i].tag, sim_ev[i].a, sim_ev[i].b, ref_ev[j].tag, ref_ev[j].a, ref_ev[j].b); return sim_msg; }
  }
  for (int i = 0; i < sim_nev; i++) if (sim_ev[i].tag >= 900 && sim_ev[i].tag < 1000) // what signal handlers computed
    for (int j = 0; j < ref_nev; j++) if (ref_ev[j].t == 200 && ref_ev[j].tag == sim_ev[i].tag && (ref_ev[j].a != sim_ev[i].a || ref_ev[j].b != sim_ev[i].b)) { say("wrong result in a handler: %d is (%ld, %ld), expected (%ld, %ld)", sim_ev[i].tag, sim_ev[i].a, sim_ev[i].b, ref_ev[j].a, ref_ev[j].b); return sim_msg; }
  for (int i = 0; i < sim_nev; i++) if (sim_ev[i].tag >= 1000) for (int j = 0; j < i; j++) {
    Ev *a = &sim_ev[i], *b = &sim_ev[j];
    if (a->tag / 1000 == 1 && b->tag / 1000 == 1) {
      if (a->t == b->t) { if (a->tag == b->tag && a->a != b->a) { say("object moved: object %d of thread %d", a->tag - 1000, a->t); return sim_msg; } if (a->tag != b->tag && a->a < b->a + b->b && b->a < a->a + a->b) { say("objects overlap: %d and %d of thread %d", a->tag - 1000, b->tag - 1000, a->t); return sim_msg; } }
      else if (a->a < b->a + b->b && b->a < a->a + a->b) { say("object shared: object %d of thread %d is object %d of thread %d", a->tag - 1000, a->t, b->tag - 1000, b->t); return sim_msg; }
    }
    if (a->tag / 1000 == 2 && a->t == b->t && a->tag == b->tag && a->a != b->a) { say("stack height: point %d of thread %d is reached with %ld and %ld bytes of stack", a->tag - 2000, a->t, b->a, a->a); return sim_msg; }
  }
  return 0;
}
