// Oracle for non-local jumps: the history is that of the reference (which never jumps) except that after a jump to a mark it
// continues at the last visit of that mark.  Tags: 960 mark k, 961 value of setjmp, 970 jump (k | value << 8), 950/951 volatile
// objects as the jump and the resumed function see them, 2000+k heights of the stack (always the same).
#include <stdio.h>
#include "rt.h"
const char *oracle(void) {
  ref_run(); Ev R[4096]; int n = 0, pos = 0, val = 0, jumped = 0, njump = 0; long vol = 0, high[64]; int seen[64] = {0};
  for (int i = 0; i < ref_nev; i++) if (ref_ev[i].tag < 900 || ref_ev[i].tag == 960) R[n++] = ref_ev[i];
  for (int i = 0; i < sim_nev; i++) {
    Ev *e = &sim_ev[i];
    if (e->tag == 970) { int k = e->a & 255; val = e->a >> 8; if (!val) val = 1; if (pos > n - 1) pos = n - 1; while (pos >= 0 && !(R[pos].tag == 960 && R[pos].a == k)) pos--; if (pos < 0) { say("oracle: no mark %d", k); return sim_msg; } jumped = 1; njump++; continue; }
    if (e->tag == 961) { if (e->a != (jumped ? val : 0)) { say("setjmp value: setjmp returned %ld instead of %d (jump %d)", e->a, jumped ? val : 0, njump); return sim_msg; } continue; }
    if (e->tag == 950) { vol = e->a; continue; }
    if (e->tag == 951) { if (jumped && e->a != vol) { say("volatile object lost: digest %ld after jump %d, %ld before", e->a, njump, vol); return sim_msg; } jumped = 0; continue; }
    if (e->tag >= 2000) { int k = e->tag - 2000 & 63; if (seen[k]++ && high[k] != e->a) { say("stack height: point %d reached with %ld and %ld bytes of stack (jump %d)", k, high[k], e->a, njump); return sim_msg; } high[k] = e->a; continue; }
    if (pos >= n) { say("wrong history: reports %d (%ld, %ld) after the expected end (jump %d)", e->tag, e->a, e->b, njump); return sim_msg; }
    if (e->tag != R[pos].tag || e->a != R[pos].a || e->b != R[pos].b) { say("wrong history: event %d is %d (%ld, %ld), expected %d (%ld, %ld) after jump %d", i, e->tag, e->a, e->b, R[pos].tag, R[pos].a, R[pos].b, njump); return sim_msg; }
    pos++;
  }
  if (pos < n) { say("wrong history: ends at %d of %d expected events (jump %d)", pos, n, njump); return sim_msg; }
  extern long sim_hooks; sim_hooks = njump; return 0;
}
