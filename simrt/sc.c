// Oracle: is there one order of all operations, consistent with each thread's own order, that explains every result and the
// final state?  The operations' sequential meaning is compiled by gcc from the same text with plain types.
#include <stdio.h>
#include <string.h>
#include "rt.h"
extern int m_ngroups __attribute__((weak)), m_grp[] __attribute__((weak));   // operations on unrelated objects are explained separately
extern int m_nthreads, m_nops[], m_statesize; extern int m_opid[][16];          // per thread: the operations in order
extern void m_init(void *st), m_op(int id, void *st, long *r); extern void m_final(void *st, long *out), sim_final(long *out); extern int m_nfinal, m_fgrp[] __attribute__((weak)); extern const char *m_name(int id);
static long res[256]; static int got[256];
static int grp = -1; static int skip(int id) { return grp >= 0 && m_grp[id] != grp; }
static int pos[16]; static long nodes; static int best; static long fin[64];
static int dfs(void *st, int left) {
  if (++nodes > 3000000) return 2;
  if (!left) { long o[64]; memset(o, 0, sizeof o); m_final(st, o); for (int i = 0; i < m_nfinal; i++) if ((grp < 0 || m_fgrp[i] == grp) && o[i] != fin[i]) return 0; return 1; }
  for (int t = 0; t < m_nthreads; t++) {
    int save = pos[t];
    while (pos[t] < m_nops[t] && skip(m_opid[t][pos[t]])) pos[t]++;
    if (pos[t] == m_nops[t]) continue;
    unsigned char s2[1024]; memcpy(s2, st, m_statesize);
    int id = m_opid[t][pos[t]]; long r = 0; m_op(id, s2, &r);
    if (r != res[id]) continue;
    pos[t]++; int k = dfs(s2, left - 1); pos[t] = save; if (k) return k;
  }
  return 0;
}
const char *oracle(void) {
  int left = 0;
  for (int t = 0; t < m_nthreads; t++) left += m_nops[t];
  for (int i = 0; i < sim_nev; i++) { if (sim_ev[i].tag < 256) { res[sim_ev[i].tag] = sim_ev[i].a; got[sim_ev[i].tag]++; } }
  for (int t = 0; t < m_nthreads; t++) for (int k = 0; k < m_nops[t]; k++) if (got[m_opid[t][k]] != 1) { say("operation %d (%s) reported %d results", m_opid[t][k], m_name(m_opid[t][k]), got[m_opid[t][k]]); return sim_msg; }
  sim_final(fin);
  unsigned char st[1024]; int k = 1;
  for (int g = 0; k && g < (&m_ngroups ? m_ngroups : 1); g++) {
    grp = &m_ngroups ? g : -1; int n = 0;
    for (int t = 0; t < m_nthreads; t++) { pos[t] = 0; for (int j = 0; j < m_nops[t]; j++) n += !skip(m_opid[t][j]); }
    memset(st, 0, sizeof st); m_init(st); nodes = 0; k = dfs(st, n);
  }
  if (k) return 0;
  say("no order of the operations explains the results:");
  for (int t = 0; t < m_nthreads; t++) { say(" thread %d:", t); for (int j = 0; j < m_nops[t]; j++) if (!skip(m_opid[t][j])) say(" [%s -> %ld (0x%lx)]", m_name(m_opid[t][j]), res[m_opid[t][j]], res[m_opid[t][j]]); }
  say(" final:"); for (int i = 0; i < m_nfinal; i++) if (grp < 0 || m_fgrp[i] == grp) say(" %ld", fin[i]);
  return sim_msg;
}
