// In-process simulator for compiled code: every simulated thread is single-stepped on the real CPU; between any two
// instructions a seeded scheduler may switch threads, drain simulated store buffers or deliver a simulated signal.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <immintrin.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include "rt.h"
#define MAXT 24
#define STK (256 * 1024)
#define RMAX 2048
#define SBMAX 6
#define TF 0x100
typedef struct { int off, n; unsigned char b[64]; } Store;
typedef struct { gregset_t g; unsigned char fx[512]; } Cpu;
typedef struct {
  Cpu c; void (*fn)(void); int state /*0 new 1 ready 2 done*/, depth; Cpu saved[4]; long sigrsp[4]; uintptr_t fs; char *stk;
  Store sb[SBMAX]; int nsb; int direct; long steps; int prio; uintptr_t ret, fret, frsp; int nch; unsigned char ch[4096];
} T;
static T th[MAXT]; int sim_nthreads; static int cur = -1;
Ev sim_ev[4096]; int sim_nev; char sim_msg[4096];
int sim_tso, sim_poison, sim_maxsig = 3; void (*sim_handler)(int);
extern struct sim_region sim_regions[] __attribute__((weak)); extern int sim_nregions __attribute__((weak));
extern void sim_setup(void) __attribute__((weak));         // runs before the threads, not stepped
extern char wtext_start[] __attribute__((weak)), wtext_end[] __attribute__((weak));
static uintptr_t w0, w1;                                     // text of the program under simulation
static unsigned char committed[RMAX]; static int rtotal;
static uintptr_t host_fs; static uintptr_t pool[2 * MAXT]; static int npool;
static Cpu host; static volatile int running;
static long steps, maxsteps = 60000, switches, drains, sigs, forwards; static uint64_t cover;
static char *fault; static char faultbuf[256];
// ---- decisions
static uint64_t rs, rc;
static uint64_t nx(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
static uint32_t rnd(uint32_t n) { return (nx(&rs) >> 32) * n >> 32; }
static int explicit; static struct { char k; int t; long n; } act[65536]; static int nact, iact; static int chs[4096], nch, ich;
static void rec(char k, int t, long n) { if (k == 'r' && nact && act[nact - 1].k == 'r' && act[nact - 1].t == t) { act[nact - 1].n += n; return; } if (nact < 65536) { act[nact].k = k; act[nact].t = t; act[nact++].n = n; } }
static int strat, psw, pdr, psig, pbias; static long chg[4]; static int nchg;
#define NOTLS __attribute__((optimize("no-stack-protector")))
static inline uintptr_t rdfs(void) { uintptr_t v; __asm__ volatile("rdfsbase %0" : "=r"(v)); return v; }
static inline void wrfs(uintptr_t v) { __asm__ volatile("wrfsbase %0" ::"r"(v)); }
static inline void tf_off(void) { __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static inline void tf_on(void) { __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static inline int stepping(void) { unsigned long f; __asm__ volatile("pushfq; popq %0" : "=r"(f)); return running; }
void say(const char *fmt, ...) { va_list ap; va_start(ap, fmt); size_t n = strlen(sim_msg); vsnprintf(sim_msg + n, sizeof sim_msg - n, fmt, ap); va_end(ap); }
// ---- called by the program under simulation
int sim_redirect = -1; Ev ref_ev[4096]; int ref_nev; void ref_begin(int t) { sim_redirect = t; ich = 0; } void ref_end(void) { sim_redirect = -1; }
void sim_log(int tag, long a, long b) { if (sim_redirect >= 0) { if (ref_nev < 4096) { Ev *e = &ref_ev[ref_nev++]; e->t = sim_redirect; e->tag = tag; e->a = a; e->b = b; e->when = 0; } return; } if (sim_nev < 4096) { Ev *e = &sim_ev[sim_nev++]; e->t = cur; e->tag = tag; e->a = a; e->b = b; e->when = steps; } }
void sim_res(int op, long v) { sim_log(op, v, 0); }
long sim_choose(int n) {
  int v;
  if (sim_redirect >= 0) { T *t = &th[sim_redirect < MAXT ? sim_redirect : 0]; return ich < t->nch ? t->ch[ich++] % n : (ich++, 0); }   // the reference repeats the thread's decisions
  if (explicit) v = ich < nch ? chs[ich++] % n : 0;
  else { v = (nx(&rc) >> 33) % n; if (nch < 4096) chs[nch++] = v; }
  if (cur >= 0 && th[cur].nch < 4096) th[cur].ch[th[cur].nch++] = v;
  cover = cover * 0x100000001b3ull ^ (v + 1);
  return v;
}
int sim_self(void) { return sim_redirect >= 0 ? sim_redirect : cur; }
static int yielded, lowest; void sim_yield(void) { yielded = 1; }
long sim_rsp(void) { return cur >= 0 ? th[cur].stk + STK - (char *)__builtin_frame_address(0) : 0; }
long sim_bits(const void *p, int n) { long v = 0; memcpy(&v, p, n > 8 ? 8 : n); return v; }
void sim_spawn(void (*f)(void)) { th[sim_nthreads++].fn = f; }
void ref_run(void) { // the reference threads run natively, one after another, each on thread-local storage of its own
  for (int t = 0; ref_thr[t]; t++) { ref_begin(t); wrfs(pool[sim_nthreads + t]); ref_thr[t](); wrfs(host_fs); ref_end(); }
  if (&ref_handler && ref_handler) for (int k = 10; k < 13; k++) { ref_begin(200); ref_handler(k); ref_end(); }
}
// ---- shared memory and store buffers
static void rd(unsigned char *o) { for (int i = 0; i < sim_nregions; i++) { memcpy(o, sim_regions[i].p, sim_regions[i].n); o += sim_regions[i].n; } }
static void wr(const unsigned char *o) { for (int i = 0; i < sim_nregions; i++) { memcpy(sim_regions[i].p, o, sim_regions[i].n); o += sim_regions[i].n; } }
static void view(T *t, unsigned char *v) { memcpy(v, committed, rtotal); for (int i = 0; i < t->nsb; i++) memcpy(v + t->sb[i].off, t->sb[i].b, t->sb[i].n); }
static void drain(T *t) { if (!t->nsb) return; memcpy(committed + t->sb[0].off, t->sb[0].b, t->sb[0].n); memmove(t->sb, t->sb + 1, --t->nsb * sizeof(Store)); drains++; }
static void drain_all(T *t) { while (t->nsb) drain(t); }
static int serialising(const unsigned char *p) {
  int lock = 0;
  for (;; p++) { if (*p == 0xf0) lock = 1; else if (*p == 0x66 || *p == 0xf2 || *p == 0xf3 || *p == 0x2e || *p == 0x36 || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65) ; else break; }
  if (lock) return 1;
  if ((*p & 0xf0) == 0x40) p++;
  if (*p == 0x86 || *p == 0x87) return p[1] >> 6 != 3;
  if (*p == 0x0f && p[1] == 0xae && (p[2] & 0x38) == 0x30 && p[2] >> 6 == 3) return 1; // mfence
  if (*p == 0x0f && p[1] == 0xa2) return 1;
  return 0;
}
static int inw(uintptr_t r) { return r >= w0 && r < w1; }
__asm__(".globl sim_exit_tramp\nsim_exit_tramp: nop\n nop\n jmp sim_exit_tramp\n.globl sim_sig_tramp\nsim_sig_tramp: nop\n nop\n jmp sim_sig_tramp\n.globl sim_ret_tramp\nsim_ret_tramp: int3\n nop\n");
extern char sim_exit_tramp[], sim_sig_tramp[], sim_ret_tramp[];
extern void sim_watch(const volatile void *, int, int, int, int) __attribute__((weak)); extern void sim_unwatch(int) __attribute__((weak));
static int ours(uintptr_t r) { return r == (uintptr_t)sim_res || r == (uintptr_t)sim_log || r == (uintptr_t)sim_choose || r == (uintptr_t)sim_bits || r == (uintptr_t)sim_self || r == (uintptr_t)sim_yield || r == (uintptr_t)sim_rsp || r == (uintptr_t)sim_watch || r == (uintptr_t)sim_unwatch; }
static int touched;
static void after(T *t) {
  // what did the last instruction(s) of t do to shared memory?
  touched = 0;
  if (!sim_tso || !rtotal) { if (rtotal) { unsigned char v[RMAX]; rd(v); if (memcmp(v, committed, rtotal)) { touched = 1; memcpy(committed, v, rtotal); } } return; }
  unsigned char v[RMAX], n[RMAX]; rd(n);
  if (t->direct) { touched = memcmp(n, committed, rtotal) != 0; memcpy(committed, n, rtotal); t->direct = 0; return; }
  view(t, v);
  int a = 0, b = rtotal;
  while (a < b && v[a] == n[a]) a++;
  if (a == b) return;
  while (b > a && v[b - 1] == n[b - 1]) b--;
  touched = 1;
  while (a < b) { // a store is widened to what changed; larger than 64 bytes is split
    if (t->nsb == SBMAX) drain(t);
    Store *s = &t->sb[t->nsb++]; s->off = a; s->n = b - a > 64 ? 64 : b - a; memcpy(s->b, n + a, s->n); a += s->n;
  }
}
static void before(T *t) {
  if (!sim_tso || !rtotal) return;
  if (serialising((void *)t->c.g[REG_RIP])) { drain_all(t); t->direct = 1; forwards++; }
  unsigned char v[RMAX]; view(t, v); wr(v);
}
#define FCW 0x137f  // the infinity bit does nothing on this processor, and is what re-initialising the x87 loses
static void initfx(unsigned char *fx) { memset(fx, 0, 512); *(uint16_t *)fx = FCW; *(uint32_t *)(fx + 24) = 0x1f80; *(uint32_t *)(fx + 28) = 0xffff; }
static void start(T *t) {
  t->stk = mmap((void *)(0x10000000000ul + (t - th) * 0x1000000ul), STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  memset(t->c.g, 0, sizeof t->c.g); uintptr_t sp = (uintptr_t)t->stk + STK - 4096; *(uintptr_t *)(sp -= 8) = (uintptr_t)sim_exit_tramp;
  memcpy(t->c.g, host.g, sizeof t->c.g); // segment registers and so on
  for (int r = REG_R8; r <= REG_RCX; r++) t->c.g[r] = 0x5a5a0000 + r;
  t->c.g[REG_RSP] = sp; t->c.g[REG_RIP] = (uintptr_t)t->fn; t->c.g[REG_EFL] = 0x202 | TF; initfx(t->c.fx);
  t->fs = pool[t - th]; t->state = 1;
}
static void deliver(T *t) { // a signal arrives before the next instruction of t
  uintptr_t sp = t->c.g[REG_RSP]; t->saved[t->depth] = t->c; t->sigrsp[t->depth++] = sp; sigs++; cover = cover * 0x100000001b3ull ^ (t->c.g[REG_RIP] - w0) ^ 1ull << 50;
  sp = (sp - 128 - 1024) & ~63ul; memset((void *)sp, 0xd5, 1024); *(uintptr_t *)(sp -= 8) = (uintptr_t)sim_sig_tramp;
  for (int r = REG_R8; r <= REG_RCX; r++) t->c.g[r] = 0x6b6b0000 + r;
  t->c.g[REG_RSP] = sp; t->c.g[REG_RIP] = (uintptr_t)sim_handler; t->c.g[REG_RDI] = 10 + sigs % 3; t->c.g[REG_EFL] = 0x202 | TF; initfx(t->c.fx);
}
static int live(void) { int n = 0; for (int i = 0; i < sim_nthreads; i++) n += th[i].state == 1; return n; }
static int pick(int c) { int k = rnd(c); for (int i = 0; i < sim_nthreads; i++) if (th[i].state == 1 && !k--) return i; return -1; }
static int nextlive(int c) { for (int i = 1; i <= sim_nthreads; i++) { int j = (c + i) % sim_nthreads; if (th[j].state == 1) return j; } return -1; }
static long quantum;
static int schedule(void) { // -> thread to run for one step; may drain and deliver
  int n = live(); if (!n) return -1;
  if (explicit) {
    while (iact < nact) {
      int t = act[iact].t;
      if (act[iact].k == 'd') { drain(&th[t]); iact++; continue; }
      if (act[iact].k == 's') { if (th[t].state == 1 && sim_handler && th[t].depth < 2 && inw(th[t].c.g[REG_RIP])) deliver(&th[t]); iact++; continue; }
      if (act[iact].n <= 0 || th[t].state != 1) { iact++; continue; }
      act[iact].n--; return t;
    }
    for (int i = 0; sim_tso && i < sim_nthreads; i++) drain_all(&th[i]); // faults stop: everything drains, fair schedule
    if (cur >= 0 && th[cur].state == 1 && ++quantum % 64) return cur;
    return nextlive(cur < 0 ? sim_nthreads - 1 : cur);
  }
  if (sim_tso) for (int i = 0; i < sim_nthreads; i++) if (th[i].nsb && rnd(1000) < pdr) { drain(&th[i]); rec('d', i, 0); }
  int t = cur;
  if (yielded && t >= 0) { // waiting in a loop: others go first, and stores get out now and then
    yielded = 0; th[t].prio = --lowest - 10; 
    if (sim_tso && rnd(8) == 0) { int d = rnd(sim_nthreads); while (th[d].nsb) { drain(&th[d]); rec('d', d, 0); } }
    if (rnd(4) && steps <= maxsteps / 2) t = nextlive(t);
  }
  if (steps > maxsteps / 2) { // faults stop: fair schedule, everything drains
    for (int i = 0; i < sim_nthreads; i++) while (th[i].nsb) { drain(&th[i]); rec('d', i, 0); }
    if (t < 0 || th[t].state != 1 || ++quantum % 200 == 0) t = nextlive(t < 0 ? 0 : t);
  } else if (t < 0 || th[t].state != 1) t = pick(n);
  else if (strat == 0) { if (rnd(1000) < (touched ? psw + pbias : psw)) t = pick(n); }
  else { // priorities with a few change points
    for (int i = 0; i < nchg; i++) if (chg[i] == steps) th[t].prio = -i - 1;
    for (int i = 0; i < sim_nthreads; i++) if (th[i].state == 1 && th[i].prio > th[t].prio) t = i;
    if (touched && rnd(1000) < pbias / 4) t = pick(n);
  }
  if (sim_handler && psig && sigs < sim_maxsig && steps <= maxsteps / 2 && th[t].depth < 2 && inw(th[t].c.g[REG_RIP]) && rnd(1000) < psig) { rec('s', t, 0); deliver(&th[t]); }
  rec('r', t, 1); return t;
}
static void load(ucontext_t *u, Cpu *c) { memcpy(u->uc_mcontext.gregs, c->g, sizeof c->g); memcpy(u->uc_mcontext.fpregs, c->fx, 512); }
static void save(ucontext_t *u, Cpu *c) { memcpy(c->g, u->uc_mcontext.gregs, sizeof c->g); memcpy(c->fx, u->uc_mcontext.fpregs, 416); }
static long clobbers; static uint64_t crs = 99;
static void clobber(Cpu *c) { // a called function may destroy every caller-saved register
  static const int r[] = {REG_RCX, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11}; clobbers++;
  for (int i = 0; i < 7; i++) c->g[r[i]] = 0x7b7b0000 + i;
  for (int i = 2; i < 16; i++) memset(c->fx + 160 + 16 * i, 0xc1 + i, 16);
}
static void finish(ucontext_t *u) { for (int i = 0; i < sim_nthreads; i++) drain_all(&th[i]); if (rtotal) wr(committed); running = 0; load(u, &host); wrfs(host_fs); }
static long foreign;
extern const char *sim_step(long step) __attribute__((weak)); long sim_hooks; // after every instruction
extern int sim_traphook(ucontext_t *u) __attribute__((weak)); uint64_t sim_seed;
// what the platform's calling convention promises the caller when a compiled function returns
static const char *returned(T *t, long base, long sp) {
  static const struct { int r; const char *n; } cs[] = {{REG_RBX, "rbx"}, {REG_RBP, "rbp"}, {REG_R12, "r12"}, {REG_R13, "r13"}, {REG_R14, "r14"}, {REG_R15, "r15"}};
  Cpu *c = &t->c; const char *w = 0;
  for (int i = 0; i < 6; i++) if (c->g[cs[i].r] != base + cs[i].r) w = cs[i].n;
  if (c->g[REG_RSP] != sp) w = "the stack pointer";
  if (c->g[REG_EFL] & 0x400) w = "the direction flag";
  if (*(uint16_t *)c->fx != FCW) w = "the x87 control word";
  if (c->fx[4]) w = "the x87 register stack";
  if ((*(uint32_t *)(c->fx + 24) & 0xffc0) != 0x1f80) w = "the SSE control bits";
  if (!w) return 0;
  snprintf(faultbuf, sizeof faultbuf, "a compiled function returns in thread %d without having preserved %s", (int)(t - th), w); return faultbuf;
}
static const char *misaligned(T *t) { snprintf(faultbuf, sizeof faultbuf, "a compiled function makes a call in thread %d with a misaligned stack pointer", (int)(t - th)); return faultbuf; }
static void on_trap(int sig, siginfo_t *si, void *up) {
  ucontext_t *u = up; uintptr_t fs = rdfs(); wrfs(host_fs);
  if (running && cur >= 0 && th[cur].ret && (uintptr_t)u->uc_mcontext.gregs[REG_RIP] == (uintptr_t)sim_ret_tramp + 1) { u->uc_mcontext.gregs[REG_RIP] = th[cur].ret; th[cur].ret = 0; u->uc_mcontext.gregs[REG_EFL] |= TF; }
  if (sim_traphook && sim_traphook(u)) { wrfs(fs); return; }
  if (!running) { save(u, &host); running = 1; for (int i = 0; i < sim_nthreads; i++) start(&th[i]); if (rtotal) rd(committed); cur = -1; }
  else {
    T *t = &th[cur]; uintptr_t rip = u->uc_mcontext.gregs[REG_RIP]; t->fs = fs;
    if (!t->ret && ours(rip)) { // a call into the simulator itself runs at full speed
      uintptr_t *sp = (uintptr_t *)u->uc_mcontext.gregs[REG_RSP]; if (inw(*sp) && ((uintptr_t)sp & 15) != 8) { fault = (char *)misaligned(t); finish(u); return; } t->fret = t->ret = *sp; t->frsp = (uintptr_t)sp; *sp = (uintptr_t)sim_ret_tramp; u->uc_mcontext.gregs[REG_EFL] &= ~TF; wrfs(fs); return;
    }
    if (!inw(rip) && !t->fret && inw(*(uintptr_t *)u->uc_mcontext.gregs[REG_RSP])) { t->frsp = u->uc_mcontext.gregs[REG_RSP]; if ((t->frsp & 15) != 8) { fault = (char *)misaligned(t); finish(u); return; } t->fret = *(uintptr_t *)t->frsp; }
    if (!inw(rip) && rip != (uintptr_t)sim_exit_tramp && rip != (uintptr_t)sim_sig_tramp) {
      if (++foreign > 400000) { fault = "runaway outside the program"; finish(u); return; }
      wrfs(fs); return;
    }
    uintptr_t was = t->c.g[REG_RIP], wsp = t->c.g[REG_RSP]; save(u, &t->c);
    if (inw(rip) && inw(was) && !t->fret && t->c.g[REG_RSP] == wsp - 8 && *(uintptr_t *)(wsp - 8) - was - 1 < 8 && (wsp & 15)) { fault = (char *)misaligned(t); finish(u); return; } // a call
    if (t->fret) { if (rip == t->fret && t->c.g[REG_RSP] == t->frsp + 8) clobber(&t->c); t->fret = 0; }
    steps++; t->steps++; after(t);
    while (t->depth && t->c.g[REG_RSP] > t->sigrsp[t->depth - 1]) t->depth--;           // left the handler by a jump
    if (rip == (uintptr_t)sim_exit_tramp) { const char *m = returned(t, 0x5a5a0000, (long)t->stk + STK - 4096); if (m) { fault = (char *)m; finish(u); return; } t->state = 2; }
    else if (rip == (uintptr_t)sim_sig_tramp) { const char *m = returned(t, 0x6b6b0000, ((t->sigrsp[t->depth - 1] - 128 - 1024) & ~63l)); if (m) { fault = (char *)m; finish(u); return; } t->c = t->saved[--t->depth]; }
    else if (sim_poison) { // whatever is below the red zone may be overwritten by a signal at any time
      long sp = t->c.g[REG_RSP]; if (sp - 128 - 2048 > (long)t->stk && sp <= (long)t->stk + STK) memset((void *)(sp - 128 - 512), 0xa0 + (steps & 31), 512);
    }
    if (sim_step) { const char *m = sim_step(steps); if (m) { fault = (char *)m; finish(u); return; } }
    if (steps >= maxsteps) { snprintf(faultbuf, sizeof faultbuf, "no progress: %d of %d threads still running after %ld instructions", live(), sim_nthreads, steps); fault = faultbuf; finish(u); return; }
  }
  int n = schedule();
  if (n < 0) { finish(u); return; }
  if (n != cur) { if (cur >= 0) { switches++; cover = cover * 0x100000001b3ull ^ (th[cur].c.g[REG_RIP] - w0) ^ (uint64_t)n << 40; } cur = n; }
  T *t = &th[cur]; before(t); load(u, &t->c); u->uc_mcontext.gregs[REG_EFL] |= TF; wrfs(t->fs);
}
extern int sim_fault(ucontext_t *u, siginfo_t *si) __attribute__((weak)); // page-fault seam (device memory)
static void on_crash(int sig, siginfo_t *si, void *up) {
  ucontext_t *u = up; uintptr_t fs = rdfs(); wrfs(host_fs);
  if (sim_fault && sig == SIGSEGV) { int k = sim_fault(u, si); if (k) { wrfs(fs); return; } }
  if (!running) { char b[80]; int n = snprintf(b, 80, "host crash sig %d rip %lx\n", sig, (long)u->uc_mcontext.gregs[REG_RIP]); write(2, b, n); _exit(9); }
  snprintf(faultbuf, sizeof faultbuf, "signal %d (%s) in thread %d at %s+0x%lx", sig, strsignal(sig), cur, inw(u->uc_mcontext.gregs[REG_RIP]) ? "program" : "outside", (long)(u->uc_mcontext.gregs[REG_RIP] - w0));
  fault = faultbuf; finish(u);
}
__attribute__((noinline)) static void go(void) { __asm__ volatile("int3" ::: "memory", "rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "cc"); }
static int parked; static void *park(void *a) { *(uintptr_t *)a = rdfs(); __atomic_add_fetch(&parked, 1, __ATOMIC_SEQ_CST); for (;;) pause(); return 0; }
static int phdr(struct dl_phdr_info *i, size_t n, void *x) {
  if (i->dlpi_name && strstr(i->dlpi_name, "work.so")) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_X) { w0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; w1 = w0 + i->dlpi_phdr[k].p_memsz; }
  return 0;
}
static void run_one(uint64_t seed, const char *sched, int out) {
  sim_seed = seed;
  rs = seed * 0x2545f4914f6cdd1dull + 7; rc = rs ^ 0xabcdef; for (int i = 0; i < 4; i++) nx(&rs), nx(&rc);
  static const int psws[] = {500, 250, 120, 50, 15, 5}, pdrs[] = {500, 100, 20, 4, 0}, psigs[] = {1, 3, 8, 20, 60, 200}, biases[] = {0, 200, 400};
  strat = rnd(4) == 0; psw = psws[rnd(6)]; pdr = pdrs[rnd(5)]; psig = psigs[rnd(6)]; pbias = biases[rnd(3)]; nchg = rnd(4); for (int i = 0; i < nchg; i++) chg[i] = rnd(400);
  for (int i = 0; i < MAXT; i++) th[i].prio = rnd(1000);
  if (sched) {
    explicit = 1; const char *p = sched;
    while (*p) { char k = *p++; if (k == ' ') continue; if (k == 'c') { chs[nch++] = strtol(p, (char **)&p, 10); continue; } act[nact].k = k; act[nact].t = strtol(p, (char **)&p, 10); act[nact].n = *p == '*' ? strtol(p + 1, (char **)&p, 10) : 0; nact++; }
  }
  if (sim_setup) sim_setup();
  prog_threads();
  for (int i = 0; &sim_nregions && i < sim_nregions; i++) rtotal += sim_regions[i].n;
  if (rtotal > RMAX) { fprintf(stderr, "shared region too large\n"); _exit(9); }
  if (sim_nthreads) go();
  const char *v = fault ? fault : oracle();
  uint64_t h = 0xcbf29ce484222325ull; for (int i = 0; i < sim_nev; i++) { Ev *e = &sim_ev[i]; h = (h ^ (uint64_t)e->t ^ (uint64_t)e->tag << 8 ^ (uint64_t)e->a << 16 ^ (uint64_t)e->b << 3 ^ (uint64_t)e->when << 32) * 0x100000001b3ull; }
  static char buf[1 << 20]; int n = snprintf(buf, sizeof buf, "%lu %ld %ld %ld %ld %ld %ld %ld %016lx %016lx %d %s\n", (unsigned long)seed, steps, switches, drains, sigs, forwards, clobbers, sim_hooks, (unsigned long)cover, (unsigned long)h, v ? 1 : 0, v ? v : "ok");
  for (char *p = buf; p < buf + n - 1; p++) if (*p == '\n') *p = ' ';
  if (v || sched || getenv("SIM_TRACE")) {
    n += snprintf(buf + n, sizeof buf - n, "S");
    if (explicit) n += snprintf(buf + n, sizeof buf - n, " %s", sched);
    else { for (int i = 0; i < nact && n < sizeof buf - 200; i++) n += act[i].k == 'r' ? snprintf(buf + n, 60, " r%d*%ld", act[i].t, act[i].n) : snprintf(buf + n, 60, " %c%d", act[i].k, act[i].t);
    for (int i = 0; i < nch && n < sizeof buf - 200; i++) n += snprintf(buf + n, 60, " c%d", chs[i]); }
    n += snprintf(buf + n, sizeof buf - n, "\n");
  }
  for (int w = 0; w < n;) { int k = write(out, buf + w, n - w); if (k <= 0) _exit(9); w += k; }
  _exit(0);
}
// usage: prog run FIRST COUNT | prog one SEED [SCHEDULE]
int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  if (&wtext_start[0]) { w0 = (uintptr_t)wtext_start; w1 = (uintptr_t)wtext_end; }
  dl_iterate_phdr(phdr, 0);
  host_fs = rdfs(); extern long sim_maxsteps __attribute__((weak)); if (&sim_maxsteps) maxsteps = sim_maxsteps;
  extern int sim_pool __attribute__((weak)); npool = &sim_pool ? sim_pool : 6;
  for (int i = 0; i < npool; i++) { pthread_t p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 65536); if (pthread_create(&p, &a, park, &pool[i])) { perror("pthread_create"); return 9; } while (__atomic_load_n(&parked, __ATOMIC_SEQ_CST) != i + 1) usleep(20); }
  static char alt[1 << 16]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
  struct sigaction sa = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_ONSTACK}; sigaction(SIGTRAP, &sa, 0);
  sa.sa_sigaction = on_crash; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0);
  int one = argc > 2 && !strcmp(argv[1], "one");
  uint64_t first = strtoul(argv[2], 0, 10), cnt = one ? 1 : strtoul(argv[3], 0, 10);
  for (uint64_t s = first; s < first + cnt; s++) {
    pid_t p = fork();
    if (!p) { struct rlimit rl = {60, 60}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); run_one(s, one && argc > 3 ? argv[3] : 0, 1); }
    int st; waitpid(p, &st, 0);
    if (st) { printf("%lu 0 0 0 0 0 0 0 0 0 2 the program destroyed its own process: status %x\n", (unsigned long)s, st); fflush(stdout); }
  }
  return 0;
}
