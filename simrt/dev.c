// Device memory: every access of the simulated program (and of the reference) to one page faults, is decoded, recorded as a
// read and/or a write with its width, and reads deliver seeded values that change from one read to the next.
#define _GNU_SOURCE
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include "rt.h"
#define DEV 0x20000000ul
#define LEN 8192
extern struct dev_obj { long off; int n; char k; } dev_objs[] __attribute__((weak)); extern int dev_nobj __attribute__((weak));
extern uint64_t sim_seed; static long nread[2]; static int pend, pw, pr; static uintptr_t pa; static int undec;
// what does the instruction at p do to its memory operand: bits 8 = read, 9 = write, low byte = width; 0 = unknown
static int decode(const unsigned char *p, int addr_is_rdi) {
  int w66 = 0, f2 = 0, f3 = 0, rex = 0, R = 256, W = 512;
  for (;; p++) { if (*p == 0x66) w66 = 1; else if (*p == 0xf2) f2 = 1; else if (*p == 0xf3) f3 = 1; else if (*p == 0xf0 || *p == 0x2e || *p == 0x3e || *p == 0x64) ; else break; }
  if ((*p & 0xf0) == 0x40) rex = *p++;
  int osz = rex & 8 ? 8 : w66 ? 2 : 4, m, o = *p++;
  if (o != 0x0f) {
    m = *p; int reg = m >> 3 & 7, sz = o & 1 ? osz : 1;
    if (o < 0x40 && (o & 7) < 4) return (o & 7) < 2 ? (o >> 3 == 7 ? R | sz : R | W | sz) : R | sz;
    switch (o) {
    case 0x63: return R | 4; case 0x69: case 0x6b: return R | osz;
    case 0x80: case 0x81: case 0x83: sz = o == 0x80 ? 1 : osz; return reg == 7 ? R | sz : R | W | sz;
    case 0x84: case 0x85: return R | sz; case 0x86: case 0x87: return R | W | sz; case 0x88: case 0x89: return W | sz; case 0x8a: case 0x8b: return R | sz; case 0x8f: return W | 8;
    case 0xa0: case 0xa1: return R | sz; case 0xa2: case 0xa3: return W | sz;
    case 0xa4: case 0xa5: return (addr_is_rdi ? W : R) | sz; case 0xaa: case 0xab: return W | sz; case 0xac: case 0xad: return R | sz;
    case 0xc0: case 0xc1: case 0xd0: case 0xd1: case 0xd2: case 0xd3: return R | W | sz; case 0xc6: case 0xc7: return W | sz;
    case 0xf6: case 0xf7: return reg == 2 || reg == 3 ? R | W | sz : R | sz;
    case 0xfe: case 0xff: return reg < 2 ? R | W | sz : R | 8;
    case 0xd8: case 0xda: return R | 4; case 0xdc: return R | 8; case 0xde: return R | 2;
    case 0xd9: return reg == 0 ? R | 4 : reg < 4 ? W | 4 : reg == 5 ? R | 2 : reg == 7 ? W | 2 : 0;
    case 0xdb: return reg == 0 ? R | 4 : reg < 4 ? W | 4 : reg == 5 ? R | 10 : reg == 7 ? W | 10 : 0;
    case 0xdd: return reg == 0 ? R | 8 : reg < 4 ? W | 8 : 0;
    case 0xdf: return reg == 0 ? R | 2 : reg < 4 ? W | 2 : reg == 5 ? R | 8 : reg == 7 ? W | 8 : 0;
    }
    return 0;
  }
  o = *p++; int ps = f3 ? 4 : f2 ? 8 : 16;
  switch (o) {
  case 0x10: return R | ps; case 0x11: return W | ps; case 0x12: case 0x16: return R | 8; case 0x13: case 0x17: return W | 8; case 0x28: return R | 16; case 0x29: return W | 16;
  case 0x2a: return R | (rex & 8 ? 8 : 4); case 0x2c: case 0x2d: return R | (f3 ? 4 : 8); case 0x2e: case 0x2f: return R | (w66 ? 8 : 4);
  case 0x51: case 0x58: case 0x59: case 0x5c: case 0x5d: case 0x5e: case 0x5f: return R | ps; case 0x5a: return R | (f3 ? 4 : f2 ? 8 : w66 ? 16 : 8);
  case 0x54: case 0x55: case 0x56: case 0x57: case 0xef: case 0xdb: case 0xeb: return R | 16;
  case 0x6e: return R | (rex & 8 ? 8 : 4); case 0x7e: return f3 ? R | 8 : W | (rex & 8 ? 8 : 4); case 0x6f: return R | 16; case 0x7f: return W | 16; case 0xd6: return W | 8;
  case 0xb6: case 0xbe: return R | 1; case 0xb7: case 0xbf: return R | 2; case 0xaf: return R | osz; case 0xb0: case 0xc0: return R | W | 1; case 0xb1: case 0xc1: return R | W | osz;
  case 0xa3: return R | osz; case 0xab: case 0xb3: case 0xbb: return R | W | osz; case 0xba: return (p[0] >> 3 & 7) == 4 ? R | osz : R | W | osz;
  }
  if (o >= 0x90 && o < 0xa0) return W | 1;
  if (o >= 0x40 && o < 0x50) return R | osz;
  return 0;
}
static uint64_t mix(uint64_t z) { z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
void sim_setup(void) { mmap((void *)DEV, LEN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); }
static uint64_t value(char k, uint64_t h) { // what the device shows for an object of kind k
  union { double d; float f; uint64_t u; } x = {0};
  switch (k) {
  case 'b': return h & 1;
  case 'd': x.d = (double)(int64_t)(h >> 40) / 8 - 100000; return x.u;
  case 'f': x.f = (float)(h >> 50) / 4 - 1000; return x.u;
  case 'p': return DEV + (h % 4 + 1) * 16 - 16;  // one of the first four objects
  case 's': return h % 8;                        // small
  default: return h & 15 ? h : h >> 60;
  }
}
int sim_fault(ucontext_t *u, siginfo_t *si) {
  uintptr_t a = (uintptr_t)si->si_addr; if (a < DEV || a >= DEV + LEN || pend) return 0;
  int d = decode((void *)u->uc_mcontext.gregs[REG_RIP], (uintptr_t)u->uc_mcontext.gregs[REG_RDI] == a);
  if (!d) { static char m[100]; say("undecoded device access %02x %02x %02x %02x", ((unsigned char *)u->uc_mcontext.gregs[REG_RIP])[0], ((unsigned char *)u->uc_mcontext.gregs[REG_RIP])[1], ((unsigned char *)u->uc_mcontext.gregs[REG_RIP])[2], ((unsigned char *)u->uc_mcontext.gregs[REG_RIP])[3]); undec = 1; d = 256 | 1; }
  pa = a; pr = d & 256 ? d & 255 : 0; pw = d & 512 ? d & 255 : 0; mprotect((void *)DEV, LEN, PROT_READ | PROT_WRITE);
  int ref = sim_redirect >= 0;
  if (pr) {
    uint64_t h = mix(sim_seed * 1000003 + ++nread[ref] * 0x9e3779b97f4a7c15ull); char k = 'i'; int n = 8; long o = a - DEV;
    for (int i = 0; i < dev_nobj; i++) if (o >= dev_objs[i].off && o < dev_objs[i].off + dev_objs[i].n) { k = dev_objs[i].k; n = dev_objs[i].n; o = dev_objs[i].off; }
    uint64_t v = value(k, h); memset((void *)a, 0xee, pr); memcpy((void *)(DEV + o), &v, n > 8 ? 8 : n);
    sim_log(700, (a - DEV) << 8 | pr, 0);
  } 
  pend = 1; u->uc_mcontext.gregs[REG_EFL] |= 0x100; return 1;
}
// Watched automatic objects: between two instructions the next one is decoded; if it accesses a watched object the access is
// recorded and, before a read, the object takes a fresh value, exactly like a device register.
static struct watch { uintptr_t a; int n, cnt, slot; char k; } wt[2][64]; static int nwt[2]; static long nwread[2]; static volatile int busy; static int ww; static uintptr_t wa; static struct watch *wp;
void sim_watch(const volatile void *p, int n, int cnt, int k, int slot) {
  int ref = sim_redirect >= 0; busy = 1; for (int i = 0; i < nwt[ref]; i++) if (wt[ref][i].slot == slot) wt[ref][i--] = wt[ref][--nwt[ref]];
  if (nwt[ref] < 64) wt[ref][nwt[ref]++] = (struct watch){ (uintptr_t)p, n, cnt, slot, k };
  busy = 0;
  if (ref) __asm__ volatile("leaq -256(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; leaq 256(%%rsp), %%rsp" ::: "memory", "cc");
}
void sim_unwatch(int slot) { int ref = sim_redirect >= 0; busy = 1; for (int i = 0; i < nwt[ref]; i++) if (wt[ref][i].slot == slot) wt[ref][i--] = wt[ref][--nwt[ref]]; busy = 0; }
static uintptr_t ea(const unsigned char *p, greg_t *g) { // address of the memory operand, 0 if there is none on the stack
  static const int R[] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
  int rex = 0; for (;; p++) { if (*p == 0x64 || *p == 0x65 || *p == 0x67) return 0; if (*p != 0x66 && *p != 0xf2 && *p != 0xf3 && *p != 0xf0 && *p != 0x2e && *p != 0x3e) break; }
  if ((*p & 0xf0) == 0x40) rex = *p++;
  int o = *p++; if (o >= 0xa0 && o < 0xa4) return 0;
  if (o == 0xa4 || o == 0xa5 || o == 0xaa || o == 0xab) return g[REG_RDI];
  if (o == 0xac || o == 0xad) return g[REG_RSI];
  if (o == 0x0f) { o = *p++; if (o == 0x38 || o == 0x3a) return 0; }
  int m = *p++, mod = m >> 6, rm = m & 7; uintptr_t a = 0; if (mod == 3) return 0;
  if (rm == 4) { int b = *p++, x = (b >> 3 & 7) | (rex & 2) << 2, bs = b & 7; if (x != 4) a += (uintptr_t)g[R[x]] << (b >> 6); if (bs == 5 && mod == 0) { a += *(int *)p; return a; } a += g[R[bs | (rex & 1) << 3]]; }
  else if (rm == 5 && mod == 0) return 0;
  else a = g[R[rm | (rex & 1) << 3]];
  return a + (mod == 1 ? *(signed char *)p : mod == 2 ? *(int *)p : 0);
}
static void watched(ucontext_t *u, int ref) {
  greg_t *g = u->uc_mcontext.gregs; const unsigned char *ip = (void *)g[REG_RIP];
  if (ww) { uint64_t v = 0; memcpy(&v, (void *)wa, ww > 8 ? 8 : ww); if (ww > 8) v = ((uint64_t *)wa)[0]; sim_log(703, (long)wp->slot << 16 | (long)(wa - wp->a + 64) << 8 | ww, v); ww = 0; }
  for (int i = 0; i < nwt[ref]; i++) if (wt[ref][i].a < (uintptr_t)g[REG_RSP]) wt[ref][i--] = wt[ref][--nwt[ref]];
  if (!nwt[ref]) return;
  int d = decode(ip, 1), w = d & 255; if (!d) return;
  for (int two = 0; two < 2; two++) {
    uintptr_t a = two ? 0 : ea(ip, g); if (two) { const unsigned char *q = ip; while (*q == 0xf2 || *q == 0xf3 || (*q & 0xf0) == 0x40) q++; if (*q != 0xa4 && *q != 0xa5) break; a = g[REG_RSI]; d = 256 | w; }
    if (!a) continue;
    for (int i = 0; i < nwt[ref]; i++) {
      struct watch *x = &wt[ref][i]; if (a + w <= x->a || a >= x->a + x->n * x->cnt) continue;
      if (d & 256) {
        uint64_t h = mix(sim_seed * 1000003 + 999331 + ++nwread[ref] * 0x9e3779b97f4a7c15ull), v = value(x->k, h); long e = a > x->a ? (long)(a - x->a) / x->n : 0;
        memcpy((void *)(x->a + e * x->n), &v, x->n > 8 ? 8 : x->n); sim_log(702, (long)x->slot << 16 | (long)(a - x->a + 64) << 8 | w, 0);
      }
      if (d & 512) { ww = w; wa = a; wp = x; }
      return;
    }
  }
}
int sim_traphook(ucontext_t *u) { // after the instruction: 1 if the reference was running (not stepped)
  int ref_ = sim_redirect >= 0, had = nwt[ref_]; static struct watch keep;
  if (pend && pw) { uint64_t v = 0; memcpy(&v, (void *)pa, pw > 8 ? 8 : pw); sim_log(701, (pa - DEV) << 8 | pw, v); }
  if (busy) { if (ref_) return 1; }
  else if (had || ww) {
    if (ww) { keep = *wp; wp = &keep; }
    watched(u, ref_);
  }
  if (ref_ && !pend) { if (!nwt[1]) u->uc_mcontext.gregs[REG_EFL] &= ~0x100; return 1; }
  if (!pend) return 0;
  pend = 0;
  mprotect((void *)DEV, LEN, PROT_NONE);
  if (sim_redirect >= 0) { if (!nwt[1]) u->uc_mcontext.gregs[REG_EFL] &= ~0x100; return 1; }
  return 0;
}
const char *sim_veto(void) { return undec ? sim_msg : 0; }
