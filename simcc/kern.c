// Simulated kernel, scheduler and scenario server. One scenario text -> one exactly repeatable execution.
#define _GNU_SOURCE
#include "kern.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <ucontext.h>
#include <unistd.h>

extern char __start_simdata[], __stop_simdata[], __start_simbss[], __stop_simbss[];
int sut_main(int, char **, char **);
void u_exit(int) __attribute__((noreturn));

struct k_knobs K;
static struct { long tick, pidbase, pidstep, tmpspace, seed, rss_mode, rss_k, quota, heapmax, maxsteps, nochld, nofd; } G;

// ------------------------------------------------------------------ file system
enum { N_FILE = 1, N_DIR, N_CHR, N_PIPE };
typedef struct Inode Inode;
typedef struct Ent { char *name; Inode *ino; struct Ent *next; } Ent; // ino NULL: known absent (mounts)
struct Inode { int kind, nlink, opens, mount, loaded, mode; long id; char *data; size_t size, cap; long mt, mtns; Ent **tab; int tabn, cnt; char *host; int dev; Inode *allnext, *allprev; int stubexe; };
static Inode *root, all; static long next_ino;
static Inode *mounts[4]; static const char *mount_at[4], *mount_host[4]; static int nmounts;
static long now, now_ns; // simulated clock

static Inode *inew(int kind, int mount) {
  Inode *n = calloc(1, sizeof *n); n->kind = kind; n->mount = mount; n->nlink = 1; n->mode = kind == N_DIR ? 0755 : 0644;
  if (!mount) { n->id = ++next_ino; n->allnext = all.allnext; n->allprev = &all; if (all.allnext) all.allnext->allprev = n; all.allnext = n; }
  n->mt = now; n->mtns = now_ns; return n;
}
static unsigned hs(const char *s, size_t n) { unsigned h = 5381; while (n--) h = h * 33 ^ (unsigned char)*s++; return h; }
static Ent **slot(Inode *d, const char *s, size_t n) {
  if (!d->tab) { d->tabn = 64; d->tab = calloc(64, sizeof(Ent *)); }
  Ent **p = &d->tab[hs(s, n) % d->tabn];
  while (*p && !(strlen((*p)->name) == n && !memcmp((*p)->name, s, n))) p = &(*p)->next;
  return p;
}
static void ifree(Inode *n) { // no directory entry and no open description
  if (n->mount) return;
  if (n->allprev) { n->allprev->allnext = n->allnext; if (n->allnext) n->allnext->allprev = n->allprev; }
  for (int i = 0; i < n->tabn; i++) for (Ent *e = n->tab[i]; e;) { Ent *x = e->next; free(e->name); free(e); e = x; }
  free(n->tab); free(n->data); free(n->host); free(n);
}
static void iput(Inode *n) { if (n->nlink <= 0 && n->opens <= 0) ifree(n); }
static void link_(Inode *d, const char *s, size_t n, Inode *c) {
  Ent **p = slot(d, s, n);
  if (*p) { (*p)->ino = c; return; }
  Ent *e = calloc(1, sizeof *e); e->name = strndup(s, n); e->ino = c; *p = e; d->cnt++;
}
static Inode *child(Inode *d, const char *s, size_t n) {
  if (d->kind != N_DIR) return NULL;
  Ent **p = slot(d, s, n);
  if (*p) return (*p)->ino;
  if (!d->host) return NULL;
  char hp[4096]; snprintf(hp, sizeof hp, "%s/%.*s", d->host, (int)n, s);
  struct stat st; Inode *c = NULL;
  if (!stat(hp, &st) && (S_ISREG(st.st_mode) || S_ISDIR(st.st_mode))) {
    c = inew(S_ISDIR(st.st_mode) ? N_DIR : N_FILE, 1); c->host = strdup(hp); c->size = S_ISDIR(st.st_mode) ? 0 : st.st_size; c->mt = 1000000; c->mtns = 0;
    c->id = 100000000 + (hs(hp, strlen(hp)) >> 1);
  }
  link_(d, s, n, c);
  return c;
}
static void iload(Inode *n) {
  if (n->loaded || !n->host || n->kind != N_FILE) return;
  FILE *f = fopen(n->host, "rb"); n->data = malloc(n->size + 1); n->size = f ? fread(n->data, 1, n->size, f) : 0; if (f) fclose(f); n->loaded = 1;
}
// resolve path; returns inode or NULL with *err; *par/*last describe the final component
static Inode *walk(const char *cwd, const char *path, Inode **par, const char **last, size_t *lastn, int *err) {
  Inode *st[64]; int sp = 0; st[0] = root;
  *par = NULL; *err = ENOENT;
  if (!*path) return NULL;
  if (strlen(path) > 4000) { *err = ENAMETOOLONG; return NULL; }
  const char *parts[2] = {*path == '/' ? "" : cwd, path};
  Inode *cur = root;
  for (int k = 0; k < 2; k++) {
    const char *s = parts[k];
    for (;;) {
      while (*s == '/') s++;
      if (!*s) break;
      size_t n = strcspn(s, "/"); const char *nx = s + n; while (*nx == '/') nx++;
      int fin = k == 1 && !*nx;
      if (cur->kind != N_DIR) { *err = ENOTDIR; *par = NULL; return NULL; }
      if (n > 255) { *err = ENAMETOOLONG; return NULL; }
      if (n == 1 && *s == '.') { s = nx; if (fin && sp > 0) { *par = st[sp - 1]; } continue; }
      if (n == 2 && s[0] == '.' && s[1] == '.') { if (sp) sp--; cur = st[sp]; s = nx; continue; }
      if (fin) { *par = cur; *last = s; *lastn = n; }
      Inode *c = child(cur, s, n);
      if (!c) { *err = ENOENT; if (!fin) *par = NULL; return NULL; }
      if (fin && s[n] == '/' && c->kind != N_DIR) { *err = ENOTDIR; return NULL; }
      if (sp < 62) st[++sp] = c;
      cur = c; s = nx;
    }
  }
  return cur;
}
static Inode *mkpath(const char *path, int kind) {
  Inode *d = root; const char *s = path;
  for (;;) {
    while (*s == '/') s++;
    if (!*s) return d;
    size_t n = strcspn(s, "/"); int fin = !s[n];
    Inode *c = child(d, s, n);
    if (c && fin && kind == N_FILE && c->kind == N_FILE && c->nlink > 1) { c->nlink--; c = NULL; }
    if (!c) { c = inew(fin ? kind : N_DIR, 0); link_(d, s, n, c); }
    d = c; s += n;
  }
}
static void setdata(Inode *n, const char *d, size_t sz) { free(n->data); n->data = malloc(sz + 1); memcpy(n->data, d, sz); n->size = n->cap = sz; n->mt = now; n->mtns = now_ns; }

// ------------------------------------------------------------------ processes
#define MAXP 256
#define REGS 8
#define RBASE 0x100000000000ul
#define RSTEP 0x1000000000ul
#define STKSZ (16ul << 20)
typedef struct Desc { Inode *ino; long off; int flags, refs; size_t size0; char path[256]; int std; int dead; } Desc;
enum { P_FREE, P_RUN, P_WAIT, P_ZOMBIE, P_DONE };
typedef struct Proc {
  char lid[64]; int state, pid, ppid, rootidx, nfork, status; void *sp; long ret; int waitpid_; char cwd[256];
  Desc *fd[64]; long nsys, nalloc; char *brk; size_t guardn; void *img; size_t imgcap; int hasimg; char execname[64]; int inherited; long due; int reaped, orphan; int stub; void *scr[8]; long exitstep; int waited_by_parent; int nchild_live;
} Proc;
static Proc P[MAXP]; static int np; static Proc *cur, *resident[REGS], *dataRes; static int guarded[REGS], guardoff[REGS], nguard[REGS];
static void *host_sp; static long step; static int in_proc; static Proc *target;
static char *region(int r) { return (char *)(RBASE + r * RSTEP); }
static char *stktop(int r) { return region(r) + (RSTEP >> 1) + STKSZ; }
static Proc *roots[REGS]; static int nroots; static Inode *outs[REGS], *errs[REGS];
static uint64_t rootrng[REGS], tmprng[REGS]; static long rss_calls[REGS];
static int hung, deadlock; static const char *hangwhy = "";

__attribute__((naked, noinline)) static void ctx_switch(void **save, void *load) {
  asm volatile("push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; mov %rsp,(%rdi); mov %rsi,%rsp;"
               "pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret");
}

// ------------------------------------------------------------------ faults, schedule, log
typedef struct Fault { char lid[64]; long idx; char kind[16]; long arg, arg2; int fired; char name[16]; long at; char atname[16], atpath[512]; } Fault;
static Fault F[512]; static int nf;
typedef struct MF { char lid[64]; long idx; int from, fired; } MF;
static MF M[64]; static int nm;
typedef struct { long step; char lid[64]; int used; } Sw;
static Sw S[4096]; static int ns, si;
static int trace; static char *tb; static size_t tn, tc; static uint64_t loghash; static long nswitch;
static char *touch; static size_t ton, toc;
static uint64_t clkmin, clkmax;
typedef struct { long a, an, b, bn; } Seg; static Seg seg[64]; static int nseg;

static void app(char **b, size_t *n, size_t *c, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); char t[8192]; int k = vsnprintf(t, sizeof t, fmt, ap); va_end(ap); if (k > (int)sizeof t - 1) k = sizeof t - 1;
  if (*n + k + 1 > *c) { *c = (*n + k + 1) * 2; *b = realloc(*b, *c); }
  memcpy(*b + *n, t, k + 1); *n += k;
}
static char *encs(const char *s, size_t n) { // percent-encode (malloc)
  char *o = malloc(n * 3 + 1), *p = o; static const char hx[] = "0123456789ABCDEF";
  for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c > 32 && c < 127 && c != '%') *p++ = c; else { *p++ = '%'; *p++ = hx[c >> 4]; *p++ = hx[c & 15]; } }
  *p = 0; return o;
}
static void mix(const void *p, size_t n) { const unsigned char *s = p; while (n--) { loghash ^= *s++; loghash *= 0x100000001b3ull; } }
static const char *evname; static char evpath[1024]; 
static void to_host(void) { in_proc = 0; ctx_switch(&cur->sp, host_sp); in_proc = 1; }
static void advance_clock(long ns) { now_ns += ns; now += now_ns / 1000000000; now_ns %= 1000000000; seg[nseg].b = now; seg[nseg].bn = now_ns; }
static void proc_end(Proc *p, int status);
static void die_now(int sig) { proc_end(cur, sig); to_host(); abort(); }
void k_die(int sig) { die_now(sig); __builtin_unreachable(); }

static Fault *ev(const char *name, const char *path) {
  Proc *p = cur;
  step++;
  if (G.tick) advance_clock(G.tick);
  if (step > G.maxsteps) { hung = 1; hangwhy = "steps"; die_now(9); }
  if (si < ns && S[si].step <= step) {
    Sw *s = &S[si++]; target = NULL;
    for (int i = 0; i < np; i++) if (!strcmp(P[i].lid, s->lid) && P[i].state == P_RUN && &P[i] != p) target = &P[i];
    if (target) { s->used = 1; nswitch++; to_host(); }
  }
  p->nsys++;
  evname = name; snprintf(evpath, sizeof evpath, "%s", path ? path : "");
  for (int i = 0; i < nf; i++) {
    Fault *f = &F[i];
    if (f->fired || strcmp(f->lid, p->lid)) continue;
    if (f->name[0] ? (p->nsys < f->idx || strcmp(f->name, name)) : f->idx != p->nsys) continue;
    f->at = p->nsys; snprintf(f->atname, sizeof f->atname, "%s", name); snprintf(f->atpath, sizeof f->atpath, "%s", evpath);
    if (!strcmp(f->kind, "clock")) {
      f->fired = 1; now += f->arg; if (nseg < 63) nseg++; seg[nseg] = (Seg){now, now_ns, now, now_ns}; continue;
    }
    if (!strcmp(f->kind, "quota")) { f->fired = 1; G.quota = f->arg; continue; }
    if (!strcmp(f->kind, "kill")) { f->fired = 1; mix("kill", 4); if (trace) app(&tb, &tn, &tc, "ev %s %ld %s %s KILL\n", p->lid, p->nsys, name, "-"); die_now(f->arg); }
    if (!strcmp(f->kind, "killtree")) {
      f->fired = 1; mix("killtree", 8); 
      for (int i = 0; i < np; i++) if (P[i].rootidx == p->rootidx && &P[i] != p && (P[i].state == P_RUN || P[i].state == P_WAIT) && !P[i].inherited) proc_end(&P[i], f->arg);
      die_now(f->arg);
    }
    f->fired = 1; return f;
  }
  return NULL;
}
static long evret(long r) {
  Proc *p = cur;
  mix(p->lid, strlen(p->lid)); mix(evname, strlen(evname)); mix(evpath, strlen(evpath)); mix(&r, sizeof r);
  if (trace) { char *e = encs(evpath, strlen(evpath)); app(&tb, &tn, &tc, "ev %s %ld %s %s %ld %ld\n", p->lid, p->nsys, evname, *e ? e : "-", r, step); free(e); }
  return r;
}
static void touched(const char *op, const char *path) { char full[1400]; if (*path == '/') snprintf(full, sizeof full, "%s", path); else snprintf(full, sizeof full, "%s/%s", cur->cwd, path); char *e = encs(full, strlen(full)); app(&touch, &ton, &toc, "touch %s %s %s\n", cur->lid, op, e); free(e); }
#define ERRF(f) ((f) && !strcmp((f)->kind, "err"))

// ------------------------------------------------------------------ system calls
static int newfd(Desc *d, int from) { for (int i = from; i < 64; i++) if (!cur->fd[i]) { cur->fd[i] = d; d->refs++; return i; } return -EMFILE; }
static Desc *gd(int fd) { return fd >= 0 && fd < 64 ? cur->fd[fd] : NULL; }
long k_open(const char *path, int fl, int mode) {
  Fault *f = ev(fl & (O_WRONLY | O_RDWR) ? (fl & O_EXCL ? "creat" : "openw") : "open", path);
  if (ERRF(f)) return evret(-f->arg);
  Inode *par; const char *last; size_t ln; int err;
  Inode *n = walk(cur->cwd, path, &par, &last, &ln, &err);
  int wr = fl & (O_WRONLY | O_RDWR);
  if (!n) {
    if (err != ENOENT || !(fl & O_CREAT) || !par) return evret(-err);
    if (par->mount) return evret(-EACCES);
    if (G.quota == 0) return evret(-ENOSPC);
    n = inew(N_FILE, 0); n->mode = mode & 0777; link_(par, last, ln, n); touched("create", path);
  } else {
    if ((fl & O_CREAT) && (fl & O_EXCL)) return evret(-EEXIST);
    if (n->kind == N_DIR && wr) return evret(-EISDIR);
    if (wr && n->mount) return evret(-EACCES);
    if (wr && n->kind == N_FILE) touched(fl & O_TRUNC ? "trunc" : "openw", path);
    if (wr && (fl & O_TRUNC) && n->kind == N_FILE) { n->size = 0; n->mt = now; n->mtns = now_ns; }
  }
  Desc *d = calloc(1, sizeof *d); d->ino = n; d->flags = fl; d->size0 = n->size; snprintf(d->path, sizeof d->path, "%s", path); n->opens++;
  int fd = newfd(d, 0); if (fd < 0) { n->opens--; iput(n); free(d); }
  return evret(fd);
}
static void dput(Desc *d) { if (--d->refs) return; d->ino->opens--; iput(d->ino); free(d); }
long k_read(int fd, void *buf, size_t n) {
  Desc *d = gd(fd); Fault *f = ev("read", d ? d->path : "?");
  if (!d || (d->flags & O_WRONLY)) return evret(-EBADF);
  if (ERRF(f)) return evret(-f->arg);
  if (d->ino->kind == N_DIR) return evret(-EISDIR);
  if (d->ino->dev == 1) return evret(0);
  iload(d->ino);
  long av = (long)d->ino->size - d->off; if (av < 0) av = 0;
  if ((long)n < av) av = n;
  if (K.readmax && av > K.readmax) av = K.readmax;
  if (f && !strcmp(f->kind, "short") && av > f->arg) av = f->arg < 1 ? 1 : f->arg;
  if (av) memcpy(buf, d->ino->data + d->off, av);
  d->off += av;
  return evret(av);
}
long k_write(int fd, const void *buf, size_t n) {
  Desc *d = gd(fd); Fault *f = ev(fd == 2 || (d && d->std == 2) ? "writeerr" : "write", d ? d->path : "?");
  if (!d || !(d->flags & (O_WRONLY | O_RDWR))) return evret(-EBADF);
  if (ERRF(f)) return evret(-f->arg);
  if (!n) return evret(0);
  if (f && !strcmp(f->kind, "short") && (long)n > f->arg) n = f->arg < 1 ? 1 : f->arg;
  Inode *i = d->ino;
  if (i->dev == 1) return evret(n);
  if (i->dev == 2) return evret(-ENOSPC);
  if (i->dev == 0 && d->std != 2 && G.quota >= 0) { if (!G.quota) return evret(-ENOSPC); if ((long)n > G.quota) n = G.quota; G.quota -= n; }
  if (d->flags & O_APPEND) d->off = i->size;
  size_t end = d->off + n;
  if (end > (256ul << 20)) return evret(-EFBIG);
  if (end > i->cap || !i->data) { i->cap = end * 2 + 64; i->data = realloc(i->data, i->cap); }
  if ((size_t)d->off > i->size) memset(i->data + i->size, 0, d->off - i->size);
  memcpy(i->data + d->off, buf, n); d->off = end; if (end > i->size) i->size = end;
  i->mt = now; i->mtns = now_ns;
  mix(buf, n < 64 ? n : 64);
  return evret(n);
}
long k_close(int fd) {
  Desc *d = gd(fd); Fault *f = ev("close", d ? d->path : "?");
  if (!d) return evret(-EBADF);
  cur->fd[fd] = NULL; long r = 0;
  if (ERRF(f)) { // the close reports a delayed write-back failure; what was written since open may be lost
    r = -f->arg; if (f->arg2 && (d->flags & (O_WRONLY | O_RDWR)) && d->ino->kind == N_FILE) { if (f->arg2 == 1) { d->ino->size = 0; } else d->ino->size /= 2; }
  }
  dput(d);
  return evret(r);
}
long k_lseek(int fd, long off, int w) {
  Desc *d = gd(fd); Fault *f = ev("lseek", d ? d->path : "?");
  if (!d) return evret(-EBADF);
  if (ERRF(f)) return evret(-f->arg);
  if (d->ino->kind == N_PIPE) return evret(-ESPIPE);
  iload(d->ino);
  long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? d->off : (long)d->ino->size;
  if (b + off < 0) return evret(-EINVAL);
  d->off = b + off; return evret(d->off);
}
static void fillst(Inode *n, struct k_stat *st) { if (!n->host || n->kind != N_FILE || n->loaded) ; st->kind = n->kind; st->size = n->kind == N_FILE ? n->size : n->kind == N_DIR ? 4096 : 0; st->mtime = n->mt; st->mtime_ns = n->mtns; st->ino = n->id; st->nlink = n->nlink; st->mode = n->mode; }
long k_stat_(const char *path, struct k_stat *st) {
  Fault *f = ev("stat", path); if (ERRF(f)) return evret(-f->arg);
  Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, path, &par, &l, &ln, &err);
  if (!n) return evret(-err); fillst(n, st); return evret(0);
}
long k_fstat_(int fd, struct k_stat *st) { Desc *d = gd(fd); Fault *f = ev("fstat", d ? d->path : "?"); if (!d) return evret(-EBADF); if (ERRF(f)) return evret(-f->arg); fillst(d->ino, st); return evret(0); }
long k_access(const char *path, int mode) {
  Fault *f = ev("stat", path); if (ERRF(f)) return evret(-f->arg);
  Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, path, &par, &l, &ln, &err);
  if (!n) return evret(-err); if ((mode & 1) && n->kind == N_FILE && !(n->mode & 0111)) return evret(-EACCES); return evret(0);
}
static long rm(const char *path, int dir) {
  Fault *f = ev(dir ? "rmdir" : "unlink", path); if (ERRF(f)) return evret(-f->arg);
  Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, path, &par, &l, &ln, &err);
  if (!n) return evret(-err);
  if (!par || par->mount || n->mount) return evret(-EACCES);
  if (!dir && n->kind == N_DIR) return evret(-EISDIR);
  if (dir && n->kind != N_DIR) return evret(-ENOTDIR);
  if (dir) for (int i = 0; i < n->tabn; i++) for (Ent *e = n->tab[i]; e; e = e->next) if (e->ino) return evret(-ENOTEMPTY);
  touched("unlink", path);
  (*slot(par, l, ln))->ino = NULL; n->nlink--; iput(n);
  return evret(0);
}
long k_unlink(const char *p) { return rm(p, 0); }
long k_rmdir(const char *p) { return rm(p, 1); }
static long ren(const char *a, const char *b, int keep) {
  Fault *f = ev("rename", b); if (ERRF(f)) return evret(-f->arg);
  Inode *pa, *pb; const char *la, *lb; size_t na, nb; int err, err2;
  Inode *n = walk(cur->cwd, a, &pa, &la, &na, &err); if (!n) return evret(-err);
  Inode *o = walk(cur->cwd, b, &pb, &lb, &nb, &err2);
  if (!pb) return evret(-(o ? EBUSY : err2)); if (pa->mount || pb->mount) return evret(-EACCES);
  if (o == n) return evret(0);
  if (o && keep) return evret(-EEXIST);
  if (o && o->kind == N_DIR) return evret(-EISDIR);
  if (!keep) touched("unlink", a); touched(o ? "trunc" : "create", b);
  if (!keep) (*slot(pa, la, na))->ino = NULL; else n->nlink++;
  if (o) { o->nlink--; }
  link_(pb, lb, nb, n); if (o) iput(o);
  return evret(0);
}
long k_rename(const char *a, const char *b) { return ren(a, b, 0); }
long k_link(const char *a, const char *b) { return ren(a, b, 1); }
long k_mkdir(const char *p, int mode) {
  Fault *f = ev("mkdir", p); if (ERRF(f)) return evret(-f->arg); (void)mode;
  Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, p, &par, &l, &ln, &err);
  if (n) return evret(-EEXIST); if (!par) return evret(-err); if (par->mount) return evret(-EACCES);
  touched("create", p); n = inew(N_DIR, 0); link_(par, l, ln, n); return evret(0);
}
long k_ftruncate(int fd, long len) { Desc *d = gd(fd); Fault *f = ev("write", d ? d->path : "?"); if (!d) return evret(-EBADF); if (ERRF(f)) return evret(-f->arg); Inode *i = d->ino; if ((size_t)len > i->cap || !i->data) { i->cap = len + 64; i->data = realloc(i->data, i->cap); } if ((size_t)len > i->size) memset(i->data + i->size, 0, len - i->size); i->size = len; i->mt = now; i->mtns = now_ns; return evret(0); }
long k_dup(int fd) { Desc *d = gd(fd); if (!d) return -EBADF; return newfd(d, 0); }
long k_dup2(int a, int b) { Desc *d = gd(a); if (!d || b < 0 || b > 63) return -EBADF; if (a == b) return b; if (cur->fd[b]) dput(cur->fd[b]); cur->fd[b] = d; d->refs++; return b; }
long k_fsync(int fd) { Desc *d = gd(fd); Fault *f = ev("write", d ? d->path : "?"); if (!d) return evret(-EBADF); if (ERRF(f)) return evret(-f->arg); return evret(0); }
long k_readdir(const char *path, int idx, char *name) {
  Fault *f = ev("readdir", path); if (ERRF(f)) return evret(-f->arg);
  Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, path, &par, &l, &ln, &err);
  if (!n) return evret(-err); if (n->kind != N_DIR) return evret(-ENOTDIR);
  int k = 0; for (int i = 0; i < n->tabn; i++) for (Ent *e = n->tab[i]; e; e = e->next) if (e->ino && k++ == idx) { strcpy(name, e->name); return evret(0); }
  return evret(-ENOENT);
}
long k_getpid(void) { return cur->pid; }
long k_getppid(void) { return cur->ppid; }
long k_time(long *ns) { Fault *f = ev("time", NULL); (void)f; *ns = now_ns; char b[64]; snprintf(b, sizeof b, "%ld", now); if (trace) snprintf(evpath, sizeof evpath, "%s", b); evret(0); return now; }
long k_maxrss(void) {
  Fault *f = ev("getrusage", NULL); (void)f;
  int r = cur->rootidx; long c = rss_calls[r]++; evret(0);
  if (G.rss_mode == 0) return 2000; if (G.rss_mode == 1) return 5000000;
  if (G.rss_mode == 2) return c < G.rss_k ? 2000 : 5000000;
  if (G.rss_mode == 3) { uint64_t x = (G.seed + 1) * 0x9E3779B97F4A7C15ull + c * 0xD1B54A32D192ED03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x & 1 ? 5000000 : 2000; }
  return (cur->brk - region(r)) / 1024;
}
long k_getcwd(char *b, size_t n) { if (strlen(cur->cwd) >= n) return -ERANGE; strcpy(b, cur->cwd); return 0; }
long k_chdir(const char *p) { Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, p, &par, &l, &ln, &err); if (!n) return -err; if (n->kind != N_DIR) return -ENOTDIR; char t[256]; if (*p == '/') snprintf(t, 256, "%s", p); else snprintf(t, 256, "%s/%s", cur->cwd, p); strcpy(cur->cwd, t); return 0; }
long k_isatty(int fd) { (void)fd; return 0; }
const char *k_getenv(const char *n) { return !strcmp(n, "PATH") ? "/usr/bin" : NULL; }
static uint64_t xs(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
unsigned k_random(void) { return xs(&rootrng[cur->rootidx]) >> 33; }
unsigned k_tmprandom(void) { unsigned r = xs(&tmprng[cur->rootidx]) >> 33; return r % (G.tmpspace < 1 ? 1 : G.tmpspace); }
char *k_sbrk(size_t n) { if (cur->brk + n > region(cur->rootidx) + G.heapmax) return NULL; char *p = cur->brk; cur->brk += n; return p; }
int k_alloc_fault(void) {
  cur->nalloc++;
  for (int i = 0; i < nm; i++) { MF *m = &M[i]; if ((m->from ? cur->nalloc >= m->idx : cur->nalloc == m->idx) && !strcmp(m->lid, cur->lid)) { m->fired++; return 1; } }
  return 0;
}
void k_guard(char *p, size_t n) { int r = cur->rootidx; if (guardoff[r] || nguard[r] > 20000) return; mprotect(p, n, PROT_NONE); guarded[r] = 1; nguard[r]++; }
static void unguard(int r) { if (guarded[r]) { mprotect(region(r), G.heapmax, PROT_READ | PROT_WRITE); guarded[r] = 0; nguard[r] = 0; } }
void *k_scratch(size_t n) { void *p = malloc(n); for (int i = 0; i < 8; i++) if (!cur->scr[i]) { cur->scr[i] = p; break; } return p; }
void k_scratch_free(void *p) { for (int i = 0; i < 8; i++) if (cur->scr[i] == p) cur->scr[i] = NULL; free(p); }

// ------------------------------------------------------------------ process images
static size_t datasz(void) { return __stop_simdata - __start_simdata; }
static size_t bsssz(void) { return __stop_simbss - __start_simbss; }
static void save(Proc *p) {
  int r = p->rootidx; size_t hn = p->brk - region(r), sn = stktop(r) - (char *)p->sp; size_t need = datasz() + bsssz() + hn + sn;
  if (p->imgcap < need) { free(p->img); p->img = malloc(p->imgcap = need + need / 4); }
  char *o = p->img; memcpy(o, __start_simdata, datasz()); o += datasz(); memcpy(o, __start_simbss, bsssz()); o += bsssz();
  memcpy(o, region(r), hn); o += hn; memcpy(o, p->sp, sn); p->hasimg = 1;
}
// Split images: data section is global, heap+stack per region.
static void save_data(Proc *p) { size_t need = datasz() + bsssz(); if (!p->img) { p->imgcap = need + (1 << 16); p->img = malloc(p->imgcap); } memcpy(p->img, __start_simdata, datasz()); memcpy((char *)p->img + datasz(), __start_simbss, bsssz()); }
static void load_data(Proc *p) { memcpy(__start_simdata, p->img, datasz()); memcpy(__start_simbss, (char *)p->img + datasz(), bsssz()); }
static void save_reg(Proc *p) {
  int r = p->rootidx; size_t dn = datasz() + bsssz(), hn = p->brk - region(r), sn = stktop(r) - (char *)p->sp;
  if (p->imgcap < dn + hn + sn) { p->imgcap = (dn + hn + sn) * 5 / 4; p->img = realloc(p->img, p->imgcap); }
  memcpy((char *)p->img + dn, region(r), hn); memcpy((char *)p->img + dn + hn, p->sp, sn); p->hasimg = 1;
}
static void load_reg(Proc *p) {
  int r = p->rootidx; size_t dn = datasz() + bsssz(), hn = p->brk - region(r), sn = stktop(r) - (char *)p->sp;
  memcpy(region(r), (char *)p->img + dn, hn); memcpy(p->sp, (char *)p->img + dn + hn, sn);
}
static char *pristine;
static Proc *newproc(Proc *par, const char *lid) {
  if (np >= MAXP) { fprintf(stderr, "too many processes\n"); exit(3); }
  Proc *p = &P[np]; void *img = p->img; size_t cap = p->imgcap; memset(p, 0, sizeof *p); p->img = img; p->imgcap = cap;
  snprintf(p->lid, sizeof p->lid, "%s", lid); p->pid = G.pidbase + np * G.pidstep; np++;
  if (par) { p->ppid = par->pid; p->rootidx = par->rootidx; strcpy(p->cwd, par->cwd); }
  return p;
}
static Proc *bypid(int pid) { for (int i = np - 1; i >= 0; i--) if (P[i].pid == pid) return &P[i]; return NULL; }
static void proc_end(Proc *p, int status) {
  p->status = status; p->state = P_ZOMBIE; p->exitstep = step;
  for (int i = 0; i < 64; i++) if (p->fd[i]) { dput(p->fd[i]); p->fd[i] = NULL; }
  for (int i = 0; i < 8; i++) if (p->scr[i]) { free(p->scr[i]); p->scr[i] = NULL; }
  if (resident[p->rootidx] == p) resident[p->rootidx] = NULL;
  if (dataRes == p) dataRes = NULL;
  for (int i = 0; i < np; i++) if (P[i].ppid == p->pid && !P[i].inherited) { if (P[i].state == P_RUN || P[i].state == P_WAIT) { P[i].orphan = 1; P[i].ppid = 1; } }
  Proc *par = p->ppid > 1 ? bypid(p->ppid) : NULL;
  if (par && par->state == P_WAIT) par->state = P_RUN;
}
void k_exit(int st) { ev("exit", NULL); evret(st & 255); die_now((st & 255) << 8); __builtin_unreachable(); }
long k_kill(int pid, int sig) {
  ev("kill", NULL);
  if (pid == cur->pid) { evret(0); die_now(sig); }
  Proc *q = pid > 0 ? bypid(pid) : NULL; if (!q || q->state == P_FREE || q->reaped) return evret(-ESRCH);
  if (sig && q->state != P_ZOMBIE) { touched("signal", q->lid); proc_end(q, sig); }
  return evret(0);
}
static Proc *forked; 
static long fork_common(const char *name) {
  Fault *f = ev(name, NULL); if (ERRF(f)) return evret(-f->arg);
  Proc *par = cur; char lid[96]; snprintf(lid, sizeof lid, "%s.%d", par->lid, par->nfork++);
  Proc *c = newproc(par, lid); c->brk = par->brk;
  for (int i = 0; i < 64; i++) if (par->fd[i]) { c->fd[i] = par->fd[i]; c->fd[i]->refs++; }
  c->state = P_RUN;
  snprintf(evpath, sizeof evpath, "%s", c->lid); evret(0);
  forked = c; return c->pid;
}
long k_fork(void) {
  long r = fork_common("fork"); if (r < 0) return r;
  Proc *par = cur; Proc *c = forked; forked = NULL;
  int reg = par->rootidx; if (guarded[reg]) unguard(reg); guardoff[reg] = 1;
  // Capture the parent's state at this point as the child's image: the child resumes here with ret 0.
  par->ret = r; c->ret = 0; target = NULL;
  par->waitpid_ = -12345; // tells the host loop to clone
  forked = c;
  to_host();
  return cur->ret;
}
static void run_stub(const char *file, char **argv) __attribute__((noreturn));
static int helper_kind(const char *path) { Inode *par; const char *l; size_t ln; int err; Inode *n = walk(cur->cwd, path, &par, &l, &ln, &err); return !n ? -err : n->kind != N_FILE || !(n->mode & 0111) ? -EACCES : n->stubexe; }
static int resolve_exec(const char *file, int search, char *out) {
  int k;
  if (search && !strchr(file, '/')) { snprintf(out, 512, "/usr/bin/%s", file); k = helper_kind(out); }
  else { snprintf(out, 512, "%s", file); k = helper_kind(out); }
  return k == 0 ? -ENOEXEC : k;
}
static Fault *execfault;
long k_exec(const char *file, char **argv, int search) {
  Fault *f = ev("exec", file); if (ERRF(f)) return evret(-f->arg);
  char path[512]; int k = resolve_exec(file, search, path); if (k < 0) return evret(k);
  evret(0); execfault = f; run_stub(path, argv);
}
static char **copyargv(char **a) { int n = 0; while (a[n]) n++; char **r = malloc((n + 1) * sizeof *r); for (int i = 0; i < n; i++) r[i] = strdup(a[i]); r[n] = NULL; return r; }
static void start_tramp(void);
static void spawn_main(void);
static struct { char path[512]; char **argv; Fault *f; Proc *p; } SP[MAXP];
long k_spawn(const char *file, char **argv, int search) {
  long r = fork_common("fork"); if (r < 0) return r;
  Proc *c = forked; forked = NULL; char path[512]; int k = resolve_exec(file, search, path);
  if (k < 0) { c->state = P_ZOMBIE; c->reaped = 1; return k; }
  int i = c - P; strcpy(SP[i].path, path); SP[i].argv = copyargv(argv); SP[i].f = NULL; SP[i].p = c; c->stub = 1;
  // needs its own stack: borrow a region-independent host stack
  char *st = malloc(1 << 18); void **sp = (void **)((uintptr_t)(st + (1 << 18)) & -16ul); *--sp = 0; *--sp = spawn_main; sp -= 6; memset(sp, 0, 48); c->sp = sp; c->hasimg = 0;
  return r;
}
static void spawn_main(void) { in_proc = 1; int i = cur - P; Fault *f = ev("exec", SP[i].path); if (ERRF(f)) { evret(-f->arg); k_exit(127); } evret(0); execfault = f; run_stub(SP[i].path, SP[i].argv); }
long k_wait(int pid, int *status, int opt) {
  ev("wait", NULL);
  for (;;) {
    int any = 0;
    for (int i = 0; i < np; i++) {
      Proc *q = &P[i]; if (q->ppid != cur->pid || q->reaped || q->state == P_FREE) continue;
      if (pid > 0 && q->pid != pid) continue;
      any = 1;
      if (q->state == P_ZOMBIE && G.nochld) { q->reaped = 1; any = 0; i = -1; continue; } // SIGCHLD ignored: the status is discarded
      if (q->state == P_ZOMBIE) { q->reaped = 1; if (status) *status = q->status; snprintf(evpath, sizeof evpath, "%s", q->lid); evname = "wait"; mix(&q->status, 4); evret(0); return q->pid; }
    }
    if (!any) { evname = "wait"; evpath[0] = 0; return evret(-ECHILD); }
    if (opt & 1) return 0;
    cur->state = P_WAIT; target = NULL; to_host();
  }
}

// ------------------------------------------------------------------ stub assembler and linker
static char *slurp(const char *p, size_t *n) {
  long fd = k_open(p, O_RDONLY, 0); if (fd < 0) return NULL;
  size_t cap = 1 << 16, len = 0; char *b = malloc(cap);
  for (;;) { if (cap - len < 4096) b = realloc(b, cap *= 2); long r = k_read(fd, b + len, cap - len); if (r < 0) { k_close(fd); free(b); return NULL; } if (!r) break; len += r; }
  k_close(fd); *n = len; return b;
}
static int spit(const char *p, const char *b, size_t n) {
  long fd = k_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) return -1;
  size_t off = 0; while (off < n) { size_t m = n - off > 65536 ? 65536 : n - off; long r = k_write(fd, b + off, m); if (r < 0) { k_close(fd); k_unlink(p); return -1; } off += r; }
  return k_close(fd) < 0 ? (k_unlink(p), -1) : 0;
}
static void die_msg(const char *who, const char *m, const char *a) { char t[600]; int n = snprintf(t, sizeof t, "%s: %s: %s\n", who, m, a); k_write(2, t, n); k_exit(1); }
static void run_stub(const char *path, char **argv) {
  Fault *f = execfault; execfault = NULL; argv = copyargv(argv);
  const char *b = strrchr(path, '/') ? strrchr(path, '/') + 1 : path; snprintf(cur->execname, sizeof cur->execname, "%s", b);
  if (f && !strcmp(f->kind, "hexit")) k_exit(f->arg);
  if (f && !strcmp(f->kind, "hsig")) k_die(f->arg);
  int isld = helper_kind(path) == 2;
  char *out = "a.out"; char *buf = NULL; size_t n = 0, c = 0; int nin = 0;
  app(&buf, &n, &c, isld ? "LINKED\n" : "OBJECT\n");
  for (int i = 1; argv[i]; i++) {
    if (!strcmp(argv[i], "-o")) { if (argv[i + 1]) out = argv[++i]; continue; }
    size_t m; char *d;
    if (argv[i][0] == '-' && argv[i][1]) { app(&buf, &n, &c, "arg %s\n", argv[i]); if (isld && argv[i][1] == 'm' && !argv[i][2] && argv[i + 1]) app(&buf, &n, &c, "arg %s\n", argv[++i]);
      else if (isld && (!strcmp(argv[i], "-dynamic-linker") || !strcmp(argv[i], "-z") || !strcmp(argv[i], "-rpath") || !strcmp(argv[i], "-soname") || !strcmp(argv[i], "-l") || !strcmp(argv[i], "-L") || !strcmp(argv[i], "-u") || !strcmp(argv[i], "-e")) && argv[i + 1]) app(&buf, &n, &c, "arg %s\n", argv[++i]); continue; }
    d = slurp(argv[i], &m); if (!d) die_msg(b, "cannot open", argv[i]);
    nin++;
    if (isld && strncmp(argv[i], "/usr/lib", 8) && !(m > 7 && !memcmp(d, "OBJECT\n", 7)) && !(m > 4 && !memcmp(d, "LIB\n", 4))) die_msg(b, "file format not recognized", argv[i]);
    app(&buf, &n, &c, "input %zu\n", m); if (n + m + 2 > c) { c = (n + m + 2) * 2; buf = realloc(buf, c); } memcpy(buf + n, d, m); n += m; app(&buf, &n, &c, "\n"); free(d);
  }
  if (!nin) die_msg(b, "no input", "files");
  if (f && !strcmp(f->kind, "hpartial")) { spit(out, buf, n / 2); k_die(f->arg); }
  if (f && !strcmp(f->kind, "hunlink")) { k_unlink(out); k_exit(f->arg ? f->arg : 1); }
  if (spit(out, buf, n)) die_msg(b, "cannot write", out);
  free(buf);
  if (f && !strcmp(f->kind, "hdone")) { if (f->arg > 255) k_die(f->arg - 256); k_exit(f->arg); }
  k_exit(0);
}

// ------------------------------------------------------------------ host side
static char diestack[65536] __attribute__((aligned(16)));
static int diesig;
static void die_entry(void) { proc_end(cur, diesig); in_proc = 0; void *junk; ctx_switch(&junk, host_sp); abort(); }
static void on_sig(int s, siginfo_t *si_, void *uc_) {
  ucontext_t *uc = uc_; (void)si_;
  if (!in_proc) { if (s == SIGVTALRM) return; signal(s, SIG_DFL); return; }
  if (s == SIGVTALRM) { hung = 1; hangwhy = "cpu"; s = 9; }
  diesig = s;
  uc->uc_mcontext.gregs[REG_RIP] = (long)die_entry; uc->uc_mcontext.gregs[REG_RSP] = (long)(diestack + sizeof diestack - 64 - 8);
}
static int sargc[REGS]; static char **sargv[REGS];
static void start_tramp(void) { in_proc = 1; int r = cur->rootidx; u_exit(sut_main(sargc[r], sargv[r], sargv[r] + sargc[r])); }
static void begin_root(Proc *p, char **args, int argc) {
  int r = p->rootidx; char *top = stktop(r);
  unguard(r); guardoff[r] = 0;
  madvise(region(r), G.heapmax, MADV_DONTNEED); madvise(top - STKSZ, STKSZ, MADV_DONTNEED);
  size_t fillz = 96 << 10;
  if (K.stackfill >= 0) { if (K.stackfill < 256) memset(top - fillz, K.stackfill, fillz); else { uint64_t x = G.seed * 77 + 12345; for (size_t i = 0; i < fillz; i += 8) { uint64_t v = xs(&x); memcpy(top - fillz + i, &v, 8); } } }
  char *sp = top - 64 - K.stackshift; char **av = calloc(argc + 2, sizeof *av);
  for (int i = 0; i < argc; i++) { size_t n = strlen(args[i]) + 1; sp -= n; memcpy(sp, args[i], n); av[i] = sp; }
  sp = (char *)((uintptr_t)sp & -16ul); sp -= (argc + 2) * sizeof(char *); sp = (char *)((uintptr_t)sp & -16ul); memcpy(sp, av, (argc + 2) * sizeof(char *)); free(av);
  sargc[r] = argc; sargv[r] = (char **)sp;
  void **s = (void **)sp; *--s = 0; *--s = start_tramp; s -= 6; memset(s, 0, 48);
  p->sp = s; p->brk = region(r) + ((G.seed * 4096 * 13) & 0xff000 & (K.gap ? -1 : 0));
  if (!p->img) { p->imgcap = datasz() + bsssz() + (1 << 16); p->img = malloc(p->imgcap); }
  memcpy(p->img, pristine, datasz()); memset((char *)p->img + datasz(), 0, bsssz());
  resident[r] = p; p->hasimg = 0; p->state = P_RUN;
}
static void run_all(void) {
  struct itimerval tv = {{1, 0}, {10, 0}}; setitimer(ITIMER_VIRTUAL, &tv, NULL);
  Proc *last = NULL;
  for (;;) {
    // inherited children whose time has come
    for (int i = 0; i < np; i++) if (P[i].inherited && P[i].state == P_RUN && P[i].due <= step) proc_end(&P[i], P[i].status);
    Proc *p = NULL;
    if (target && target->state == P_RUN && !target->inherited) p = target;
    target = NULL;
    if (!p && last && last->state == P_RUN) p = last;
    if (!p) for (int i = 0; i < np; i++) if (P[i].state == P_RUN && !P[i].inherited) { p = &P[i]; break; }
    if (!p) {
      Proc *w = NULL; for (int i = 0; i < np; i++) if (P[i].inherited && P[i].state == P_RUN && (!w || P[i].due < w->due)) w = &P[i];
      int waiting = 0; for (int i = 0; i < np; i++) if (P[i].state == P_WAIT) waiting = 1;
      if (!waiting) break;
      if (w) { if (w->due >= (1l << 40)) { deadlock = 1; for (int i = 0; i < np; i++) if (P[i].state == P_WAIT) { cur = &P[i]; proc_end(&P[i], 9); } break; } step = w->due > step ? w->due : step; proc_end(w, w->status); continue; }
      deadlock = 1; for (int i = 0; i < np; i++) if (P[i].state == P_WAIT) { cur = &P[i]; proc_end(&P[i], 9); }
      break;
    }
    if (hung) { for (int i = 0; i < np; i++) if ((P[i].state == P_RUN || P[i].state == P_WAIT) && !P[i].inherited) proc_end(&P[i], 9); break; }
    last = p;
    if (!p->stub) {
      int r = p->rootidx;
      if (resident[r] != p) { if (resident[r]) save_reg(resident[r]); if (p->hasimg) load_reg(p); resident[r] = p; }
      if (dataRes != p) { if (dataRes) save_data(dataRes); load_data(p); dataRes = p; }
    }
    cur = p; ctx_switch(&host_sp, p->sp);
    if (forked) { // clone the (resident) parent image into the child
      Proc *c = forked, *par = cur; forked = NULL; par->waitpid_ = 0;
      c->sp = par->sp; Proc tmp = *c; (void)tmp;
      save_data(c); save_reg(c); last = par;
    }
  }
  memset(&tv, 0, sizeof tv); setitimer(ITIMER_VIRTUAL, &tv, NULL);
}

// ------------------------------------------------------------------ server
static void fs_free(void) { while (all.allnext) { Inode *n = all.allnext; n->nlink = 0; ifree(n); } root = NULL; }
static void put_exe(const char *p, int k) { Inode *n = mkpath(p, N_FILE); n->mode = 0755; n->stubexe = k; setdata(n, "exe", 3); }
static void reset(void) {
  fs_free(); now = 1700000000; now_ns = 0; next_ino = 0;
  root = inew(N_DIR, 0);
  for (int i = 0; i < nmounts; i++) { char t[256]; strcpy(t, mount_at[i]); char *l = strrchr(t, '/'); *l = 0; link_(mkpath(t, N_DIR), l + 1, strlen(l + 1), mounts[i]); }
  mkpath("/tmp", N_DIR); mkpath("/w", N_DIR); mkpath("/cc", N_DIR);
  mkpath("/dev/null", N_CHR)->dev = 1; mkpath("/dev/full", N_CHR)->dev = 2;
  put_exe("/cc/slimcc", 3); put_exe("/usr/bin/as", 1); put_exe("/usr/bin/ld", 2); put_exe("/usr/bin/ld.gold", 2); put_exe("/usr/bin/ld.lld", 2); put_exe("/usr/bin/ld.mold", 2); put_exe("/usr/bin/my-as", 1); put_exe("/opt/t/ld", 2);
  static const char *lib[] = {"crti.o", "crt1.o", "Scrt1.o", "rcrt1.o", "crtn.o", 0}; static const char *gl[] = {"crtbegin.o", "crtbeginS.o", "crtbeginT.o", "crtend.o", "crtendS.o", 0};
  char t[256]; for (int i = 0; lib[i]; i++) { snprintf(t, 256, "/usr/lib/x86_64-linux-gnu/%s", lib[i]); setdata(mkpath(t, N_FILE), lib[i], strlen(lib[i])); }
  for (int i = 0; gl[i]; i++) { snprintf(t, 256, "/usr/lib/gcc/x86_64-linux-gnu/13/%s", gl[i]); setdata(mkpath(t, N_FILE), gl[i], strlen(gl[i])); }
  K = (struct k_knobs){4096, -1, 0xdd, 1, 0, 0, 0, -1, 0, 0};
  G.nochld = G.nofd = 0; G.tick = 1000; G.pidbase = 100; G.pidstep = 1; G.tmpspace = 1 << 30; G.seed = 1; G.rss_mode = 4; G.rss_k = 0; G.quota = -1; G.heapmax = 1ul << 30; G.maxsteps = 4000000;
}
static void clear_run(void) {
  for (int i = 0; i < MAXP; i++) { P[i].state = P_FREE; if (P[i].imgcap > (8 << 20)) { free(P[i].img); P[i].img = NULL; P[i].imgcap = 0; } }
  np = 0; nf = nm = ns = si = 0; step = 0; nroots = 0; for (int i = 0; i < REGS; i++) { resident[i] = NULL; roots[i] = NULL; outs[i] = errs[i] = NULL; rss_calls[i] = 0; }
  dataRes = NULL; cur = NULL; target = NULL; forked = NULL; hung = deadlock = 0; loghash = 0xcbf29ce484222325ull; tn = 0; ton = 0; nswitch = 0; nseg = 0; seg[0] = (Seg){now, now_ns, now, now_ns};
}
static size_t dec(char *s) { char *o = s, *b = s; for (; *s; s++) if (*s == '%' && s[1] && s[2]) { int h = s[1] <= '9' ? s[1] - '0' : (s[1] & 7) + 9, l = s[2] <= '9' ? s[2] - '0' : (s[2] & 7) + 9; *o++ = h * 16 + l; s += 2; } else *o++ = *s; *o = 0; return o - b; }
static uint64_t fnv(const char *s, size_t n) { uint64_t h = 0xcbf29ce484222325ull; while (n--) { h ^= (unsigned char)*s++; h *= 0x100000001b3ull; } return h; }
static void dumpfs(FILE *o, Inode *d, char *path) {
  size_t l = strlen(path);
  for (int i = 0; i < d->tabn; i++) for (Ent *e = d->tab[i]; e; e = e->next) {
    Inode *n = e->ino; if (!n || n->mount) continue;
    snprintf(path + l, 4000 - l, "/%s", e->name);
    if (!strncmp(path, "/usr", 4) || !strncmp(path, "/dev", 4) || !strncmp(path, "/opt", 4) || !strncmp(path, "/cc", 3)) { if (n->kind != N_DIR) { path[l] = 0; continue; } }
    char *q = encs(path, strlen(path));
    if (n->kind == N_DIR) { if (strcmp(path, "/usr") && strcmp(path, "/dev") && strcmp(path, "/opt")) { if (strcmp(path, "/cc")) fprintf(o, "dir %s\n", q); dumpfs(o, n, path); } }
    else fprintf(o, "fs %s %zu %016lx %ld %ld\n", q, n->size, fnv(n->data, n->size), n->mt, n->mtns);
    free(q); path[l] = 0;
  }
}
static struct { const char *n; long *v; } KN[] = {
  {"bufsiz", &K.bufsiz}, {"fill", &K.fill}, {"poison", &K.poison}, {"reuse", &K.reuse}, {"gap", &K.gap}, {"move", &K.move}, {"guard", &K.guard}, {"stackfill", &K.stackfill}, {"stackshift", &K.stackshift}, {"readmax", &K.readmax},
  {"tick", &G.tick}, {"pidbase", &G.pidbase}, {"pidstep", &G.pidstep}, {"tmpspace", &G.tmpspace}, {"seed", &G.seed}, {"rss_mode", &G.rss_mode}, {"rss_k", &G.rss_k}, {"quota", &G.quota}, {"heapmax", &G.heapmax}, {"maxsteps", &G.maxsteps}, {"nochld", &G.nochld}, {"nofd", &G.nofd}, {"now", &now}, {"now_ns", &now_ns}, {0, 0}};

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  if (argc < 2) { fprintf(stderr, "usage: simcc REPO\n"); return 3; }
  setvbuf(stdin, NULL, _IOFBF, 1 << 20); setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  char *inc; asprintf(&inc, "%s/include", argv[1]);
  const char *at[] = {"/cc/include", "/usr/include", "/usr/local/include"}; const char *ho[] = {inc, "/usr/include", "/usr/local/include"};
  for (int i = 0; i < 3; i++) { Inode *m = inew(N_DIR, 1); m->host = strdup(ho[i]); mounts[nmounts] = m; mount_at[nmounts++] = at[i]; }
  for (int r = 0; r < REGS; r++) {
    if (mmap(region(r), 1ul << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); return 3; }
    if (mmap(stktop(r) - STKSZ, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); return 3; }
  }
  pristine = malloc(datasz()); memcpy(pristine, __start_simdata, datasz());
  stack_t ss = {.ss_sp = malloc(65536), .ss_size = 65536}; sigaltstack(&ss, NULL);
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGVTALRM};
  for (int i = 0; i < 6; i++) { struct sigaction sa = {0}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(sigs[i], &sa, NULL); }
  reset(); clear_run();
  char *line = NULL; size_t lc = 0; ssize_t n;
  while ((n = getline(&line, &lc, stdin)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0;
    char *a[256]; int na = 0; for (char *t = strtok(line, " "); t && na < 255; t = strtok(NULL, " ")) a[na++] = t;
    if (!na) continue; a[na] = NULL;
    size_t len[256]; for (int i = 0; i < na; i++) len[i] = dec(a[i]);
    char *c = a[0];
    if (!strcmp(c, "quit")) break;
    else if (!strcmp(c, "reset")) { clear_run(); reset(); clear_run(); }
    else if (!strcmp(c, "knob")) { int ok = 0; for (int i = 0; KN[i].n; i++) if (!strcmp(KN[i].n, a[1])) { *KN[i].v = atol(a[2]); ok = 1; } if (!ok) { fprintf(stderr, "bad knob %s\n", a[1]); return 3; } }
    else if (!strcmp(c, "put")) { setdata(mkpath(a[1], N_FILE), na > 2 ? a[2] : "", na > 2 ? len[2] : 0); }
    else if (!strcmp(c, "hput")) { FILE *f = fopen(a[2], "rb"); if (!f) { fprintf(stderr, "no host file %s\n", a[2]); return 3; } fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f); char *b = malloc(sz + 1); sz = fread(b, 1, sz, f); fclose(f); setdata(mkpath(a[1], N_FILE), b, sz); free(b); }
    else if (!strcmp(c, "mkdir")) mkpath(a[1], N_DIR);
    else if (!strcmp(c, "mode")) mkpath(a[1], N_FILE)->mode = strtol(a[2], 0, 8);
    else if (!strcmp(c, "rm")) { Inode *par; const char *l; size_t ln; int err; Inode *x = walk("/", a[1], &par, &l, &ln, &err); if (x && par) { (*slot(par, l, ln))->ino = NULL; x->nlink--; if (x->kind != N_DIR) iput(x); } }
    else if (!strcmp(c, "mtime")) { Inode *par; const char *l; size_t ln; int err; Inode *x = walk("/", a[1], &par, &l, &ln, &err); if (x) { x->mt = atol(a[2]); x->mtns = na > 3 ? atol(a[3]) : 0; } }
    else if (!strcmp(c, "get")) { Inode *par; const char *l; size_t ln; int err; Inode *x = walk("/", a[1], &par, &l, &ln, &err); if (!x || x->kind != N_FILE) printf("none\n"); else { iload(x); char *e = encs(x->data, x->size); printf("data %s\n", e); free(e); } fflush(stdout); }
    else if (!strcmp(c, "spawn")) { // spawn lid cwd stdin(|-) args...
      int r = nroots++; if (r >= REGS) { fprintf(stderr, "too many roots\n"); return 3; }
      Proc *p = newproc(NULL, a[1]); p->ppid = 1; p->rootidx = r; strcpy(p->cwd, a[2]);
      rootrng[r] = (G.seed * 0x9E3779B97F4A7C15ull) ^ ((r + 1) * 0xD1B54A32D192ED03ull) ^ 0x1234567; tmprng[r] = rootrng[r] * 31 + 7; if (!rootrng[r]) rootrng[r] = 1; if (!tmprng[r]) tmprng[r] = 1; for (int k = 0; k < 5; k++) { xs(&rootrng[r]); xs(&tmprng[r]); }
      outs[r] = inew(N_PIPE, 0); errs[r] = inew(N_PIPE, 0);
      Inode *in = inew(N_PIPE, 0); if (strcmp(a[3], "-")) setdata(in, a[3] + 1, len[3] - 1);
      Inode *io[3] = {in, outs[r], errs[r]};
      for (int i = 0; i < 3; i++) if (!(G.nofd >> i & 1)) { Desc *d = calloc(1, sizeof *d); d->ino = io[i]; d->flags = i ? O_WRONLY : O_RDONLY; d->refs = 1; d->std = i; snprintf(d->path, sizeof d->path, "<std%d>", i); io[i]->opens++; p->fd[i] = d; }
      outs[r]->opens++; errs[r]->opens++;
      begin_root(p, a + 4, na - 4); roots[r] = p;
    }
    else if (!strcmp(c, "inherit")) { Proc *par = NULL; for (int i = 0; i < np; i++) if (!strcmp(P[i].lid, a[1])) par = &P[i]; char lid[64]; snprintf(lid, 64, "%s.inh%d", a[1], np); Proc *p = newproc(par, lid); p->inherited = 1; p->state = P_RUN; p->status = atoi(a[2]); p->due = atol(a[3]); }
    else if (!strcmp(c, "fault")) { if (nf >= 512) { fprintf(stderr, "too many faults\n"); return 3; } Fault *f = &F[nf++]; memset(f, 0, sizeof *f); strcpy(f->lid, a[1]); f->idx = atol(a[2]); strcpy(f->kind, a[3]); f->arg = na > 4 ? atol(a[4]) : 0; f->arg2 = na > 5 ? atol(a[5]) : 0; if (na > 6) snprintf(f->name, sizeof f->name, "%s", a[6]); }
    else if (!strcmp(c, "mfail")) { MF *m = &M[nm++]; memset(m, 0, sizeof *m); strcpy(m->lid, a[1]); m->idx = atol(a[2]); m->from = !strcmp(a[3], "from"); }
    else if (!strcmp(c, "sched")) { if (ns >= 4096) { fprintf(stderr, "too many switches\n"); return 3; } Sw *s = &S[ns++]; s->step = atol(a[1]); strcpy(s->lid, a[2]); s->used = 0; }
    else if (!strcmp(c, "go")) {
      trace = na > 1 && strchr(a[1], 't'); int dump = na > 1 && strchr(a[1], 'd');
      long t0 = now, t0n = now_ns; seg[0] = (Seg){now, now_ns, now, now_ns};
      run_all();
      for (int i = 0; i < np; i++) printf("p %s %d %d %ld %ld %s %d %d %d %ld\n", P[i].lid, P[i].status, P[i].state == P_ZOMBIE, P[i].nsys, P[i].nalloc, *P[i].execname ? P[i].execname : "-", P[i].inherited, P[i].reaped, P[i].orphan, P[i].exitstep);
      for (int r = 0; r < nroots; r++) { char *e = encs(outs[r]->data ? outs[r]->data : "", outs[r]->size); printf("out %s %s\n", roots[r]->lid, e); free(e); e = encs(errs[r]->data ? errs[r]->data : "", errs[r]->size); printf("err %s %s\n", roots[r]->lid, e); free(e); outs[r]->opens--; errs[r]->opens--; outs[r]->nlink = errs[r]->nlink = 0; iput(outs[r]); iput(errs[r]); }
      for (int i = 0; i < nf; i++) if (F[i].fired) { char *e = encs(F[i].atpath, strlen(F[i].atpath)); printf("fired %s %ld %s %ld %ld %s %s\n", F[i].lid, F[i].idx, F[i].kind, F[i].arg, F[i].at, F[i].atname, *e ? e : "-"); free(e); }
      for (int i = 0; i < nm; i++) if (M[i].fired) printf("mfired %s %ld %d\n", M[i].lid, M[i].idx, M[i].fired);
      char path[4096] = ""; dumpfs(stdout, root, path);
      if (ton) fwrite(touch, 1, ton, stdout); if (trace && tn) fwrite(tb, 1, tn, stdout);
      for (int i = 0; i <= nseg; i++) printf("clk %ld %ld %ld %ld\n", seg[i].a, seg[i].an, seg[i].b, seg[i].bn);
      (void)dump; (void)t0; (void)t0n;
      printf("end %016lx %ld %ld %d %d %s\n", loghash, step, nswitch, hung, deadlock, hung ? hangwhy : "-"); fflush(stdout);
      if (hung) exit(4);
      clear_run();
    }
    else { fprintf(stderr, "bad command %s\n", c); return 3; }
  }
  return 0;
}
