// User-level C library of a simulated process. Everything here is process image: it is copied at fork and reset
// for every process. Only pure host functions (mem*, str*, vsnprintf) are used; all I/O goes through k_*.
#define _GNU_SOURCE
#include "kern.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <glob.h>
#include <fnmatch.h>
#include <limits.h>

static int u_errno;
int *u___errno_location(void) { return &u_errno; }
#undef errno
#define E(x) ({ long _r = (x); if (_r < 0) { u_errno = -_r; _r = -1; } _r; })

// ---------------------------------------------------------------- malloc
typedef struct Hdr { size_t size; unsigned magic; unsigned flags; struct Hdr *next; size_t cap; } Hdr; // 32 bytes
#define MAGIC 0x51acu
#define FREED 0x51adu
#define NCLS 64
static Hdr *freehead[NCLS], *freetail[NCLS];
static char *htop, *hend;
static uint64_t mrng;
static long nalloc, nfree;

void u_exit(int);
void u_abort(void) { k_die(6); }
static unsigned rnd(void) {
  if (!mrng) mrng = 0x9E3779B97F4A7C15ull ^ k_random();
  mrng ^= mrng << 13; mrng ^= mrng >> 7; mrng ^= mrng << 17;
  return mrng >> 32;
}
static int cls(size_t n) { // n is a multiple of 16
  size_t c = n / 16; // exact classes up to 32*16, then powers of two
  if (c < 32) return c;
  int k = 32; size_t s = 64;
  while (s < c && k < NCLS - 1) { s *= 2; k++; }
  return k;
}
static void fillmem(char *p, size_t n) {
  if (K.fill == -1) memset(p, 0, n);
  else if (K.fill < 256) memset(p, K.fill, n);
  else for (size_t i = 0; i < n; i += 8) { uint64_t v = ((uint64_t)rnd() << 32) | rnd(); memcpy(p + i, &v, n - i < 8 ? n - i : 8); }
}
static char *more(size_t n) {
  if (!htop || htop + n > hend) {
    size_t want = n + (256 << 10);
    char *p = k_sbrk(want);
    if (!p) return NULL;
    if (!htop || p != hend) htop = p;
    hend = p + want;
  }
  char *r = htop; htop += n;
  return r;
}
static void *alloc(size_t n) {
  nalloc++;
  if (k_alloc_fault() || n > (1ul << 40)) { u_errno = ENOMEM; return NULL; }
  size_t cap = (n + 15) & ~15ul;
  if (cap < 16) cap = 16;
  if (K.guard && n >= 2048) {
    // block ends at a page end, followed by an inaccessible page
    size_t span = ((n + 32 + 15) & ~15ul); size_t pages = (span + 4095) / 4096 * 4096;
    char *cur = htop ? htop : k_sbrk(0);
    size_t pad = (4096 - ((uintptr_t)cur & 4095)) & 4095;
    char *p = more(pad + pages + 4096);
    if (!p) { u_errno = ENOMEM; return NULL; }
    p += (4096 - ((uintptr_t)p & 4095)) & 4095;
    char *d = p + pages - ((n + 15) & ~15ul);
    Hdr *h = (Hdr *)(d - 32);
    h->size = n; h->cap = (n + 15) & ~15ul; h->magic = MAGIC; h->flags = 1 | (pages << 4); h->next = NULL;
    k_guard(p + pages, 4096);
    fillmem(d, n);
    return d;
  }
  int c = cls(cap);
  if (c >= 32) { size_t s = 64; for (int k = 32; k < c; k++) s *= 2; cap = s * 16; if (c == 32) cap = 64 * 16; }
  Hdr *h = NULL;
  if (K.reuse && freehead[c] && c < NCLS - 1) {
    h = freehead[c]; freehead[c] = h->next; if (!freehead[c]) freetail[c] = NULL;
  } else {
    if (c == NCLS - 1) cap = (n + 15) & ~15ul;
    size_t gap = K.gap ? (rnd() % (K.gap + 1)) & ~15ul : 0;
    char *p = more(gap + 32 + cap);
    if (!p) { u_errno = ENOMEM; return NULL; }
    h = (Hdr *)(p + gap);
    h->cap = cap;
  }
  h->size = n; h->magic = MAGIC; h->flags = 0; h->next = NULL;
  fillmem((char *)(h + 1), n);
  return h + 1;
}
void *u_malloc(size_t n) { return alloc(n); }
void u_free(void *p) {
  if (!p) return;
  nfree++;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != MAGIC) { k_write(2, "heap: invalid or double free\n", 29); k_die(6); }
  h->magic = FREED;
  if (K.poison >= 0) memset(p, K.poison, h->cap);
  if (h->flags & 1) { size_t pages = h->flags >> 4; char *e = (char *)p + h->cap; k_guard(e - pages, pages); return; }
  int c = cls(h->cap);
  h->next = NULL;
  if (K.reuse == 2) { if (freetail[c]) freetail[c]->next = h; else freehead[c] = h; freetail[c] = h; }
  else { h->next = freehead[c]; freehead[c] = h; if (!freetail[c]) freetail[c] = h; }
}
void *u_calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { u_errno = ENOMEM; return NULL; }
  void *p = alloc(n); if (p) memset(p, 0, n); return p;
}
void *u_realloc(void *p, size_t n) {
  if (!p) return alloc(n);
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != MAGIC) { k_write(2, "heap: invalid realloc\n", 22); k_die(6); }
  if (!K.move && n <= h->cap && !(h->flags & 1)) {
    if (k_alloc_fault()) { u_errno = ENOMEM; return NULL; }
    nalloc++; if (n > h->size) fillmem((char *)p + h->size, n - h->size); h->size = n; return p; }
  void *q = alloc(n);
  if (!q) return NULL;
  memcpy(q, p, h->size < n ? h->size : n);
  u_free(p);
  return q;
}
void *u_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { u_errno = ENOMEM; return NULL; } return u_realloc(p, n); }
void *u_aligned_alloc(size_t al, size_t n) { // never freed through here in practice: over-allocate, keep header valid only if al<=16
  if (al <= 16) return alloc(n);
  char *p = alloc(n + al + 32); if (!p) return NULL;
  char *d = (char *)(((uintptr_t)p + 32 + al - 1) & -al); Hdr *h = (Hdr *)d - 1;
  h->size = n; h->cap = n & ~15ul; h->magic = MAGIC; h->flags = 2; h->next = NULL; return d;
}
int u_posix_memalign(void **r, size_t al, size_t n) { void *p = u_aligned_alloc(al, n); if (!p) return ENOMEM; *r = p; return 0; }
size_t u_malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
char *u_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = u_malloc(n); if (p) memcpy(p, s, n); return p; }
char *u_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = u_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

// ---------------------------------------------------------------- fd calls
int u_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return E(k_open(p, fl, m)); }
int u_openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); (void)d; return E(k_open(p, fl, m)); }
int u_creat(const char *p, int m) { return E(k_open(p, O_WRONLY | O_CREAT | O_TRUNC, m)); }
ssize_t u_read(int fd, void *b, size_t n) { return E(k_read(fd, b, n)); }
ssize_t u_write(int fd, const void *b, size_t n) { return E(k_write(fd, b, n)); }
int u_close(int fd) { return E(k_close(fd)); }
off_t u_lseek(int fd, off_t o, int w) { return E(k_lseek(fd, o, w)); }
int u_fsync(int fd) { return E(k_fsync(fd)); }
int u_unlink(const char *p) { return E(k_unlink(p)); }
int u_rmdir(const char *p) { return E(k_rmdir(p)); }
int u_remove(const char *p) { long r = k_unlink(p); if (r == -EISDIR) r = k_rmdir(p); return E(r); }
int u_rename(const char *a, const char *b) { return E(k_rename(a, b)); }
int u_link(const char *a, const char *b) { return E(k_link(a, b)); }
int u_symlink(const char *a, const char *b) { (void)a; (void)b; u_errno = EPERM; return -1; }
ssize_t u_readlink(const char *a, char *b, size_t n) { (void)b; (void)n; struct k_stat st; long r = k_stat_(a, &st); if (r >= 0) r = -EINVAL; return E(r); }
int u_mkdir(const char *p, mode_t m) { return E(k_mkdir(p, m)); }
int u_ftruncate(int fd, off_t n) { return E(k_ftruncate(fd, n)); }
int u_truncate(const char *p, off_t n) { long fd = k_open(p, O_WRONLY, 0); if (fd < 0) return E(fd); long r = k_ftruncate(fd, n); k_close(fd); return E(r); }
int u_access(const char *p, int m) { return E(k_access(p, m)); }
int u_isatty(int fd) { return k_isatty(fd); }
int u_dup(int fd) { return E(k_dup(fd)); }
int u_dup2(int a, int b) { return E(k_dup2(a, b)); }
int u_chmod(const char *p, mode_t m) { struct k_stat st; (void)m; return E(k_stat_(p, &st)); }
int u_fchmod(int fd, mode_t m) { struct k_stat st; (void)m; return E(k_fstat_(fd, &st)); }
mode_t u_umask(mode_t m) { (void)m; return 022; }
int u_fcntl(int fd, int c, ...) { struct k_stat st; (void)c; long r = k_fstat_(fd, &st); return r < 0 ? E(r) : 0; }
int u_flock(int fd, int op) { (void)fd; (void)op; return 0; }
int u_pipe(int *p) { (void)p; u_errno = EMFILE; return -1; }
int u_chdir(const char *p) { return E(k_chdir(p)); }
char *u_getcwd(char *b, size_t n) { if (!b) { if (!n) n = 4096; b = u_malloc(n); if (!b) return NULL; } long r = k_getcwd(b, n); if (r < 0) { u_errno = -r; return NULL; } return b; }
char *u_realpath(const char *p, char *out) {
  struct k_stat st; long r = k_stat_(p, &st); if (r < 0) { u_errno = -r; return NULL; }
  if (!out) { out = u_malloc(PATH_MAX); if (!out) return NULL; }
  char tmp[PATH_MAX * 2]; if (*p == '/') strcpy(tmp, p); else { k_getcwd(tmp, PATH_MAX); strcat(tmp, "/"); strcat(tmp, p); }
  char *o = out; *o = 0;
  for (char *s = strtok(tmp, "/"); s; s = strtok(NULL, "/")) {
    if (!strcmp(s, ".")) continue;
    if (!strcmp(s, "..")) { while (o > out && *--o != '/'); *o = 0; continue; }
    *o++ = '/'; strcpy(o, s); o += strlen(s);
  }
  if (o == out) strcpy(out, "/");
  return out;
}
static void cvst(struct k_stat *k, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = (k->kind == 1 ? S_IFREG : k->kind == 2 ? S_IFDIR : k->kind == 3 ? S_IFCHR : S_IFIFO) | k->mode;
  st->st_size = k->size; st->st_mtim.tv_sec = k->mtime; st->st_mtim.tv_nsec = k->mtime_ns; st->st_ctim = st->st_atim = st->st_mtim;
  st->st_ino = k->ino; st->st_dev = 7; st->st_nlink = k->nlink; st->st_blksize = 4096; st->st_blocks = (k->size + 511) / 512;
}
int u_stat(const char *p, struct stat *st) { struct k_stat k; long r = k_stat_(p, &k); if (r < 0) return E(r); cvst(&k, st); return 0; }
int u_lstat(const char *p, struct stat *st) { return u_stat(p, st); }
int u_fstat(int fd, struct stat *st) { struct k_stat k; long r = k_fstat_(fd, &k); if (r < 0) return E(r); cvst(&k, st); return 0; }
int u_fstatat(int d, const char *p, struct stat *st, int fl) { (void)d; (void)fl; return u_stat(p, st); }

// ---------------------------------------------------------------- stdio
typedef struct UF { int fd; int kind; int rd, wr, err, eof, unbuf, append; char *buf; long cap, pos, len; // buf: write: [0,pos); read: [pos,len)
  char **mp; size_t *sp; char *mbuf; size_t mlen, mcap, mpos; int used, unget; char *ownbuf; struct UF *next; int line; int pid; } UF;
static UF f_in = {.fd = 0, .rd = 1, .used = 1}, f_out = {.fd = 1, .wr = 1, .used = 1}, f_err = {.fd = 2, .wr = 1, .unbuf = 1, .used = 1};
UF *u_stdin = &f_in, *u_stdout = &f_out, *u_stderr = &f_err;
static UF *flist;
static char outbuf0[8192], inbuf0[8192];

static long bufsz(void) { long b = K.bufsiz; return b < 1 ? 1 : b > 8192 ? 8192 : b; }
static int getbuf(UF *f) {
  if (f->buf) return 1;
  f->cap = bufsz();
  if (f == &f_out) f->buf = outbuf0;
  else if (f == &f_in) f->buf = inbuf0;
  else { f->ownbuf = f->buf = u_malloc(f->cap); if (!f->buf) { static char one[1]; f->unbuf = 1; f->buf = one; f->cap = 1; return 0; } }
  f->pos = f->len = 0;
  return 1;
}
static int wflush(UF *f) {
  if (f->kind == 1 || !f->wr || !f->pos || !f->buf) { if (f->wr && f->kind != 1) f->pos = 0; return 0; }
  long off = 0, n = f->pos;
  f->pos = 0;
  while (off < n) {
    long r = k_write(f->fd, f->buf + off, n - off);
    if (r < 0) { u_errno = -r; f->err = 1; return -1; }
    off += r;
  }
  return 0;
}
static size_t mem_write(UF *f, const char *s, size_t n) {
  size_t end = f->mpos + n;
  if (end + 1 > f->mcap) {
    size_t nc = f->mcap ? f->mcap : 128; while (nc < end + 1) nc *= 2;
    char *p = u_realloc(f->mbuf, nc);
    if (!p) { f->err = 1; size_t room = f->mcap > f->mpos + 1 ? f->mcap - 1 - f->mpos : 0; if (room > n) room = n;
      if (room) { memcpy(f->mbuf + f->mpos, s, room); f->mpos += room; if (f->mpos > f->mlen) f->mlen = f->mpos; f->mbuf[f->mlen] = 0; } return room; }
    f->mbuf = p; f->mcap = nc;
  }
  memcpy(f->mbuf + f->mpos, s, n); f->mpos = end; if (f->mpos > f->mlen) { f->mlen = f->mpos; }
  f->mbuf[f->mlen] = 0;
  return n;
}
static size_t put(UF *f, const char *s, size_t n) {
  if (!f->wr) { f->err = 1; u_errno = EBADF; return 0; }
  if (f->kind == 1) return mem_write(f, s, n);
  if (f->unbuf) {
    size_t off = 0;
    while (off < n) { long r = k_write(f->fd, s + off, n - off); if (r < 0) { u_errno = -r; f->err = 1; return off; } off += r; }
    return n;
  }
  if (!getbuf(f)) return put(f, s, n);
  size_t done = 0;
  while (done < n) {
    if (f->pos == f->cap && wflush(f)) return done;
    size_t m = f->cap - f->pos; if (m > n - done) m = n - done;
    memcpy(f->buf + f->pos, s + done, m); f->pos += m; done += m;
  }
  return n;
}
size_t u_fwrite(const void *p, size_t a, size_t b, UF *f) { if (!a || !b) return 0; return put(f, p, a * b) / a; }
int u_fputs(const char *s, UF *f) { size_t n = strlen(s); return put(f, s, n) == n ? 1 : -1; }
int u_puts(const char *s) { return u_fputs(s, u_stdout) < 0 || put(u_stdout, "\n", 1) != 1 ? -1 : 1; }
int u_fputc(int c, UF *f) { char ch = c; return put(f, &ch, 1) == 1 ? (unsigned char)c : -1; }
int u_putc(int c, UF *f) { return u_fputc(c, f); }
int u_putchar(int c) { return u_fputc(c, u_stdout); }
int u_vfprintf(UF *f, const char *fmt, va_list ap) {
  char small[1024]; va_list cp; va_copy(cp, ap);
  int n = vsnprintf(small, sizeof small, fmt, ap);
  if (n < 0) { f->err = 1; va_end(cp); return -1; }
  int ok;
  if (n < (int)sizeof small) ok = put(f, small, n) == (size_t)n;
  else { char *big = k_scratch(n + 1); vsnprintf(big, n + 1, fmt, cp); ok = put(f, big, n) == (size_t)n; k_scratch_free(big); }
  va_end(cp);
  return ok ? n : -1;
}
int u_fprintf(UF *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = u_vfprintf(f, fmt, ap); va_end(ap); return r; }
int u_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = u_vfprintf(u_stdout, fmt, ap); va_end(ap); return r; }
int u_vprintf(const char *fmt, va_list ap) { return u_vfprintf(u_stdout, fmt, ap); }
int u_dprintf(int fd, const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return E(k_write(fd, b, n < 4096 ? n : 4095)); }
int u_vasprintf(char **r, const char *fmt, va_list ap) { va_list cp; va_copy(cp, ap); int n = vsnprintf(NULL, 0, fmt, cp); va_end(cp); *r = u_malloc(n + 1); if (!*r) return -1; vsnprintf(*r, n + 1, fmt, ap); return n; }
int u_asprintf(char **r, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = u_vasprintf(r, fmt, ap); va_end(ap); return n; }
void u_perror(const char *s) { u_fprintf(u_stderr, "%s: %s\n", s, strerror(u_errno)); }
static UF *newf(void) {
  UF *f = u_calloc(1, sizeof(UF)); if (!f) return NULL;
  f->used = 1; f->next = flist; flist = f; f->fd = -1; return f;
}
static void dropf(UF *f) { for (UF **p = &flist; *p; p = &(*p)->next) if (*p == f) { *p = f->next; break; } if (f->ownbuf) u_free(f->ownbuf); u_free(f); }
static int pmode(const char *m, int *rd, int *wr, int *fl) {
  *rd = *wr = 0;
  if (*m == 'r') { *rd = 1; *fl = O_RDONLY; } else if (*m == 'w') { *wr = 1; *fl = O_WRONLY | O_CREAT | O_TRUNC; }
  else if (*m == 'a') { *wr = 1; *fl = O_WRONLY | O_CREAT | O_APPEND; } else { u_errno = EINVAL; return -1; }
  if (strchr(m, '+')) { *rd = *wr = 1; *fl = (*fl & ~3) | O_RDWR; }
  if (strchr(m, 'x')) *fl |= O_EXCL;
  return 0;
}
UF *u_fdopen(int fd, const char *m) { int r, w, fl; if (pmode(m, &r, &w, &fl)) return NULL; UF *f = newf(); if (!f) return NULL; f->fd = fd; f->rd = r; f->wr = w; return f; }
UF *u_fopen(const char *p, const char *m) {
  int r, w, fl; if (pmode(m, &r, &w, &fl)) return NULL;
  UF *f = newf(); if (!f) return NULL;
  long fd = k_open(p, fl, 0666);
  if (fd < 0) { dropf(f); u_errno = -fd; return NULL; }
  f->fd = fd; f->rd = r; f->wr = w; return f;
}
UF *u_open_memstream(char **bp, size_t *sp) {
  UF *f = newf(); if (!f) return NULL;
  f->kind = 1; f->wr = 1; f->mp = bp; f->sp = sp;
  f->mbuf = u_malloc(8); if (!f->mbuf) { dropf(f); return NULL; }
  f->mcap = 8; f->mbuf[0] = 0; *bp = f->mbuf; *sp = 0; return f;
}
UF *u_fmemopen(void *b, size_t n, const char *m) { (void)b; (void)n; (void)m; u_errno = ENOMEM; return NULL; }
int u_fflush(UF *f) {
  if (!f) { int r = wflush(u_stdout); for (UF *g = flist; g; g = g->next) if (g->wr && u_fflush(g)) r = -1; return r; }
  if (f->kind == 1) { *f->mp = f->mbuf; *f->sp = f->mlen; return f->err ? -1 : 0; }
  if (f->wr && !(f->rd && f->len)) return wflush(f);
  return 0;
}
int u_fclose(UF *f) {
  int r = 0;
  if (f->kind == 1) { *f->mp = f->mbuf; *f->sp = f->mlen; r = f->err ? -1 : 0; dropf(f); return r; }
  if (f->wr && f->len == 0) r = wflush(f);
  long c = k_close(f->fd);
  if (c < 0) { u_errno = -c; r = -1; }
  if (f != &f_in && f != &f_out && f != &f_err) dropf(f); else { f->used = 0; f->wr = f->rd = 0; f->fd = -1; }
  return r;
}
UF *u_freopen(const char *p, const char *m, UF *f) {
  int r, w, fl; if (pmode(m, &r, &w, &fl)) return NULL;
  if (f->wr) wflush(f); k_close(f->fd);
  long fd = k_open(p, fl, 0666); if (fd < 0) { u_errno = -fd; return NULL; }
  f->fd = fd; f->rd = r; f->wr = w; f->pos = f->len = 0; f->err = f->eof = 0; return f;
}
static int fillr(UF *f) { // returns bytes available (>0), 0 eof/err
  if (!f->rd) { f->err = 1; u_errno = EBADF; return 0; }
  getbuf(f);
  long r = k_read(f->fd, f->buf, f->cap);
  f->pos = f->len = 0;
  if (r < 0) { f->err = 1; u_errno = -r; return 0; }
  if (r == 0) { f->eof = 1; return 0; }
  f->len = r; return r;
}
size_t u_fread(void *p, size_t a, size_t b, UF *f) {
  size_t n = a * b, done = 0; char *d = p;
  if (!n) return 0;
  if (f->wr && f->pos && !f->len) wflush(f);
  if (f->eof && f->pos >= f->len) { } // like glibc >= 2.28: sticky EOF
  while (done < n) {
    if (f->unget) { d[done++] = f->unget - 1; f->unget = 0; continue; }
    if (f->pos >= f->len) { if (f->eof || !fillr(f)) break; }
    size_t m = f->len - f->pos; if (m > n - done) m = n - done;
    memcpy(d + done, f->buf + f->pos, m); f->pos += m; done += m;
  }
  return done / a;
}
int u_fgetc(UF *f) { unsigned char c; return u_fread(&c, 1, 1, f) == 1 ? c : -1; }
int u_getc(UF *f) { return u_fgetc(f); }
int u_getchar(void) { return u_fgetc(u_stdin); }
int u_ungetc(int c, UF *f) { if (c == -1) return -1; f->unget = c + 1; f->eof = 0; return c; }
char *u_fgets(char *s, int n, UF *f) { int i = 0; while (i < n - 1) { int c = u_fgetc(f); if (c == -1) { if (!i || f->err) return NULL; break; } s[i++] = c; if (c == '\n') break; } s[i] = 0; return s; }
ssize_t u_getdelim(char **lp, size_t *np, int dl, UF *f) {
  size_t i = 0; if (!*lp || !*np) { *np = 120; char *q = u_realloc(*lp, *np); if (!q) { f->err = 1; return -1; } *lp = q; }
  for (;;) { int c = u_fgetc(f); if (c == -1) { if (!i || f->err) return -1; break; }
    if (i + 2 > *np) { char *q = u_realloc(*lp, *np * 2); if (!q) { f->err = 1; return -1; } *lp = q; *np *= 2; }
    (*lp)[i++] = c; if (c == dl) break; }
  (*lp)[i] = 0; return i;
}
ssize_t u_getline(char **lp, size_t *np, UF *f) { return u_getdelim(lp, np, '\n', f); }
int u_ferror(UF *f) { return f->err; }
int u_feof(UF *f) { return f->eof; }
void u_clearerr(UF *f) { f->err = f->eof = 0; }
int u_fileno(UF *f) { return f->fd; }
int u_setvbuf(UF *f, char *b, int mode, size_t n) { (void)b; (void)n; if (mode == _IONBF) f->unbuf = 1; return 0; }
void u_setbuf(UF *f, char *b) { if (!b) f->unbuf = 1; }
int u_fseek(UF *f, long off, int w) {
  if (f->kind == 1) { size_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->mpos : f->mlen; long np = (long)base + off; if (np < 0) { u_errno = EINVAL; return -1; }
    if ((size_t)np > f->mlen) { size_t pad = np - f->mlen; f->mpos = f->mlen; char z[64] = {0}; while (pad) { size_t m = pad > 64 ? 64 : pad; if (mem_write(f, z, m) != m) return -1; pad -= m; } }
    f->mpos = np; f->eof = 0; return 0; }
  if (f->wr && f->pos && !f->len && wflush(f)) return -1;
  if (f->len && w == SEEK_CUR) off -= f->len - f->pos;
  f->pos = f->len = 0; f->unget = 0;
  long r = k_lseek(f->fd, off, w); if (r < 0) { u_errno = -r; return -1; }
  f->eof = 0; return 0;
}
int u_fseeko(UF *f, off_t o, int w) { return u_fseek(f, o, w); }
long u_ftell(UF *f) {
  if (f->kind == 1) return f->mpos;
  long r = k_lseek(f->fd, 0, SEEK_CUR); if (r < 0) { u_errno = -r; return -1; }
  if (f->len) return r - (f->len - f->pos);
  return f->wr ? r + f->pos : r;
}
off_t u_ftello(UF *f) { return u_ftell(f); }
void u_rewind(UF *f) { u_fseek(f, 0, SEEK_SET); f->err = 0; }
UF *u_popen(const char *c, const char *m) { (void)c; (void)m; u_errno = EMFILE; return NULL; }

// ---------------------------------------------------------------- process
static void (*atx[64])(void); static int natx;
int u_atexit(void (*f)(void)) { if (natx == 64) return -1; atx[natx++] = f; return 0; }
void u_exit(int st) { while (natx > 0) atx[--natx](); u_fflush(NULL); k_exit(st); }
void u__exit(int st) { k_exit(st); }
void u__Exit(int st) { k_exit(st); }
void u___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { u_fprintf(u_stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e); k_die(6); }
int u_fork(void) { return E(k_fork()); }
int u_vfork(void) { return E(k_fork()); }
int u_execvp(const char *f, char **a) { return E(k_exec(f, a, 1)); }
int u_execv(const char *f, char **a) { return E(k_exec(f, a, 0)); }
int u_execve(const char *f, char **a, char **e) { (void)e; return E(k_exec(f, a, 0)); }
int u_execvpe(const char *f, char **a, char **e) { (void)e; return E(k_exec(f, a, 1)); }
static int execl_(const char *f, const char *a0, va_list ap, int s) { char *av[1024]; int n = 0; av[n++] = (char *)a0; while (n < 1023 && (av[n] = va_arg(ap, char *))) n++; av[n] = 0; return E(k_exec(f, av, s)); }
int u_execl(const char *f, const char *a, ...) { va_list ap; va_start(ap, a); return execl_(f, a, ap, 0); }
int u_execlp(const char *f, const char *a, ...) { va_list ap; va_start(ap, a); return execl_(f, a, ap, 1); }
int u_posix_spawn(int *pid, const char *f, void *fa, void *at, char **a, char **e) { (void)fa; (void)at; (void)e; long r = k_spawn(f, a, 0); if (r < 0) return -r; if (pid) *pid = r; return 0; }
int u_posix_spawnp(int *pid, const char *f, void *fa, void *at, char **a, char **e) { (void)fa; (void)at; (void)e; long r = k_spawn(f, a, 1); if (r < 0) return -r; if (pid) *pid = r; return 0; }
int u_wait(int *st) { return E(k_wait(-1, st, 0)); }
int u_waitpid(int p, int *st, int o) { return E(k_wait(p, st, o)); }
int u_wait4(int p, int *st, int o, void *ru) { (void)ru; return E(k_wait(p, st, o)); }
int u_wait3(int *st, int o, void *ru) { (void)ru; return E(k_wait(-1, st, o)); }
int u_kill(int p, int s) { return E(k_kill(p, s)); }
int u_raise(int s) { return E(k_kill(k_getpid(), s)); }
int u_getpid(void) { return k_getpid(); }
int u_getppid(void) { return k_getppid(); }
int u_system(const char *c) { (void)c; u_errno = EAGAIN; return -1; }
typedef void (*sigh)(int);
sigh u_signal(int s, sigh h) { (void)s; (void)h; return NULL; }
int u_sigaction(int s, const void *a, void *b) { (void)s; (void)a; (void)b; return 0; }
int u_sigprocmask(int h, const void *a, void *b) { (void)h; (void)a; (void)b; return 0; }
unsigned u_alarm(unsigned s) { (void)s; return 0; }
unsigned u_sleep(unsigned s) { (void)s; return 0; }
char *u_getenv(const char *n) { return (char *)k_getenv(n); }
int u_setenv(const char *n, const char *v, int o) { (void)n; (void)v; (void)o; return 0; }
int u_getrusage(int w, struct rusage *ru) { (void)w; long r = k_maxrss(); if (r < 0) return E(r); memset(ru, 0, sizeof *ru); ru->ru_maxrss = r; return 0; }
int u_getrlimit(int w, void *r) { (void)w; memset(r, 0xff, 16); return 0; }
int u_setrlimit(int w, void *r) { (void)w; (void)r; return 0; }
long u_sysconf(int n) { (void)n; return n == 30 ? 4096 : 1; }

// ---------------------------------------------------------------- time
long u_time(long *t) { long ns; long r = k_time(&ns); if (t) *t = r; return r; }
int u_clock_gettime(int c, struct timespec *ts) { (void)c; long ns; ts->tv_sec = k_time(&ns); ts->tv_nsec = ns; return 0; }
int u_gettimeofday(struct timeval *tv, void *z) { (void)z; long ns; tv->tv_sec = k_time(&ns); tv->tv_usec = ns / 1000; return 0; }
int u_timespec_get(struct timespec *ts, int b) { u_clock_gettime(0, ts); return b; }
long u_clock(void) { long ns; long s = k_time(&ns); return s * 1000000 + ns / 1000; }
static struct tm stm; static char ctb[64];
struct tm *u_gmtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
struct tm *u_localtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
struct tm *u_localtime(const time_t *t) { return gmtime_r(t, &stm); }
struct tm *u_gmtime(const time_t *t) { return gmtime_r(t, &stm); }
char *u_ctime_r(const time_t *t, char *b) { struct tm m; gmtime_r(t, &m); return asctime_r(&m, b); }
char *u_ctime(const time_t *t) { return u_ctime_r(t, ctb); }
char *u_asctime(const struct tm *t) { return asctime_r(t, ctb); }
time_t u_mktime(struct tm *t) { return timegm(t); }
void u_tzset(void) {}

// ---------------------------------------------------------------- temp names, random
static void tmpl(char *p, int sl) { static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; size_t n = strlen(p) - sl; uint64_t v = k_tmprandom(); for (int i = 1; i <= 6; i++) { p[n - i] = al[v % 62]; v /= 62; } }
int u_mkostemps(char *p, int sl, int fl) {
  size_t n = strlen(p); if (n < 6u + sl || strncmp(p + n - sl - 6, "XXXXXX", 6)) { u_errno = EINVAL; return -1; }
  for (int i = 0; i < 1000; i++) { tmpl(p, sl); long fd = k_open(p, O_RDWR | O_CREAT | O_EXCL | fl, 0600); if (fd >= 0) return fd; if (fd != -EEXIST) { u_errno = -fd; return -1; } }
  u_errno = EEXIST; return -1;
}
int u_mkstemp(char *p) { return u_mkostemps(p, 0, 0); }
int u_mkostemp(char *p, int f) { return u_mkostemps(p, 0, f); }
int u_mkstemps(char *p, int s) { return u_mkostemps(p, s, 0); }
char *u_mkdtemp(char *p) { for (int i = 0; i < 1000; i++) { tmpl(p, 0); long r = k_mkdir(p, 0700); if (r >= 0) return p; if (r != -EEXIST) { u_errno = -r; return NULL; } } return NULL; }
char *u_mktemp(char *p) { struct k_stat st; for (int i = 0; i < 1000; i++) { tmpl(p, 0); if (k_stat_(p, &st) == -ENOENT) return p; } *p = 0; return p; }
static char tnb[64];
char *u_tmpnam(char *b) { if (!b) b = tnb; strcpy(b, "/tmp/fileXXXXXX"); return u_mktemp(b); }
char *u_tempnam(const char *d, const char *x) { char t[256]; snprintf(t, sizeof t, "%s/%sXXXXXX", d ? d : "/tmp", x ? x : "file"); u_mktemp(t); return u_strdup(t); }
UF *u_tmpfile(void) { char t[] = "/tmp/tmpfXXXXXX"; int fd = u_mkstemp(t); if (fd < 0) return NULL; k_unlink(t); UF *f = u_fdopen(fd, "w+"); return f; }
static uint64_t rs = 1;
void u_srand(unsigned s) { rs = s; }
int u_rand(void) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return rs >> 33; }
void u_srandom(unsigned s) { rs = s; }
long u_random(void) { return u_rand(); }
ssize_t u_getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((char *)b)[i] = k_random(); return n; }
unsigned u_arc4random(void) { return k_random(); }

// ---------------------------------------------------------------- glob / dirent
static int gl_err;
static void gl_add(glob_t *g, const char *s) {
  char **v = u_realloc(g->gl_pathv, (g->gl_pathc + 2) * sizeof(char *)); if (!v) { gl_err = GLOB_NOSPACE; return; }
  g->gl_pathv = v; v[g->gl_pathc] = u_strdup(s); if (!v[g->gl_pathc]) { gl_err = GLOB_NOSPACE; return; } v[++g->gl_pathc] = NULL;
}
static void gl_rec(glob_t *g, char *base, const char *pat) {
  while (*pat == '/') pat++;
  struct k_stat st;
  if (!*pat) { if (k_stat_(base, &st) >= 0) gl_add(g, base); return; }
  size_t n = strcspn(pat, "/"); char comp[256]; if (n > 255) return; memcpy(comp, pat, n); comp[n] = 0;
  size_t bl = strlen(base);
  if (!strpbrk(comp, "*?[")) { snprintf(base + bl, 4096 - bl, "/%s", comp); gl_rec(g, base, pat + n); base[bl] = 0; return; }
  char *names[256]; int cnt = 0; char nm[256];
  for (int i = 0; cnt < 256; i++) { long r = k_readdir(*base ? base : "/", i, nm); if (r == -ENOMEM || r == -EIO) { gl_err = GLOB_ABORTED; break; } if (r < 0) break; if (!fnmatch(comp, nm, FNM_PERIOD)) { names[cnt] = u_strdup(nm); if (!names[cnt]) { gl_err = GLOB_NOSPACE; break; } cnt++; } }
  for (int i = 1; i < cnt; i++) for (int j = i; j && strcmp(names[j - 1], names[j]) > 0; j--) { char *t = names[j]; names[j] = names[j - 1]; names[j - 1] = t; }
  for (int i = 0; i < cnt; i++) { snprintf(base + bl, 4096 - bl, "/%s", names[i]); gl_rec(g, base, pat + n); base[bl] = 0; u_free(names[i]); }
}
int u_glob(const char *pat, int fl, void *ef, glob_t *g) {
  (void)fl; (void)ef; char base[4096]; g->gl_pathc = 0; g->gl_pathv = NULL; gl_err = 0;
  if (*pat == '/') base[0] = 0; else strcpy(base, ".");
  gl_rec(g, base, pat);
  if (gl_err) return gl_err;
  return g->gl_pathc ? 0 : GLOB_NOMATCH;
}
void u_globfree(glob_t *g) { for (size_t i = 0; i < g->gl_pathc; i++) u_free(g->gl_pathv[i]); u_free(g->gl_pathv); g->gl_pathc = 0; g->gl_pathv = NULL; }
#include <dirent.h>
typedef struct { char path[1024]; int i; struct dirent d; } UD;
UD *u_opendir(const char *p) { struct k_stat st; long r = k_stat_(p, &st); if (r < 0 || st.kind != 2) { u_errno = r < 0 ? -r : ENOTDIR; return NULL; } UD *d = u_calloc(1, sizeof *d); if (!d) return NULL; snprintf(d->path, sizeof d->path, "%s", p); return d; }
struct dirent *u_readdir(UD *d) { long r = k_readdir(d->path, d->i++, d->d.d_name); return r < 0 ? NULL : &d->d; }
int u_closedir(UD *d) { u_free(d); return 0; }

// ---------------------------------------------------------------- numbers (errno forwarding)
#define WRAP(T, name, ARGS, CALL) T u_##name ARGS { int save = *__errno_location(); *__errno_location() = 0; T r = CALL; if (*__errno_location()) u_errno = *__errno_location(); *__errno_location() = save; return r; }
WRAP(unsigned long, strtoul, (const char *s, char **e, int b), strtoul(s, e, b))
WRAP(long, strtol, (const char *s, char **e, int b), strtol(s, e, b))
WRAP(unsigned long long, strtoull, (const char *s, char **e, int b), strtoull(s, e, b))
WRAP(long long, strtoll, (const char *s, char **e, int b), strtoll(s, e, b))
WRAP(double, strtod, (const char *s, char **e), strtod(s, e))
WRAP(float, strtof, (const char *s, char **e), strtof(s, e))
WRAP(long double, strtold, (const char *s, char **e), strtold(s, e))
// static state of libc that belongs to the process image
static char *stk;
char *u_strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return NULL; s += strspn(s, d); if (!*s) { *sv = NULL; return NULL; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; else e = NULL; *sv = e; return s; }
char *u_strtok(char *s, const char *d) { return u_strtok_r(s, d, &stk); }

void u_fork_child_reset(void) {}
// used when the code under test is built with its own USE_ASAN switch: "poisoned" arena memory holds garbage
void u___asan_poison_memory_region(void volatile const *p, size_t n) { if (K.poison >= 0) memset((void *)p, K.poison, n); }
void u___asan_unpoison_memory_region(void volatile const *p, size_t n) { (void)p; (void)n; }
