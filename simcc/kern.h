// Interface between the simulated kernel and the user-level libc that runs inside a simulated process.
#pragma once
#include <stddef.h>
#include <stdint.h>
struct k_stat { int kind; long size; long mtime; long mtime_ns; long ino; long nlink; int mode; }; // kind: 1 file 2 dir 3 chardev 4 pipe
// All calls return >=0 or -errno.
long k_open(const char *path, int flags, int mode);
long k_read(int fd, void *buf, size_t n);
long k_write(int fd, const void *buf, size_t n);
long k_close(int fd);
long k_lseek(int fd, long off, int whence);
long k_stat_(const char *path, struct k_stat *st);
long k_fstat_(int fd, struct k_stat *st);
long k_access(const char *path, int mode);
long k_unlink(const char *path);
long k_rename(const char *a, const char *b);
long k_link(const char *a, const char *b);
long k_mkdir(const char *p, int mode);
long k_rmdir(const char *p);
long k_ftruncate(int fd, long len);
long k_dup(int fd);
long k_dup2(int fd, int nfd);
long k_fsync(int fd);
long k_readdir(const char *path, int i, char *name); // i-th entry; 0 ok, -ENOENT at end
long k_fork(void);
long k_spawn(const char *file, char **argv, int search);
long k_exec(const char *file, char **argv, int search);
long k_wait(int pid, int *status, int options);
void k_exit(int status) __attribute__((noreturn));
void k_die(int sig) __attribute__((noreturn));
long k_kill(int pid, int sig);
long k_getpid(void);
long k_getppid(void);
long k_time(long *ns);
long k_maxrss(void);
long k_getcwd(char *buf, size_t n);
long k_chdir(const char *p);
long k_isatty(int fd);
const char *k_getenv(const char *n);
unsigned k_random(void);
unsigned k_tmprandom(void);
// memory: not events, no preemption
char *k_sbrk(size_t n);            // grow heap; NULL when the address space is exhausted
int k_alloc_fault(void);           // 1: this allocation fails
void k_guard(char *p, size_t n);   // make pages inaccessible (dropped at fork)
void *k_scratch(size_t n);
void k_scratch_free(void *p);
// knobs
struct k_knobs {
  long bufsiz;     // stdio buffer size
  long fill;       // fresh malloc memory: -1 = zero, 0..255 byte, 256 = pseudo-random
  long poison;     // freed memory: -1 = leave, 0..255
  long reuse;      // 0 never reuse, 1 LIFO, 2 FIFO
  long gap;        // max random gap between allocations (bytes)
  long move;       // realloc always moves
  long guard;      // page-guarded large allocations
  long stackfill;  // initial stack garbage byte, 256 random, -1 none
  long stackshift; // initial stack offset
  long readmax;    // max bytes a read returns (0 = no limit)
};
extern struct k_knobs K;
