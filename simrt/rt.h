// Simulator internals shared with oracles.
#include <stdint.h>
#include "sim.h"
typedef struct { int t, tag; long a, b, when; } Ev;
extern Ev sim_ev[]; extern int sim_nev;
extern int sim_nthreads, sim_redirect; extern uint64_t sim_seed;
const char *oracle(void);                      // 0 or what is wrong (runs after every simulated execution)
void prog_threads(void);                       // the program registers its threads: sim_spawn
void sim_spawn(void (*f)(void));
void say(const char *fmt, ...);                // message buffer for oracles
extern char sim_msg[4096];
extern Ev ref_ev[]; extern int ref_nev; extern void (*ref_thr[])(void) __attribute__((weak)); extern void (*ref_handler)(int) __attribute__((weak)); void ref_run(void);   // reference execution (same text compiled by gcc)
void say_log(Ev *e, int n, int t);
extern int sim_tso, sim_poison, sim_maxsig; extern void (*sim_handler)(int);
