// Interface between simulated programs (compiled by the compiler under test) and the simulator (compiled by gcc).
#ifndef SIM_H
#define SIM_H
struct sim_region { void *p; long n; };
void sim_log(int tag, long a, long b);        // append to the history of this run
void sim_res(int op, long v);                 // result of operation `op`
long sim_choose(int n);                       // seeded decision 0..n-1
void sim_yield(void);                         // inside waiting loops
int sim_self(void);                           // simulated thread id
long sim_rsp(void);                           // stack pointer of the caller (relative to the top of its stack)
long sim_bits(const void *p, int n);          // n bytes as an unsigned number
void sim_watch(const volatile void *p, int n, int cnt, int kind, int slot); // record accesses to an automatic object (cnt elements of n bytes)
void sim_unwatch(int slot);
#endif
