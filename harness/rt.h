// Controlled scheduler and event recorder.  See rt.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { RT_MAXEV = 400000, RT_TXT = 4 * 1024 * 1024, RT_MAXDEC = 4000 };

typedef struct { int kind, tid, a, b, c, d; } rt_event;

typedef struct {
   volatile int nev;          // events recorded
   volatile int overflow;
   volatile int outcome;      // 0: none recorded by the child, 1 deadlock, 2 hang, 3 livelock, 4 sink-escape
   volatile long steps, switches, preempts, points;
   volatile int ntxt;
   rt_event ev[RT_MAXEV];
   char txt[RT_TXT];          // free-form text channel (not part of the trace)
   // systematic exploration: the decisions to take (0 beyond), those taken and how many alternatives there were
   int nplan, ndec;
   unsigned char plan[RT_MAXDEC], alts[RT_MAXDEC];
} rt_shm;

extern rt_shm* rt_sh;

typedef struct {
   uint64_t seed;
   int policy;      // 0 random walk, 1 PCT, 2 real threads (no control), 3 systematic
   double p_access; // probability of a preemption at an instrumented memory access
   double p_sync;   // probability of a switch at a synchronisation operation
   int pct_depth;
   double p_spurious;
   int bound;       // systematic: preemptions allowed
} rt_config;

void rt_begin(const rt_config* cfg); // the calling thread becomes thread 0 under control
int rt_tid(void);                    // scheduler's id of the calling thread, -1 if unknown
void rt_ev(int kind, int a, int b, int c, int d);
void rt_text(const char* s, size_t n);
void rt_point(void);                 // explicit scheduling point
int rt_nthreads(void);
void rt_name(int tag);               // for diagnosis
#ifdef __cplusplus
}
#endif
