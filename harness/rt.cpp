// Controlled scheduler: the code under test is compiled with -fsanitize=thread *instrumentation* but linked with this
// runtime instead of libtsan.  Exactly one registered thread runs at a time; every instrumented memory access and every
// synchronisation operation is a point where another thread may be chosen, by a seeded policy.  pthread primitives, sleeps
// and futexes are modelled here, so a deadlock or a hang is seen as such and time is virtual.
// This file must not use C++ templates that instrumented objects also instantiate.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

rt_shm* rt_sh = nullptr;

namespace {
long rawsys(long n, long a, long b, long c, long d, long e, long f) {
   long r;
   register long r10 __asm__("r10") = d;
   register long r8 __asm__("r8") = e;
   register long r9 __asm__("r9") = f;
   __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
   return r;
}

enum St { RUN, B_MUTEX, B_COND, B_JOIN, B_FUTEX, B_ONCE, B_RW, B_SEM, SLEEP, DONE };
const int MAXT = 512;
struct Thr {
   St st;
   const void* on;     // what it is blocked on
   int joinee;
   bool timed;         // may time out
   bool timedout;
   bool woken;
   uint64_t until;     // virtual deadline
   int go;             // hand-off word
   pthread_t real;
   void* (*fn)(void*);
   void* arg;
   void* ret;
   bool detached;
   long prio;
   bool exited_clean;
   long yields;
};
Thr T[MAXT];
int nT = 0;
int cur = -1;
bool on = false;
__thread int self_ = -1;
rt_config C;
uint64_t vnow = 0;
long clockadv = 0;
long budget = 1000;       // accesses until the next preemption
long slice = 0;           // accesses in this slice (fairness)
long pct_next[64];
int pct_n = 0;
long pct_step = 0;
long lowprio = -1;

uint64_t rs[2];
uint64_t rnd() { // xorshift128+
   uint64_t a = rs[0], b = rs[1];
   rs[0] = b;
   a ^= a << 23;
   rs[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
   return rs[1] + b;
}
double rndf() { return (double)(rnd() >> 11) / 9007199254740992.0; }

long geometric(double p) {
   if (p <= 0) return 1L << 40;
   // inverse transform with a cheap log
   double u = rndf();
   double l = __builtin_log(1.0 - u) / __builtin_log1p(-p);
   if (l > 1e12) l = 1e12;
   return 1 + (long)l;
}

void fwait(int* w) {
   while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) rawsys(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
   __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void fpost(int* w) {
   __atomic_store_n(w, 1, __ATOMIC_RELEASE);
   rawsys(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void finish(int outcome) {
   rt_sh->outcome = outcome;
   rawsys(SYS_exit_group, 77, 0, 0, 0, 0, 0);
   __builtin_unreachable();
}

bool runnable(int i) { return T[i].st == RUN; }

int countRunnable() {
   int n = 0;
   for (int i = 0; i < nT; ++i) n += runnable(i);
   return n;
}

bool advanceClock() { // wake the earliest timed waiter; false if there is none
   int best = -1;
   for (int i = 0; i < nT; ++i)
      if ((T[i].st == SLEEP || ((T[i].st == B_COND || T[i].st == B_FUTEX || T[i].st == B_MUTEX || T[i].st == B_RW || T[i].st == B_SEM) && T[i].timed)) && (best < 0 || T[i].until < T[best].until)) best = i;
   if (best < 0) return false;
   if (T[best].until > vnow) vnow = T[best].until;
   for (int i = 0; i < nT; ++i) {
      if (T[i].st == SLEEP && T[i].until <= vnow) T[i].st = RUN;
      else if (i == best && T[i].st != SLEEP) { T[i].st = RUN; T[i].timedout = true; }
   }
   ++clockadv;
   return true;
}

// systematic exploration: one of n alternatives, as planned
int preemptions = 0;
int decide(int n) {
   if (n <= 1) return 0;
   int i = rt_sh->ndec;
   if (i >= RT_MAXDEC) return 0;
   int k = i < rt_sh->nplan ? rt_sh->plan[i] : 0;
   if (k >= n) k = n - 1;
   rt_sh->plan[i] = (unsigned char)k;
   rt_sh->alts[i] = (unsigned char)(n > 255 ? 255 : n);
   rt_sh->ndec = i + 1;
   return k;
}
// the k-th runnable thread after the current one, which comes last
int nthRunnable(int k) {
   for (int j = 1; j <= nT; ++j) {
      int i = (self_ + j) % nT;
      if (runnable(i) && k-- == 0) return i;
   }
   return -1;
}

int pick(bool mayStay) {
   int n = countRunnable();
   int advanced = 0;
   while (n == 0) {
      if (!advanceClock()) finish(1);
      // only sleepers are left: nothing but time can make progress.  Many such rounds are a hang.
      if (++advanced > 50 || clockadv > 400) finish(2);
      n = countRunnable();
   }
   if (C.policy == 1) {
      int best = -1;
      for (int i = 0; i < nT; ++i)
         if (runnable(i) && (best < 0 || T[i].prio > T[best].prio)) best = i;
      return best;
   }
   (void)mayStay;
   if (C.policy == 3) return nthRunnable(decide(n));
   int k = (int)(rnd() % (uint64_t)n);
   for (int i = 0; i < nT; ++i)
      if (runnable(i) && k-- == 0) return i;
   return -1;
}

void switchTo(int n) {
   int me = self_;
   slice = 0;
   if (n == me) return;
   ++rt_sh->switches;
   cur = n;
   fpost(&T[n].go);
   fwait(&T[me].go);
}

// a wait with a time limit may reach it whatever the other threads do: they can be arbitrarily slow
void maybeTimeout() {
   if (C.policy == 3 || rndf() >= 0.03) return;
   for (int i = 0; i < nT; ++i) {
      const St st = T[i].st;
      if (!(T[i].timed && (st == B_COND || st == B_FUTEX || st == B_MUTEX || st == B_RW || st == B_SEM))) continue;
      if (T[i].until > vnow) vnow = T[i].until;
      T[i].st = RUN;
      T[i].timedout = true;
      return;
   }
}

// the current thread's state has been set (blocked or RUN); let the policy choose
void resched() {
   maybeTimeout();
   if (C.policy != 1 && C.policy != 3 && rndf() < 0.002 && nT > 1) { // rarely let time pass although others could run
      bool sleeping = false;
      for (int i = 0; i < nT; ++i) sleeping |= T[i].st == SLEEP;
      if (sleeping && clockadv < 5) advanceClock();
   }
   int n = pick(true);
   switchTo(n);
}

void demote() {
   if (C.policy == 1) T[self_].prio = lowprio--;
}

inline bool managed() { return on && self_ >= 0; }

// scheduling point at a memory access
void access_slow() {
   int me = self_;
   ++rt_sh->points;
   if (C.policy == 1) {
      // accesses count for PCT change points
      pct_step += 64;
      budget = 64;
      if (pct_n > 0 && pct_step >= pct_next[pct_n - 1]) {
         --pct_n;
         T[me].prio = -(long)(pct_n + 1) * 1000 - 1;
         ++rt_sh->preempts;
         resched();
      }
      if ((slice += 64) > 400000) { // spinning: let others run
         demote();
         resched();
      }
      return;
   }
   if (C.policy == 3) { // spinning: let others run
      budget = 100000;
      int n = nthRunnable(0);
      if (n != me) switchTo(n);
      return;
   }
   budget = geometric(C.p_access);
   if (budget > 200000) budget = 200000;
   ++rt_sh->preempts;
   resched();
}

inline void access_point() {
   if (self_ < 0) return;
   if (!on) return;
   if (--budget > 0) return;
   ++rt_sh->steps;
   if (rt_sh->steps > 20000000) finish(3);
   access_slow();
}

// scheduling point at a synchronisation operation
void sync_point() {
   if (!managed()) return;
   ++rt_sh->steps;
   if (rt_sh->steps > 20000000) finish(3);
   ++rt_sh->points;
   if (C.policy == 1) {
      pct_step += 1;
      if (pct_n > 0 && pct_step >= pct_next[pct_n - 1]) {
         --pct_n;
         T[self_].prio = -(long)(pct_n + 1) * 1000 - 1;
         ++rt_sh->preempts;
      }
      maybeTimeout();
      int n = pick(true);
      if (n != self_) switchTo(n);
      return;
   }
   if (C.policy == 3) {
      int n = countRunnable();
      if (n < 2 || preemptions >= C.bound) return;
      int k = decide(n);
      if (k > 0) {
         ++preemptions;
         switchTo(nthRunnable(k - 1));
      }
      return;
   }
   if (rndf() < C.p_sync) resched();
}

void block(St st, const void* obj) {
   T[self_].st = st;
   T[self_].on = obj;
   T[self_].timedout = false;
   resched();
}

void wakeAll(St st, const void* obj) {
   for (int i = 0; i < nT; ++i)
      if (T[i].st == st && T[i].on == obj) T[i].st = RUN;
}

// ------------------------------------------------------------------ objects keyed by address
struct Obj { const void* key; int kind; int owner; int count; int readers; };
const int HN = 1 << 15;
Obj H[HN];
Obj* obj(const void* k, int kind) {
   uint64_t h = ((uint64_t)k >> 3) * 0x9E3779B97F4A7C15ull;
   int i = (int)(h >> 49);
   for (;;) {
      Obj* o = &H[i & (HN - 1)];
      if (o->key == nullptr) { o->key = k; o->kind = kind; o->owner = -1; o->count = 0; o->readers = 0; return o; }
      if (o->key == k && o->kind == kind) return o;
      ++i;
   }
}

template <class F> F real(const char* name) {
   static_assert(sizeof(F) == sizeof(void*), "");
   void* p = dlsym(RTLD_NEXT, name);
   F f;
   memcpy(&f, &p, sizeof f);
   return f;
}

uint64_t tsns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
// a deadline on any clock becomes a relative wait on the virtual clock
uint64_t deadline(int clk, const struct timespec* abs) {
   struct timespec n;
   rawsys(SYS_clock_gettime, clk, (long)&n, 0, 0, 0, 0);
   uint64_t a = tsns(abs), b = tsns(&n);
   return vnow + (a > b ? a - b : 0);
}

void* trampoline(void* p) {
   int id = (int)(intptr_t)p;
   self_ = id;
   fwait(&T[id].go);
   T[id].ret = T[id].fn(T[id].arg);
   // finished
   T[id].st = DONE;
   wakeAll(B_JOIN, &T[id]);
   int n = pick(false);
   cur = n;
   self_ = -1;
   fpost(&T[n].go);
   return T[id].ret;
}
} // namespace

extern "C" {

void rt_begin(const rt_config* cfg) {
   C = *cfg;
   rs[0] = cfg->seed * 0x9E3779B97F4A7C15ull + 1;
   rs[1] = (cfg->seed ^ 0xD1B54A32D192ED03ull) * 0xBF58476D1CE4E5B9ull + 7;
   for (int i = 0; i < 20; ++i) rnd();
   if (C.policy == 2) { self_ = -1; return; }
   nT = 1;
   T[0].st = RUN;
   T[0].prio = 1000000 + (long)(rnd() % 1000000);
   self_ = 0;
   cur = 0;
   pct_n = C.pct_depth > 60 ? 60 : C.pct_depth;
   long horizon = 200L << (rnd() % 9);
   for (int i = 0; i < pct_n; ++i) pct_next[i] = (long)(rnd() % (uint64_t)horizon);
   for (int i = 0; i < pct_n; ++i)
      for (int j = i + 1; j < pct_n; ++j)
         if (pct_next[j] > pct_next[i]) { long t = pct_next[i]; pct_next[i] = pct_next[j]; pct_next[j] = t; }
   budget = C.policy == 1 ? 64 : C.policy == 3 ? 100000 : geometric(C.p_access);
   on = true;
}

int rt_tid(void) { return self_; }
int rt_nthreads(void) { return nT; }

void rt_ev(int kind, int a, int b, int c, int d) {
   int i = __atomic_fetch_add(&rt_sh->nev, 1, __ATOMIC_SEQ_CST);
   if (i >= RT_MAXEV) { rt_sh->overflow = 1; return; }
   rt_event* e = &rt_sh->ev[i];
   e->kind = kind;
   e->tid = self_ >= 0 ? self_ : (int)rawsys(SYS_gettid, 0, 0, 0, 0, 0, 0);
   e->a = a; e->b = b; e->c = c; e->d = d;
}

void rt_text(const char* s, size_t n) {
   int at = __atomic_fetch_add(&rt_sh->ntxt, (int)n, __ATOMIC_SEQ_CST);
   if (at < 0 || (size_t)at + n >= RT_TXT) return;
   memcpy(rt_sh->txt + at, s, n);
}

void rt_point(void) { sync_point(); }

// ------------------------------------------------------------------ threads
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
   typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
   static F f = real<F>("pthread_create");
   if (!managed()) return f(th, attr, fn, arg);
   sync_point();
   int id = nT;
   if (id >= MAXT) finish(4);
   Thr* t = &T[id];
   memset(t, 0, sizeof *t);
   t->st = RUN;
   t->fn = fn;
   t->arg = arg;
   t->prio = 1000000 + (long)(rnd() % 1000000);
   ++nT;
   int r = f(&t->real, attr, trampoline, (void*)(intptr_t)id);
   if (r != 0) { t->st = DONE; return r; }
   *th = t->real;
   sync_point();
   return 0;
}

static int findThread(pthread_t th) {
   for (int i = nT - 1; i > 0; --i)
      if (!T[i].detached && pthread_equal(T[i].real, th)) return i;
   return -1;
}

int pthread_join(pthread_t th, void** ret) {
   typedef int (*F)(pthread_t, void**);
   static F f = real<F>("pthread_join");
   if (!managed()) return f(th, ret);
   sync_point();
   int id = findThread(th);
   if (id < 0) return f(th, ret);
   if (id == self_) return EDEADLK;
   while (T[id].st != DONE) block(B_JOIN, &T[id]);
   T[id].detached = true;
   return f(th, ret);
}

int pthread_detach(pthread_t th) {
   typedef int (*F)(pthread_t);
   static F f = real<F>("pthread_detach");
   if (managed()) {
      sync_point();
      int id = findThread(th);
      if (id >= 0) T[id].detached = true;
   }
   return f(th);
}

// ------------------------------------------------------------------ mutexes
static int mlock(pthread_mutex_t* m, bool try_, bool timed, uint64_t until) {
   sync_point();
   Obj* o = obj(m, 1);
   bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
   while (o->owner >= 0) {
      if (o->owner == self_ && recursive) { ++o->count; return 0; }
      if (try_) return EBUSY;
      if (timed && vnow >= until) return ETIMEDOUT;
      T[self_].timed = timed;
      T[self_].until = until;
      block(B_MUTEX, m);
      T[self_].timed = false;
      if (timed && T[self_].timedout && o->owner >= 0) return ETIMEDOUT;
   }
   o->owner = self_;
   o->count = 1;
   return 0;
}
static void munlock(pthread_mutex_t* m) {
   Obj* o = obj(m, 1);
   if (o->owner == self_ && --o->count > 0) return;
   o->owner = -1;
   o->count = 0;
   wakeAll(B_MUTEX, m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
   typedef int (*F)(pthread_mutex_t*);
   static F f = real<F>("pthread_mutex_lock");
   if (!managed()) return f(m);
   return mlock(m, false, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
   typedef int (*F)(pthread_mutex_t*);
   static F f = real<F>("pthread_mutex_trylock");
   if (!managed()) return f(m);
   return mlock(m, true, false, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
   typedef int (*F)(pthread_mutex_t*, const struct timespec*);
   static F f = real<F>("pthread_mutex_timedlock");
   if (!managed()) return f(m, ts);
   return mlock(m, false, true, deadline(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
   typedef int (*F)(pthread_mutex_t*, clockid_t, const struct timespec*);
   static F f = real<F>("pthread_mutex_clocklock");
   if (!managed()) return f(m, c, ts);
   return mlock(m, false, true, deadline(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
   typedef int (*F)(pthread_mutex_t*);
   static F f = real<F>("pthread_mutex_unlock");
   if (!managed()) return f(m);
   munlock(m);
   sync_point();
   return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
   typedef int (*F)(pthread_mutex_t*);
   static F f = real<F>("pthread_mutex_destroy");
   if (!managed()) return f(m);
   return 0;
}

// ------------------------------------------------------------------ condition variables
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until) {
   sync_point();
   munlock(m);
   bool to = false;
   if (C.policy != 1 && C.policy != 3 && rndf() < C.p_spurious) {
      resched(); // spurious wake-up, allowed by POSIX and C++
   } else {
      T[self_].timed = timed;
      T[self_].until = until;
      block(B_COND, c);
      to = timed && T[self_].timedout;
      T[self_].timed = false;
   }
   Obj* o = obj(m, 1);
   while (o->owner >= 0) block(B_MUTEX, m);
   o->owner = self_;
   o->count = 1;
   return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
   typedef int (*F)(pthread_cond_t*, pthread_mutex_t*);
   static F f = real<F>("pthread_cond_wait");
   if (!managed()) return f(c, m);
   return cwait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
   typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
   static F f = real<F>("pthread_cond_timedwait");
   if (!managed()) return f(c, m, ts);
   return cwait(c, m, true, deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
   typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
   static F f = real<F>("pthread_cond_clockwait");
   if (!managed()) return f(c, m, ck, ts);
   return cwait(c, m, true, deadline(ck, ts));
}
static void csignal(pthread_cond_t* c, bool all) {
   int w[MAXT], n = 0;
   for (int i = 0; i < nT; ++i)
      if (T[i].st == B_COND && T[i].on == c) w[n++] = i;
   if (n == 0) return;
   if (all) { for (int i = 0; i < n; ++i) T[w[i]].st = RUN; return; }
   T[w[C.policy == 3 ? (uint64_t)decide(n) : rnd() % (uint64_t)n]].st = RUN;
}
int pthread_cond_signal(pthread_cond_t* c) {
   typedef int (*F)(pthread_cond_t*);
   static F f = real<F>("pthread_cond_signal");
   if (!managed()) return f(c);
   sync_point();
   csignal(c, false);
   sync_point();
   return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
   typedef int (*F)(pthread_cond_t*);
   static F f = real<F>("pthread_cond_broadcast");
   if (!managed()) return f(c);
   sync_point();
   csignal(c, true);
   sync_point();
   return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
   typedef int (*F)(pthread_cond_t*);
   static F f = real<F>("pthread_cond_destroy");
   if (!managed()) return f(c);
   return 0;
}

// ------------------------------------------------------------------ once, rwlock
int pthread_once(pthread_once_t* o_, void (*fn)(void)) {
   typedef int (*F)(pthread_once_t*, void (*)(void));
   static F f = real<F>("pthread_once");
   if (!managed()) return f(o_, fn);
   sync_point();
   if (*(volatile int*)o_ == 2) return 0; // glibc's "done", set before control started or below
   Obj* o = obj(o_, 2);
   // a once_flag in re-used memory: our mark of completion is in the flag itself
   if (o->count == 2) { o->count = 0; o->owner = -1; }
   while (o->count == 1) {
      block(B_ONCE, o_);
      if (*(volatile int*)o_ == 2) return 0;
   }
   o->count = 1;
   o->owner = self_;
   try {
      fn();
   } catch (...) {
      o->count = 0;
      wakeAll(B_ONCE, o_);
      throw;
   }
   *(volatile int*)o_ = 2;
   o->count = 2;
   wakeAll(B_ONCE, o_);
   sync_point();
   return 0;
}

static int rwlock_(pthread_rwlock_t* l, bool write, bool try_) {
   sync_point();
   Obj* o = obj(l, 3);
   for (;;) {
      if (write ? (o->owner < 0 && o->readers == 0) : (o->owner < 0)) break;
      if (try_) return EBUSY;
      block(B_RW, l);
   }
   if (write) o->owner = self_; else ++o->readers;
   return 0;
}
#define RW(name, w, t)                                            \
   int name(pthread_rwlock_t* l) {                                \
      typedef int (*F)(pthread_rwlock_t*);                        \
      static F f = real<F>(#name);                                \
      return managed() ? rwlock_(l, w, t) : f(l);                 \
   }
RW(pthread_rwlock_rdlock, false, false)
RW(pthread_rwlock_wrlock, true, false)
RW(pthread_rwlock_tryrdlock, false, true)
RW(pthread_rwlock_trywrlock, true, true)
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
   typedef int (*F)(pthread_rwlock_t*);
   static F f = real<F>("pthread_rwlock_unlock");
   if (!managed()) return f(l);
   Obj* o = obj(l, 3);
   if (o->owner == self_) o->owner = -1; else --o->readers;
   wakeAll(B_RW, l);
   sync_point();
   return 0;
}

int sem_wait(sem_t* s) {
   typedef int (*F)(sem_t*);
   static F f = real<F>("sem_wait");
   typedef int (*G)(sem_t*);
   static G g = real<G>("sem_trywait");
   if (!managed()) return f(s);
   sync_point();
   while (g(s) != 0) block(B_SEM, s);
   return 0;
}
int sem_post(sem_t* s) {
   typedef int (*F)(sem_t*);
   static F f = real<F>("sem_post");
   int r = f(s);
   if (managed()) { wakeAll(B_SEM, s); sync_point(); }
   return r;
}

// ------------------------------------------------------------------ time
static void vsleep(uint64_t ns) {
   sync_point();
   if (ns == 0) { demote(); resched(); return; }
   T[self_].until = vnow + ns;
   demote();
   block(SLEEP, nullptr);
}
int nanosleep(const struct timespec* a, struct timespec* rem) {
   if (!managed()) { long r = rawsys(SYS_nanosleep, (long)a, (long)rem, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
   vsleep(tsns(a));
   if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
   return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* rem) {
   if (!managed()) return (int)-rawsys(SYS_clock_nanosleep, c, flags, (long)a, (long)rem, 0, 0);
   if (flags & TIMER_ABSTIME) { uint64_t d = deadline(c, a); vsleep(d > vnow ? d - vnow : 0); }
   else vsleep(tsns(a));
   return 0;
}
int usleep(useconds_t us) {
   struct timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (long)(us % 1000000) * 1000;
   return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
   struct timespec t; t.tv_sec = s; t.tv_nsec = 0;
   nanosleep(&t, nullptr);
   return 0;
}
int sched_yield(void) {
   if (!managed()) return (int)rawsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
   ++rt_sh->steps;
   if (rt_sh->steps > 20000000) finish(3);
   demote();
   resched();
   return 0;
}

// ------------------------------------------------------------------ futex (std::future, function statics, atomic wait)
long syscall(long n, ...) {
   va_list ap;
   va_start(ap, n);
   long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), g = va_arg(ap, long);
   va_end(ap);
   if (n == SYS_futex && managed()) {
      int op = (int)b & FUTEX_CMD_MASK;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
         sync_point();
         if (__atomic_load_n((int*)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
         const struct timespec* ts = (const struct timespec*)d;
         T[self_].timed = ts != nullptr;
         if (ts) T[self_].until = op == FUTEX_WAIT ? vnow + tsns(ts) : deadline(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
         block(B_FUTEX, (const void*)a);
         bool to = T[self_].timed && T[self_].timedout;
         T[self_].timed = false;
         if (to) { errno = ETIMEDOUT; return -1; }
         return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
         sync_point();
         long k = 0;
         for (int i = 0; i < nT && k < (long)(int)c; ++i)
            if (T[i].st == B_FUTEX && T[i].on == (const void*)a) { T[i].st = RUN; ++k; }
         sync_point();
         return k;
      }
   }
   long r = rawsys(n, a, b, c, d, e, g);
   if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
   return r;
}

// ------------------------------------------------------------------ functions that fill the caller's memory
int vsnprintf(char* d, size_t n, const char* f, va_list ap) __THROW {
   typedef int (*F)(char*, size_t, const char*, va_list);
   static F g = real<F>("vsnprintf");
   int r = g(d, n, f, ap);
   if (managed()) sync_point();
   return r;
}
size_t strftime(char* d, size_t n, const char* f, const struct tm* t) __THROW {
   typedef size_t (*F)(char*, size_t, const char*, const struct tm*);
   static F g = real<F>("strftime");
   size_t r = g(d, n, f, t);
   if (managed()) sync_point();
   return r;
}
struct tm* localtime_r(const time_t* s, struct tm* t) __THROW {
   typedef struct tm* (*F)(const time_t*, struct tm*);
   static F g = real<F>("localtime_r");
   struct tm* r = g(s, t);
   if (managed()) sync_point();
   return r;
}

// ------------------------------------------------------------------ instrumentation callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACC(n) void n(void*) { access_point(); }
ACC(__tsan_read1) ACC(__tsan_read2) ACC(__tsan_read4) ACC(__tsan_read8) ACC(__tsan_read16)
ACC(__tsan_write1) ACC(__tsan_write2) ACC(__tsan_write4) ACC(__tsan_write8) ACC(__tsan_write16)
ACC(__tsan_unaligned_read2) ACC(__tsan_unaligned_read4) ACC(__tsan_unaligned_read8) ACC(__tsan_unaligned_read16)
ACC(__tsan_unaligned_write2) ACC(__tsan_unaligned_write4) ACC(__tsan_unaligned_write8) ACC(__tsan_unaligned_write16)
ACC(__tsan_volatile_read1) ACC(__tsan_volatile_read2) ACC(__tsan_volatile_read4) ACC(__tsan_volatile_read8) ACC(__tsan_volatile_read16)
ACC(__tsan_volatile_write1) ACC(__tsan_volatile_write2) ACC(__tsan_volatile_write4) ACC(__tsan_volatile_write8) ACC(__tsan_volatile_write16)
ACC(__tsan_vptr_read)
void __tsan_vptr_update(void**, void*) { access_point(); }
void __tsan_read_range(void*, unsigned long) { access_point(); }
void __tsan_write_range(void*, unsigned long) { access_point(); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

static inline void atomic_point() {
   if (self_ < 0 || !on) return;
   // an atomic operation is a synchronisation operation, but a frequent one (reference counts)
   if (C.policy == 1 || C.policy == 3) { access_point(); return; }
   if (rndf() < C.p_sync * 0.15) { ++rt_sh->steps; if (rt_sh->steps > 20000000) finish(3); ++rt_sh->points; resched(); }
   else access_point();
}
#define ATOMICS(N, TY)                                                                                                  \
   TY __tsan_atomic##N##_load(const volatile TY* p, int) { atomic_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }     \
   void __tsan_atomic##N##_store(volatile TY* p, TY v, int) { atomic_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }     \
   TY __tsan_atomic##N##_exchange(volatile TY* p, TY v, int) { atomic_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
   TY __tsan_atomic##N##_fetch_add(volatile TY* p, TY v, int) { atomic_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
   TY __tsan_atomic##N##_fetch_sub(volatile TY* p, TY v, int) { atomic_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
   TY __tsan_atomic##N##_fetch_and(volatile TY* p, TY v, int) { atomic_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
   TY __tsan_atomic##N##_fetch_or(volatile TY* p, TY v, int) { atomic_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##N##_fetch_xor(volatile TY* p, TY v, int) { atomic_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
   TY __tsan_atomic##N##_fetch_nand(volatile TY* p, TY v, int) { atomic_point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##N##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int, int) { atomic_point(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##N##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int, int) { atomic_point(); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##N##_compare_exchange_val(volatile TY* p, TY e, TY v, int, int) { atomic_point(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

} // extern "C"
