// Runs scenarios under the controlled scheduler, each execution in a forked child; one JSON line per distinct event trace.
// Either sampled (RUNS executions with policies and parameters drawn from SEED) or, for scenarios with a bound, systematic:
// all schedules with at most that many preemptions at synchronisation operations, up to a cap.
#pragma once
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static uint64_t fnv(uint64_t h, uint64_t x) { return (h ^ x) * 1099511628211ull; }

static std::string jesc(const std::string& s) {
   std::string o;
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
   }
   return o;
}


template <class Scenario> int runAll(std::vector<Scenario> scns, char** argv, void (*prepare)(Scenario&), void (*child)(const Scenario&, const rt_config&), std::string (*extra)(Scenario&)) {
   FILE* out = fopen(argv[2], "w");
   const long runs = atol(argv[4]);
   const uint64_t seed0 = strtoull(argv[5], nullptr, 10);
   const int polArg = atoi(argv[6]);
   const char* stat = getenv("PDRV_STATS");
   const long only = getenv("PDRV_ONLY") ? atol(getenv("PDRV_ONLY")) : -1;
   rt_sh = (rt_shm*)mmap(nullptr, sizeof(rt_shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   long total = 0, distinct = 0, points = 0, switches = 0, preempts = 0, systematic = 0, complete = 0;
   for (auto& s : scns) {
      prepare(s);
      std::set<uint64_t> seen;
      uint64_t sh = 1469598103934665603ull;
      for (char c : s.id) sh = fnv(sh, (unsigned char)c);
      auto execute = [&](long r, const rt_config& c) {
         rt_sh->nev = 0; rt_sh->overflow = 0; rt_sh->outcome = 0; rt_sh->steps = 0; rt_sh->switches = 0; rt_sh->preempts = 0; rt_sh->points = 0; rt_sh->ntxt = 0; rt_sh->ndec = 0;
         fflush(out);
         pid_t pid = fork();
         if (pid == 0) child(s, c);
         int st = 0;
         // wall guard: far above anything a run needs, CPU time is limited in the child
         long waited = 0;
         for (;;) {
            if (waitpid(pid, &st, WNOHANG) == pid) break;
            struct timespec ts{0, waited < 200 ? 50000 : 1000000};
            nanosleep(&ts, nullptr);
            if (++waited > 120000) { kill(pid, SIGKILL); rt_sh->outcome = 5; waitpid(pid, &st, 0); break; }
         }
         ++total;
         points += rt_sh->points; switches += rt_sh->switches; preempts += rt_sh->preempts;
         int ek, ev;
         if (rt_sh->outcome) { ek = 2; ev = rt_sh->outcome; }
         else if (WIFSIGNALED(st)) { ek = 1; ev = WTERMSIG(st); }
         else { ek = 0; ev = WEXITSTATUS(st); }
         int n = rt_sh->nev < RT_MAXEV ? rt_sh->nev : RT_MAXEV;
         uint64_t h = fnv(fnv(14695981039346656037ull, (uint64_t)ek), (uint64_t)ev);
         for (int i = 0; i < n; ++i) {
            rt_event& e = rt_sh->ev[i];
            h = fnv(fnv(fnv(fnv(fnv(fnv(h, (uint64_t)e.kind), (uint64_t)e.tid), (uint64_t)e.a), (uint64_t)e.b), (uint64_t)e.c), (uint64_t)e.d);
         }
         std::string files = extra(s);
         for (char ch : files) h = fnv(h, (unsigned char)ch);
         if (only >= 0 && r != only) return;
         if (!seen.insert(h).second) return;
         ++distinct;
         fprintf(out, "{\"scn\":\"%s\",\"seed\":\"%llu\",\"run\":%ld,\"pol\":%d,\"pa\":%g,\"ps\":%g,\"end\":[%d,%d],\"files\":%s,\"ev\":[", s.id.c_str(), (unsigned long long)c.seed, r, c.policy, c.p_access, c.p_sync, ek, ev, files.c_str());
         for (int i = 0; i < n; ++i) {
            rt_event& e = rt_sh->ev[i];
            fprintf(out, "%s[%d,%d,%d,%d,%d,%d]", i ? "," : "", e.kind, e.tid, e.a, e.b, e.c, e.d);
         }
         fprintf(out, "]");
         if (getenv("PDRV_TEXT")) fprintf(out, ",\"txt\":\"%s\"", jesc(std::string(rt_sh->txt, (size_t)(rt_sh->ntxt < RT_TXT ? rt_sh->ntxt : RT_TXT))).c_str());
         fprintf(out, "}\n");
      };
      if (s.bound >= 0) {
         rt_config c;
         memset(&c, 0, sizeof c);
         c.seed = fnv(sh, seed0);
         c.policy = 3;
         c.bound = s.bound;
         rt_sh->nplan = 0;
         for (long r = 0; r < s.cap; ++r) {
            execute(r, c);
            ++systematic;
            if (only >= 0 && r >= only) break;
            int i = rt_sh->ndec - 1;
            while (i >= 0 && rt_sh->plan[i] + 1 >= rt_sh->alts[i]) --i;
            if (i < 0) { ++complete; break; }
            ++rt_sh->plan[i];
            rt_sh->nplan = i + 1;
         }
         continue;
      }
      for (long r = only >= 0 ? only : 0; r < runs; ++r) {
         uint64_t sd = fnv(fnv(sh, seed0), (uint64_t)r);
         sd ^= sd >> 29;
         rt_config c;
         memset(&c, 0, sizeof c);
         c.seed = sd;
         uint64_t z = sd * 0x9E3779B97F4A7C15ull;
         auto nx = [&z] { z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; z ^= z >> 31; return z; };
         c.policy = polArg >= 0 ? polArg : (nx() % 5 < 2 ? 1 : 0);
         static const double pa[] = {0, 0.0002, 0.002, 0.01, 0.05, 0.2};
         static const double ps[] = {0.02, 0.1, 0.3, 0.6, 1.0};
         c.p_access = pa[nx() % 6];
         c.p_sync = ps[nx() % 5];
         c.pct_depth = (int)(nx() % 8);
         c.p_spurious = nx() % 4 == 0 ? 0.15 : 0.0;
         execute(r, c);
      }
   }
   fclose(out);
   if (stat) {
      FILE* f = fopen(stat, "w");
      fprintf(f, "{\"runs\":%ld,\"distinct\":%ld,\"points\":%ld,\"switches\":%ld,\"preempts\":%ld,\"systematic\":%ld,\"complete\":%ld}\n", total, distinct, points, switches, preempts, systematic, complete);
      fclose(f);
   }
   return 0;
}
