// Volume: replays spec/Volume.tla's operations with real threads.   vdrv in out scratch
#include "mbt.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
using mbt::Val;
using mbt::arr;

static const int P = 4;
static std::atomic<long> gProgress{0};
static std::string gSame;
struct Gate { std::mutex m; std::condition_variable c; bool open = true; };
struct State { // of a sink, outlives it
   Gate g;
   std::vector<std::pair<long, long>> runs[P + 1];
   std::atomic<long> received{0};
   long same = 0; // messages that are all alike
};
struct S {
   State* st;
   explicit S(State* s) : st(s) {}
   void pass() {
      std::unique_lock<std::mutex> l(st->g.m);
      st->g.c.wait(l, [&] { return st->g.open; });
   }
   void receive(g3::LogMessageMover m) {
      pass();
      const std::string& t = m.get().message();
      ++gProgress;
      if (t == gSame) { ++st->same; ++st->received; return; }
      char* e;
      long p = strtol(t.c_str(), &e, 10), k = strtol(e + 1, &e, 10);
      if (*e != '.' || p < 1 || p > P || t.back() != '$') { p = 0; k = 0; } // not a message we sent
      auto& r = st->runs[p];
      if (!r.empty() && r.back().second + 1 == k) r.back().second = k;
      else if (r.size() < 20) r.push_back({k, k});
      ++st->received;
   }
   long twice(long k) { pass(); ++gProgress; return 2 * k; }
};
static void set(State& s, bool open) {
   { std::lock_guard<std::mutex> l(s.g.m); s.g.open = open; }
   s.g.c.notify_all();
}
// waits until done() or until progress() has not changed for 20 seconds
template <class A, class B> static bool await(A done, B progress) {
   auto last = std::chrono::steady_clock::now();
   long was = progress();
   while (!done()) {
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
      long now = progress();
      if (now != was) { was = now; last = std::chrono::steady_clock::now(); }
      else if (std::chrono::steady_clock::now() - last > std::chrono::seconds(20)) return done();
   }
   return true;
}
static Val runsOf(int s, State& st) {
   Val r = arr(), v = arr();
   for (int p = 1; p <= P; ++p) {
      Val q = arr();
      for (auto& x : st.runs[p]) { Val y = arr(); y.add(x.first); y.add(x.second); q.add(y); }
      if (p == 1) for (auto& x : st.runs[0]) { (void)x; Val y = arr(); y.add(-1); y.add(-1); q.add(y); }
      r.add(q);
   }
   v.add(s);
   v.add(r);
   v.add(st.same);
   return v;
}

int main(int, char** argv) {
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   if (!freopen("/dev/null", "w", stderr)) return 1;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr(), end;
      gSame = "";
      // every sequence in a process of its own, which ends when nothing has moved for a long time
      std::string got = mbt::inChild([&](int fd) {
      std::thread([] {
         for (long was = -1; was != gProgress;) { was = gProgress; std::this_thread::sleep_for(std::chrono::seconds(45)); }
         _exit(55);
      }).detach();
      auto w = g3::LogWorker::createLogWorker();
      g3::initializeLogging(w.get());
      std::map<int, std::unique_ptr<State>> st;
      std::map<int, std::unique_ptr<g3::SinkHandle<S>>> h;
      long sent[P + 1] = {0}, total = 0;
      std::map<int, long> base;
      for (auto& o : ops.a) {
         const std::string& k = o[0].s;
         Val obs = arr();
         if (k == "add") {
            int s = (int)o[1].i;
            st[s].reset(new State);
            base[s] = total;
            h[s] = w->addSink(std::make_unique<S>(st[s].get()), &S::receive);
         } else if (k == "burst") {
            const std::string& held = o[4].s;
            const long n = o[2].i;
            std::string pad((size_t)o[3].i, 'x');
            for (auto& x : st) if (held == "all" || (held == "one" && x.first == st.begin()->first)) set(*x.second, false);
            std::atomic<long> steps{0}, done{0};
            std::vector<std::thread> ts;
            for (int p = 1; p <= o[1].i; ++p)
               ts.emplace_back([&, p] {
                  for (long i = 1; i <= n; ++i) {
                     ++gProgress;
                     if (i % 2 || pad.size() > 1000) LOG(INFO) << p << ":" << sent[p] + i << "." << pad << "$";
                     else LOGF(WARNING, "%d:%ld.%s$", p, sent[p] + i, pad.c_str());
                     ++steps;
                  }
                  ++done;
               });
            bool a = await([&] { return done == o[1].i; }, [&] { return steps.load(); }), b = true;
            if (a) {
               total += o[1].i * n;
               if (held == "one")
                  for (auto& x : st)
                     if (x.first != st.begin()->first) b = b && await([&] { return x.second->received >= total - base[x.first]; }, [&] { return x.second->received.load(); });
            }
            for (auto& x : st) set(*x.second, true);
            for (auto& t : ts) t.join();
            if (!a) total += o[1].i * n;
            for (int p = 1; p <= o[1].i; ++p) sent[p] += n;
            obs.add(a ? 1 : 0);
            obs.add(b ? 1 : 0);
         } else if (k == "same") { // n messages that are all alike
            gSame = o[2].s;
            for (long i = 0; i < o[1].i; ++i) { LOG(INFO) << gSame; ++gProgress; }
            total += o[1].i;
         } else if (k == "calls") {
            int s = (int)o[1].i;
            if (o[3].s == "all") set(*st[s], false);
            std::vector<std::future<long>> f;
            std::atomic<long> steps{0};
            std::atomic<bool> done{false};
            std::thread t([&] { for (long i = 0; i < o[2].i; ++i) { f.push_back(h[s]->call(&S::twice, i)); ++steps; ++gProgress; } done = true; });
            bool a = await([&] { return done.load(); }, [&] { return steps.load(); });
            set(*st[s], true);
            t.join();
            long right = 0;
            for (size_t i = 0; i < f.size(); ++i) right += f[i].get() == 2 * (long)i;
            obs.add(a ? 1 : 0);
            obs.add(right);
         } else if (k == "remove") {
            int s = (int)o[1].i;
            w->removeSink(std::move(h[s]));
            obs.add(runsOf(s, *st[s]));
            st.erase(s);
         } else if (k == "removing") {
            int s = (int)o[1].i;
            const long n = o[3].i;
            std::string pad((size_t)o[4].i, 'x');
            set(*st[s], false);
            LOG(INFO) << 1 << ":" << sent[1] + 1 << "." << pad << "$";
            ++sent[1];
            std::thread rem([&] { w->removeSink(std::move(h[s])); });
            std::this_thread::sleep_for(std::chrono::milliseconds(30)); // so that the worker usually waits by now
            std::atomic<long> steps{0}, done{0};
            std::vector<std::thread> ts;
            for (int p = 1; p <= o[2].i; ++p)
               ts.emplace_back([&, p] {
                  for (long i = 1; i <= n; ++i) { ++gProgress; LOG(INFO) << p << ":" << sent[p] + i << "." << pad << "$"; ++steps; }
                  ++done;
               });
            bool a = await([&] { return done == o[2].i; }, [&] { return steps.load(); });
            set(*st[s], true);
            for (auto& t : ts) t.join();
            rem.join();
            for (int p = 1; p <= o[2].i; ++p) sent[p] += n;
            total += 1 + o[2].i * n;
            obs.add(a ? 1 : 0);
            obs.add(runsOf(s, *st[s]));
            st.erase(s);
         } else if (k == "end") {
            w.reset();
            for (auto& x : st) obs.add(runsOf(x.first, *x.second));
         }
         ++gProgress;
         mbt::writeAll(fd, mbt::str(obs) + "\n");
      }
      _exit(0);
      }, 550, &end);
      std::istringstream is(got);
      for (auto& o : ops.a) {
         Val e = arr();
         std::string l;
         e.add(o);
         if (std::getline(is, l)) e.add(mbt::parse(l));
         else { Val x = arr(); x.add("the process ended"); x.add(end); e.add(x); res.add(e); break; }
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
