// Driver of the concurrency building blocks: shared_queue, Active, spawn_task.   Arguments as pdrv.
//   T n OP...: script of thread n (0: the main thread, which starts the others first and joins them at the end)
//   K f KIND OP | OP ...: what task f does; KIND: v value, p move-only value, n nothing, x throws
#include "rtmain.h"
#include <g3log/active.hpp>
#include <g3log/future.hpp>
#include <g3log/shared_queue.hpp>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <thread>

struct Op { std::string k; std::vector<int> a; };
struct Task { char kind = 'n'; std::vector<Op> ops; };
struct Scenario { std::string id; std::map<int, std::vector<Op>> threads; std::map<int, Task> tasks; int queues = 1, actives = 0; int bound = -1; long cap = 0; };
static Scenario* gS;

typedef std::unique_ptr<int> Item; // an item that cannot be copied
static std::vector<std::unique_ptr<shared_queue<Item>>>& Q = *new std::vector<std::unique_ptr<shared_queue<Item>>>;
static std::vector<kjellkod::Active*>& A = *new std::vector<kjellkod::Active*>; // tasks use it while it is being destroyed
struct Fut { std::shared_future<int> v; std::shared_future<Item> p; std::shared_future<void> n; char kind = 0; };
static std::map<int, Fut>& F = *new std::map<int, Fut>;
static std::mutex& fm = *new std::mutex;
struct Ex { int f; };

enum { PUSH = 1, TRY, WAIT, EMPTY, SIZE, SEND, SPAWN, NUL, GET, DEL };
static void exec(const Op& o);
static void call(int op, int x, int y) { rt_ev(1, op, x, y, 0); }
static void ret(int op, int x, int y, int r) { rt_ev(2, op, x, y, r); }

static void body(int a, int f) {
   rt_ev(3, 0, a, f, 0);
   const Task& t = gS->tasks[f];
   for (auto& o : t.ops) exec(o);
   rt_ev(4, 0, a, f, t.kind == 'x' ? 2 : 1);
}

static void spawn(kjellkod::Active* w, int op, int a, int f) {
   Fut u;
   u.kind = gS->tasks[f].kind;
   call(op, a, f);
   if (u.kind == 'p') u.p = g3::spawn_task([a, f] { body(a, f); return Item(new int(f)); }, w).share();
   else if (u.kind == 'n') u.n = g3::spawn_task([a, f] { body(a, f); }, w).share();
   else if (u.kind == 'x') u.v = g3::spawn_task([a, f]() -> int { body(a, f); throw Ex{f}; }, w).share();
   else u.v = g3::spawn_task([a, f] { body(a, f); return f; }, w).share();
   ret(op, a, f, 0);
   std::lock_guard<std::mutex> l(fm);
   F[f] = u;
}

// 1: its value, 2: its exception, 3: broken promise, 4: the exception for no worker, 5: anything else
static int outcome(int f) {
   Fut u;
   { std::lock_guard<std::mutex> l(fm); u = F[f]; }
   try {
      if (u.kind == 'p') return *u.p.get() == f ? 1 : 5;
      if (u.kind == 'n') { u.n.get(); return 1; }
      return u.v.get() == f ? 1 : 5;
   } catch (const Ex& e) { return e.f == f ? 2 : 5;
   } catch (const std::future_error& e) { return e.code() == std::future_errc::broken_promise ? 3 : 5;
   } catch (const std::runtime_error&) { return 4;
   } catch (...) { return 5; }
}

static void exec(const Op& o) {
   const std::string& k = o.k;
   const int x = o.a[0], y = o.a.size() > 1 ? o.a[1] : 0;
   if (k == "push") { call(PUSH, x, y); Q[x]->push(Item(new int(y))); ret(PUSH, x, y, 0); }
   else if (k == "try") { Item i; call(TRY, x, 0); bool got = Q[x]->try_and_pop(i); ret(TRY, x, 0, got ? (i ? *i : -1) : (i ? -2 : 0)); }
   else if (k == "wait") { Item i; call(WAIT, x, 0); Q[x]->wait_and_pop(i); ret(WAIT, x, 0, i ? *i : -1); }
   else if (k == "empty") { call(EMPTY, x, 0); bool e = Q[x]->empty(); ret(EMPTY, x, 0, e); }
   else if (k == "size") { call(SIZE, x, 0); unsigned n = Q[x]->size(); ret(SIZE, x, 0, (int)n); }
   else if (k == "send") { call(SEND, x, y); A[x]->send([x, y] { body(x, y); }); ret(SEND, x, y, 0); }
   else if (k == "spawn") spawn(A[x], SPAWN, x, y);
   else if (k == "null") spawn(nullptr, NUL, 0, x);
   else if (k == "get") {
      { std::lock_guard<std::mutex> l(fm); if (!F.count(x)) return; }
      call(GET, 0, x);
      int r = outcome(x);
      ret(GET, 0, x, r);
   }
   else if (k == "del") { call(DEL, x, 0); delete A[x]; ret(DEL, x, 0, 0); }
   else if (k == "P") { for (int i = 0; i < x; ++i) rt_point(); }
   else _exit(99);
}

static void script(int t) {
   for (auto& o : gS->threads[t]) exec(o);
   rt_ev(5, 0, 0, 0, 0);
}

static void child(const Scenario& s, const rt_config& cfg) {
   struct rlimit r{0, 0}, cpu{20, 20};
   setrlimit(RLIMIT_CORE, &r);
   setrlimit(RLIMIT_CPU, &cpu);
   FILE* f = freopen("/dev/null", "w", stderr); (void)f;
   std::set_terminate([] { _exit(78); });
   rt_begin(&cfg);
   for (int k = 0; k < s.queues; ++k) Q.push_back(std::make_unique<shared_queue<Item>>());
   for (int k = 0; k < s.actives; ++k) A.push_back(kjellkod::Active::createActive().release());
   std::vector<std::thread> ts;
   for (auto& kv : s.threads) if (kv.first > 0 && kv.first < 100) ts.emplace_back(script, kv.first);
   script(0);
   for (auto& t : ts) t.join();
   script(100); // what the main thread does when the others are done
   _exit(0);
}

static std::vector<Scenario> load(const char* path) {
   std::vector<Scenario> v;
   std::ifstream in(path);
   std::string line;
   auto op = [](std::istream& is) { Op o; is >> o.k; std::string x; while (is >> x && x != "|") o.a.push_back(atoi(x.c_str())); return o; };
   while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string w;
      if (!(is >> w)) continue;
      if (w == "scn") { v.emplace_back(); is >> v.back().id >> v.back().queues >> v.back().actives; v.back().threads[0]; v.back().threads[100]; }
      else if (w == "T") { int t; is >> t; v.back().threads[t].push_back(op(is)); }
      else if (w == "K") {
         int f; Task t;
         is >> f >> t.kind;
         while (is.good()) { Op o = op(is); if (!o.k.empty()) t.ops.push_back(o); }
         v.back().tasks[f] = t;
      } else if (w == "sys") is >> v.back().bound >> v.back().cap;
   }
   return v;
}
static void prepare(Scenario& s) { gS = &s; }
static std::string extra(Scenario&) { return "[]"; }
int main(int argc, char** argv) {
   if (argc < 7) return 2;
   return runAll(load(argv[1]), argv, prepare, child, extra);
}
