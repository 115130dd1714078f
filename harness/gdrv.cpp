// Messages as values: replays spec/Message.tla's operations.   gdrv in out scratch slots [full]
#include "mbt.h"
#include <g3log/g3log.hpp>
#include <g3log/logmessage.hpp>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
using mbt::Val;
using mbt::arr;
using g3::LogMessage;

static std::string gT1, gT2;
static void subst(std::string& s, const std::string& from, const std::string& to) {
   if (from.empty()) return;
   size_t p = s.find(from);
   if (p != std::string::npos) s.replace(p, from.size(), to);
}
static std::string norm(std::string s, const LogMessage& m) {
   subst(s, m.timestamp(), "@");
   // only the message's own thread id can be in it
   subst(s, " [" + m.threadID() + " ", std::string(" [") + (m.threadID() == gT1 ? "T1" : m.threadID() == gT2 ? "T2" : "?") + " ");
   return s;
}
static std::string custom(const LogMessage& m) { return "<" + m.line() + "|" + m.message() + ">"; }
static LogMessage::LogDetailsFunc fmt(const std::string& f) {
   return f == "default" ? LogMessage::DefaultLogDetailsToString : f == "full" ? LogMessage::FullLogDetailsToString : custom;
}
struct P { std::string path; int line; std::string func; LEVELS lev; long at; std::string txt, expr; };
static const P protos[] = {{"/src/a.cpp", 1, "f", INFO, 86400, "one", ""},
                           {"win\\dir\\b.cpp", 2147483647, "operator()", g3::internal::CONTRACT, 1000000000, "two\nlines", "x == 1 && the_rest_of(this, expression) >= 'rather long' || !that"},
                           {"c.cpp", 0, "", FATAL, 2000000000, "", ""},
                           {"/a b/c/a directory with quite a long name/and another one of those, below it/", 77, "std::vector<int> my::ns::g<int, std::string>(const T&) const", LEVELS{1500, "LEVEL OF THE USER'S OWN, called by a long name"}, 946684799, "100% %s \\", "a"},
                           {"", 3, "h", g3::internal::FATAL_SIGNAL, 1709208000, "signal", ""}};
static std::unique_ptr<LogMessage> make(int k) {
   const P& p = protos[k - 1];
   std::unique_ptr<LogMessage> m;
   auto f = [&] { m = std::make_unique<LogMessage>(p.path, p.line, p.func, p.lev); };
   if (k == 2 || k == 4 || k == 5) m = std::make_unique<LogMessage>(p.path, p.line, p.func, p.lev);
   else f();
   m->_timestamp = g3::high_resolution_time_point(std::chrono::seconds(p.at) + std::chrono::milliseconds(500));
   m->write().append(p.txt);
   m->setExpression(p.expr);
   return m;
}

int main(int argc, char** argv) {
   setenv("TZ", "UTC", 1);
   tzset();
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   const size_t n = (size_t)atoi(argv[4]);
   const bool full = argc > 5;
   // messages 2, 4 and 5 are constructed on a second thread
   struct Job { int k; std::unique_ptr<LogMessage> m; bool ready = false, done = false, stop = false; } job;
   std::mutex mu;
   std::condition_variable cv;
   std::thread other([&] {
      std::unique_lock<std::mutex> l(mu);
      for (;;) {
         cv.wait(l, [&] { return job.ready || job.stop; });
         if (job.stop) return;
         job.m = make(job.k);
         job.ready = false;
         job.done = true;
         cv.notify_all();
      }
   });
   {
      std::ostringstream a, b;
      a << std::this_thread::get_id();
      b << other.get_id();
      gT1 = a.str();
      gT2 = b.str();
   }
   auto create = [&](int k) {
      if (k != 2 && k != 4 && k != 5) return make(k);
      std::unique_lock<std::mutex> l(mu);
      job.k = k;
      job.ready = true;
      job.done = false;
      cv.notify_all();
      cv.wait(l, [&] { return job.done; });
      return std::move(job.m);
   };
   std::string line;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr();
      std::vector<std::unique_ptr<LogMessage>> s(n + 1);
      std::vector<bool> moved(n + 1, false);
      for (size_t k = 0; k < ops.size(); ++k) {
         const Val& o = ops[k];
         const std::string& op = o[0].s;
         const int d = (int)o[1].i, x = (int)o[2].i;
         const std::string& t = o[3].s;
         std::string text;
         auto put = [&](std::unique_ptr<LogMessage> m) { s[d] = std::move(m); moved[d] = false; };
         if (op == "new") put(create(x));
         else if (op == "drop") put(nullptr);
         else if (op == "copy") put(std::make_unique<LogMessage>(*s[x]));
         else if (op == "fatal") {
            g3::FatalMessage f(*s[x], SIGSEGV);
            g3::FatalMessage g(f);
            put(std::make_unique<LogMessage>(g.copyToLogMessage()));
            if (g._signal_id != SIGSEGV) text = "signal lost";
         } else if (op == "movon") {
            g3::LogMessagePtr a{std::make_unique<LogMessage>(*s[x])};
            g3::LogMessagePtr b(a);
            g3::LogMessagePtr c{std::unique_ptr<LogMessage>()};
            c = b;
            g3::LogMessagePtr e(std::move(c));
            put(e.release());
         } else if (op == "vector") {
            std::vector<LogMessage> v;
            for (int r = 0; r < 3; ++r) v.push_back(*s[x]);   // grows, copies or moves its elements
            put(std::make_unique<LogMessage>(v[1]));
         } else if (op == "heap") {
            g3::LogMessageMover a{LogMessage(*s[x])};
            g3::LogMessageMover b(a);
            put(std::make_unique<LogMessage>(b.get()));
         } else if (op == "moved") { put(std::make_unique<LogMessage>(std::move(*s[x]))); moved[x] = true; }
         else if (op == "assign") { *s[d] = *s[x]; moved[d] = false; }
         else if (op == "massign") { *s[d] = std::move(*s[x]); moved[d] = false; moved[x] = true; }
         else if (op == "swap") { swap(*s[d], *s[x]); }
         else if (op == "override") s[d]->overrideLogDetailsFunc(fmt(t));
         else if (op == "text") text = norm(s[d]->toString(fmt(t)), *s[d]);
         else if (op == "write") s[d]->write().append(t);
         else if (op == "expr") s[d]->setExpression(t);
         Val obs = arr();
         if (op == "each") {
            std::vector<std::set<std::string>> texts(n + 1);
            std::vector<std::thread> ts;
            size_t live = 0;
            std::atomic<size_t> ready{0};
            for (size_t j = 1; j <= n; ++j) live += s[j] && !moved[j];
            for (size_t j = 1; j <= n; ++j) if (s[j] && !moved[j]) ts.emplace_back([&, j] {
               const LogMessage mine(*s[j]);
               for (++ready; ready < live;) {}
               for (int r = 0; r < 200; ++r) texts[j].insert(norm(mine.toString(fmt(t)), mine));
            });
            for (auto& x : ts) x.join();
            Val per = arr();
            for (size_t j = 1; j <= n; ++j) {
               Val v = arr();
               for (auto& x : texts[j]) v.add(x);
               per.add(v);
            }
            obs.add(per);
         } else obs.add(text);
         if (full || k + 1 == ops.size()) {
            Val all = arr();
            for (size_t j = 1; j <= n; ++j) {
               Val e = arr();
               if (!s[j]) e.add(0);
               else if (moved[j]) e.add(1);
               else {
                  const LogMessage& m = *s[j];
                  e.add(2);
                  e.add(m.file());
                  e.add(m.file_path());
                  e.add(m.line());
                  e.add(m.function());
                  e.add(m.level());
                  e.add(m._level.value);
                  e.add(m.threadID() == gT1 ? "T1" : m.threadID() == gT2 ? "T2" : m.threadID().c_str());
                  e.add(m.timestamp("%Y/%m/%d %H:%M:%S"));
                  e.add(m.message());
                  e.add(m.expression());
                  e.add(m.wasFatal());
                  e.add(norm(LogMessage::normalToString(m), m));
               }
               all.add(e);
            }
            obs.add(all);
         }
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
