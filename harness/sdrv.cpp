// Capturing: replays spec/Capture.tla's and spec/Statement.tla's operations.   sdrv in out scratch
#include "mbt.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
using mbt::Val;
using mbt::arr;

static std::mutex gM;
static std::condition_variable gCv;
static bool gMarker, gOpen = true;
static std::vector<std::unique_ptr<g3::LogMessage>> gGot;
static void gate() {
   std::unique_lock<std::mutex> l(gM);
   gCv.wait(l, [] { return gOpen; });
}
static void setGate(bool open) {
   std::lock_guard<std::mutex> l(gM);
   gOpen = open;
   gCv.notify_all();
}
struct Rec {
   void rec(g3::LogMessageMover m) {
      gate();
      std::lock_guard<std::mutex> l(gM);
      if (m.get()._level.value == 7777) { gMarker = true; gCv.notify_all(); }
      else gGot.push_back(std::make_unique<g3::LogMessage>(std::move(m.get())));
   }
};
struct Stuck {   // waits inside the first message it gets
   std::shared_ptr<std::promise<void>> entered;
   std::shared_future<void> open;
   void rec(g3::LogMessageMover) {
      if (entered) entered->set_value();
      entered.reset();
      open.wait();
   }
};
static void settle(g3::LogWorker& w) {
   gMarker = false;
   w.save(g3::LogMessagePtr{std::make_unique<g3::LogMessage>("f", 1, "g", LEVELS{7777, "MARK"})});
   std::unique_lock<std::mutex> l(gM);
   gCv.wait(l, [] { return gMarker; });
}
static std::string own(const std::string& s) { return s.substr(0, s.find("\n*******\tSTACKDUMP")); }
static std::string pat(size_t n) {
   std::string s(n, 'a');
   for (size_t k = 0; k < n; ++k) s[k] = char('a' + k % 26);
   return s;
}
static std::string gLine;
static std::string gFn;
static std::thread::id gTid;
static bool yes = true, no = false;
#define SITE(k, X) if (s == k) { gFn = G3LOG_PRETTY_FUNCTION; gTid = std::this_thread::get_id(); gLine = std::to_string(__LINE__); X; return; }
static void site(const std::string& s) {
   SITE("LOG", LOG(INFO) << "site LOG")
   SITE("LOG_IF", LOG_IF(WARNING, yes) << "site LOG_IF")
   SITE("LOGF", LOGF(INFO, "site %s", "LOGF"))
   SITE("LOGF_IF", LOGF_IF(WARNING, yes, "site %s", "LOGF_IF"))
   SITE("CHECK", CHECK(1 == 2 || !yes) << "site CHECK")
   SITE("CHECKF", CHECKF(no, "site %s", "CHECKF"))
   SITE("CHECK_F", CHECK_F(yes && no, "site %s", "CHECK_F"))
   SITE("FATAL", LOG(FATAL) << "site FATAL")
   _exit(98);
}

int main(int, char** argv) {
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<Rec>(), &Rec::rec);
   g3::initializeLogging(w.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
      gate();
      std::lock_guard<std::mutex> l(gM);
      gGot.push_back(std::make_unique<g3::LogMessage>(m.get()->copyToLogMessage()));
   });
   const std::string kLong(5000, 'L');
   auto lng = [&](const std::string& s) { return s == "LONG" ? kLong : s; };
   auto sht = [&](const std::string& s) { return s == kLong ? std::string("LONG") : s; };
   std::string line;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr();
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
      g3::only_change_at_initialization::setMaxMessageSize(2048);
#endif
      for (auto& o : ops.a) {
         Val obs = arr();
         const std::string& f = o[0].s;
         gGot.clear();
         if (f == "limit") {
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
            g3::only_change_at_initialization::setMaxMessageSize((size_t)o[1].i);
#endif
         } else if (f == "stmt" || f == "late") {
            const bool late = f == "late";
            std::unique_ptr<g3::SinkHandle<Stuck>> stuck;
            std::thread remover;
            std::promise<void> open;
            if (late) {   // the worker has to wait for a sink that it takes out
               auto entered = std::make_shared<std::promise<void>>();
               stuck = w->addSink(std::make_unique<Stuck>(Stuck{entered, open.get_future().share()}), &Stuck::rec);
               LOG(INFO) << "stuck";
               entered->get_future().wait();
               settle(*w);
               gGot.clear();
               remover = std::thread([&] { w->removeSink(std::move(stuck)); });
               std::this_thread::sleep_for(std::chrono::milliseconds(5));
            }
            const auto before = std::chrono::high_resolution_clock::now();
            auto run = [&] {
               gTid = std::this_thread::get_id();
               auto file = std::make_unique<std::string>(lng(o[1].s));
               auto func = std::make_unique<std::string>(lng(o[3].s));
               auto expr = std::make_unique<std::string>(lng(o[6].s));
               auto lev = std::make_unique<LEVELS>((int)o[4].i, o[5].s);
               {
                  setGate(lev->value >= 1000);   // a fatal event is handled by its own thread
                  auto c = std::make_unique<LogCapture>(file->c_str(), (int)o[2].i, func->c_str(), *lev, expr->c_str());
                  c->stream() << lng(o[7].s);
               }
               // what it was made of is gone
               for (auto* s : {file.get(), func.get(), expr.get(), &lev->text}) std::fill(s->begin(), s->end(), '#');
               lev->value = -77;
               file.reset(), func.reset(), expr.reset(), lev.reset();
            };
            if (o[8].i && !late) std::thread(run).join(); else run();
            const auto after = std::chrono::high_resolution_clock::now();
            if (late) {
               std::this_thread::sleep_for(std::chrono::milliseconds(o[8].i));
               open.set_value();
               remover.join();
            }
            setGate(true);
            settle(*w);
            obs.add((long)gGot.size());
            if (gGot.size() == 1) {
               auto& m = *gGot[0];
               obs.add(sht(m.file()));
               obs.add(sht(m.file_path()));
               obs.add(m.line());
               obs.add(sht(m.function()));
               obs.add(m._level.value);
               obs.add(m.level());
               obs.add(sht(m.expression()));
               obs.add(sht(m.wasFatal() ? own(m.message()) : m.message()));
               obs.add(m._call_thread_id == gTid ? 1 : 0);
               obs.add(m._timestamp >= before && m._timestamp <= after ? 1 : 0);
            }
         } else if (f == "site") {
            const auto before = std::chrono::high_resolution_clock::now();
            if (o[8].i) std::thread([&] { site(o[1].s); }).join(); else site(o[1].s);
            const auto after = std::chrono::high_resolution_clock::now();
            settle(*w);
            obs.add((long)gGot.size());
            if (gGot.size() == 1) {
               auto& m = *gGot[0];
               std::string path = __FILE__;
#ifdef G3_LOG_FULL_FILENAME
               const std::string file = path;
#else
               const std::string file = path.substr(path.find_last_of("/") + 1);
#endif
               obs.add(m.file() == file ? "HERE" : m.file().c_str());
               obs.add(m.file_path() == path ? "HERE" : m.file_path().c_str());
               obs.add(m.line() == gLine ? "HERE" : m.line().c_str());
               obs.add(m.function() == gFn ? "HERE" : m.function().c_str());
               obs.add(m._level.value);
               obs.add(m.level());
               obs.add(sht(m.expression()));
               obs.add(m.wasFatal() ? own(m.message()) : m.message());
               obs.add(m._call_thread_id == gTid ? 1 : 0);
               obs.add(m._timestamp >= before && m._timestamp <= after ? 1 : 0);
            }
         } else if (f == "together") {
            const int threads = 4, rounds = 40;
            const size_t n = (size_t)o[1].i;
            const std::string big = pat(n + threads + 1), &k = o[3].s;
            std::atomic<int> ready{0};
            std::vector<std::thread> ts;
            for (int t = 1; t <= threads; ++t) ts.emplace_back([&, t] {
               const std::string p = big.substr((size_t)t, n);
               for (++ready; ready < threads;) {}
               for (int r = 0; r < rounds; ++r) {
                  if (k == "LOGF") LOGF((LEVELS{300, "T" + std::to_string(t)}), "%s", p.c_str());
                  else if (k == "LOGF_IF") LOGF_IF((LEVELS{300, "T" + std::to_string(t)}), yes, "%s", p.c_str());
                  else LOG((LEVELS{300, "T" + std::to_string(t)})) << p.substr(0, n / 2) << p.substr(n / 2);
               }
            });
            for (auto& t : ts) t.join();
            settle(*w);
            for (int t = 1; t <= threads; ++t) {
               long count = 0;
               std::set<std::string> texts;
               for (auto& m : gGot) if (m->level() == "T" + std::to_string(t)) { ++count; texts.insert(m->message()); }
               Val e = arr(), v = arr();
               for (auto& x : texts) v.add(x);
               e.add(count);
               e.add(v);
               obs.add(e);
            }
         } else {
            const int n = (int)o[1].i;
            const std::string& k = o[3].s;
            const std::string p = f == "width" || f == "pct" ? "" : pat((size_t)n);
            auto run = [&] {
               if (f == "stream") {
                  if (k == "LOG") LOG(INFO) << p.substr(0, p.size() / 3) << p.substr(p.size() / 3);
                  else if (k == "LOG_IF") LOG_IF(INFO, yes) << p;
                  else CHECK(no) << p;
               } else if (f == "s") {
                  if (k == "LOGF") LOGF(INFO, "%s", p.c_str());
                  else if (k == "LOGF_IF") LOGF_IF(INFO, yes, "%s", p.c_str());
                  else if (k == "CHECKF") CHECKF(no, "%s", p.c_str());
                  else if (k == "CHECK_F") CHECK_F(no, "%s", p.c_str());
                  else LOGF(FATAL, "%s", p.c_str());
               } else if (f == "lit") LOGF(INFO, p.c_str());
               else if (f == "two") LOGF(INFO, "%.*s%s", n / 2, p.c_str(), p.c_str() + n / 2);
               else if (f == "num") LOGF(INFO, "%d%c%s", -42, '|', p.c_str());
               else if (f == "width") LOGF(INFO, "%*s", n + 1, "x");
               else if (f == "pct") { std::string q(2 * (size_t)n, '%'); LOGF(INFO, q.c_str()); }
            };
            if (o[4].i) std::thread(run).join(); else run();
            settle(*w);
            std::string all;
            for (auto& m : gGot) all += (&m == &gGot[0] ? "" : "<AND>") + (m->wasFatal() ? own(m->message()) : m->message());
            obs.add(gGot.empty() ? "<NONE>" : all);
         }
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
