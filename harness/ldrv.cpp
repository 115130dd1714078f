// Run-time levels: replays operation sequences (spec/Levels.tla).
#include "mbt.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
using mbt::Val;
using mbt::arr;

static std::vector<long> gGot, gFatal;
static std::mutex gM;
static std::condition_variable gCv;
static bool gMarker;
struct Rec {
   void rec(g3::LogMessageMover m) {
      std::lock_guard<std::mutex> l(gM);
      if (m.get()._level.value == 7777) { gMarker = true; gCv.notify_all(); }
      else gGot.push_back(m.get()._level.value);
   }
};
// everything sent before has been received: a message that does not go through a logging statement follows it
static void settle(g3::LogWorker& w) {
   gMarker = false;
   w.save(g3::LogMessagePtr{std::make_unique<g3::LogMessage>("f", 1, "g", LEVELS{7777, "MARK"})});
   std::unique_lock<std::mutex> l(gM);
   gCv.wait(l, [] { return gMarker; });
}
static const LEVELS kC50{-50, "C50"}, kC400{400, "C400"}, kC1500{70000, "C1500"}, kU700{700, "U700"};

static Val table() {
   Val t = arr();
   for (auto& p : g3::log_levels::getAll()) {
      Val e = arr();
      e.add(p.first);
      e.add(p.second.level.value == p.first ? p.second.level.text : "?" + p.second.level.text);
      e.add((long)p.second.status.value());
      t.add(e);
   }
   return t;
}

int main(int argc, char** argv) {
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   const bool full = argc > 4;
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<Rec>(), &Rec::rec);
   g3::initializeLogging(w.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { gFatal.push_back(m.get()->_level.value); });
   std::string line;
   namespace L = g3::log_levels;
   namespace I = g3::only_change_at_initialization;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr();
      I::reset();
      for (size_t k = 0; k < ops.size(); ++k) {
         const Val& o = ops[k];
         LEVELS lv{(int)o[1].i, o[2].s};
         const std::string& n = o[0].s;
         const bool b = o[3].i;
         if (n == "add") I::addLogLevel(lv, b);
         else if (n == "add1") I::addLogLevel(lv);
         else if (n == "set") L::set(lv, b);
         else if (n == "enable") L::enable(lv);
         else if (n == "disable") L::disable(lv);
         else if (n == "highest") L::setHighest(lv);
         else if (n == "enableAll") L::enableAll();
         else if (n == "disableAll") L::disableAll();
         else if (n == "reset") I::reset();
         Val obs = arr();
         if (full || k + 1 == ops.size()) {
            obs.add(table());
            obs.add(L::to_string());
            Val q = arr();
            const LEVELS all[] = {kU700, kC50, G3LOG_DEBUG, INFO, kC400, WARNING, FATAL, kC1500};
            for (auto& l : all) {
               Val e = arr();
               e.add(l.value);
               e.add((long)g3::logLevel(l));
               auto s = L::getStatus(l);
               e.add(s == L::status::Absent ? 0 : s == L::status::Disabled ? 1 : 2);
               q.add(e);
            }
            obs.add(q);
            obs.add(table());
            gGot.clear();
            gFatal.clear();
            LOG(kC50) << "x";
            LOG(G3LOG_DEBUG) << "x";
            LOG(INFO) << "x";
            LOGF(kC400, "%d", 1);
            LOG_IF(WARNING, true) << "x";
            LOG(kU700) << "x";
            LOGF_IF(kU700, true, "%s", "x");
            LOG(FATAL) << "x";
            LOG(kC1500) << "x";
            settle(*w);
            Val g = arr(), f = arr();
            for (long v : gGot) g.add(v);
            for (long v : gFatal) f.add(v);
            obs.add(g);
            obs.add(f);
            obs.add(table());
         }
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
