// Statements: replays spec/Macros.tla's operations, in every statement context.
#include "mbt.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
using mbt::Val;
using mbt::arr;

static std::mutex gM;
static std::condition_variable gCv;
static bool gMarker;
static Val gGot, gFatal;
static Val pr(long l, const std::string& t) { Val e = arr(); e.add(l); e.add(t); return e; }
struct Rec {
   void rec(g3::LogMessageMover m) {
      std::lock_guard<std::mutex> l(gM);
      if (m.get()._level.value == 7777) { gMarker = true; gCv.notify_all(); }
      else gGot.add(pr(m.get()._level.value, m.get().message()));
   }
};
static void settle(g3::LogWorker& w) {
   gMarker = false;
   w.save(g3::LogMessagePtr{std::make_unique<g3::LogMessage>("f", 1, "g", LEVELS{7777, "MARK"})});
   std::unique_lock<std::mutex> l(gM);
   gCv.wait(l, [] { return gMarker; });
}

static int nCond, nArg, nOther, nAfter;
static bool gC;
static const LEVELS* gL;
static bool C() { ++nCond; return gC; }
static int CI() { ++nCond; return gC ? 2 : 0; }
static int A() { ++nArg; return 7; }
static bool T() { return true; }
static bool F() { return false; }
static int inner() { LOG(INFO) << "inner"; return A(); }
static int offer() {
#ifdef G3_DYNAMIC_LOGGING
   g3::log_levels::disable(*gL);
#endif
   return A();
}
static void other() { ++nOther; }

// the contexts, for a statement X
#define CONTEXTS(X)                                                     \
   if (ctx == "plain") { X; ++nAfter; return; }                         \
   if (ctx == "then") { if (t) X; ++nAfter; return; }                   \
   if (ctx == "else") { if (t) other(); else X; ++nAfter; return; }     \
   if (ctx == "thenelse") { if (t) X; else other(); ++nAfter; return; } \
   if (ctx == "nested") { if (T()) if (t) X; else other(); else F(); ++nAfter; return; } \
   if (ctx == "for") { for (int k = 0; k < (t ? 3 : 0); ++k) X; ++nAfter; return; } \
   if (ctx == "while") { int k = t ? 3 : 0; while (k-- > 0) X; ++nAfter; return; } \
   if (ctx == "do") { do X; while (F()); ++nAfter; return; }            \
   if (ctx == "switch") { switch ((int)t) { case 1: X; break; default: other(); } ++nAfter; return; } \
   if (ctx == "lambda") { [&] { X; }(); ++nAfter; return; }             \
   if (ctx == "label") { goto here; here: X; ++nAfter; return; }        \
   if (ctx == "range") { std::vector<int> v(t ? 3 : 0); for (int k : v) X; ++nAfter; return; }

#define CASE(k, s, X) \
   fns[std::string(k) + " " + s] = [](const std::string& ctx, bool t) { CONTEXTS(X) _exit(98); };
#define L *gL
#define CONDS(s, ...)                                        \
   CASE("LOG_IF", s, LOG_IF(L, __VA_ARGS__) << "a" << A())   \
   CASE("LOGF_IF", s, LOGF_IF(L, (__VA_ARGS__), "a%d", A())) \
   CASE("CHECK", s, CHECK(__VA_ARGS__) << "a" << A())        \
   CASE("CHECKF", s, CHECKF(__VA_ARGS__, "a%d", A()))        \
   CASE("CHECK_F", s, CHECK_F(__VA_ARGS__, "a%d", A()))

int main(int, char** argv) {
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::map<std::string, std::function<void(const std::string&, bool)>> fns;
   CASE("LOG", "-", LOG(L) << "a" << A())
   CASE("LOG2", "-", LOG(L) << "a" << A() << "b" << A())
   CASE("LOGF", "-", LOGF(L, "a%d", A()))
   CASE("LOGF0", "-", LOGF(L, "text"))
   CASE("LOGN", "-", LOG(L) << "a" << inner())
   CASE("LOGD", "-", LOG(L) << "a" << offer())
   CONDS("plain", C())
   CONDS("or", F() || C())
   CONDS("and", T() && C())
   CONDS("ne", C() != false)
   CONDS("int", CI())
   CONDS("tern", T() ? C() : F())
   CONDS("less", 0 < CI())
   const LEVELS kU700{700, "U700"}, kC1500{1500, "C1500"};
   const std::map<long, const LEVELS*> levels{{0, &INFO}, {300, &INFO}, {500, &WARNING}, {700, &kU700}, {1000, &FATAL}, {1500, &kC1500}};
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<Rec>(), &Rec::rec);
   g3::initializeLogging(w.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { gFatal.add(pr(m.get()->_level.value, m.get()->message())); });
   std::string line;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr();
#ifdef G3_DYNAMIC_LOGGING
      g3::only_change_at_initialization::reset();
      g3::only_change_at_initialization::addLogLevel(kC1500);
#endif
      for (auto& o : ops.a) {
         Val obs = arr();
         if (o[0].s == "level") {
#ifdef G3_DYNAMIC_LOGGING
            g3::log_levels::set(*levels.at(o[1].i), o[2].i);
#endif
         } else {
            nCond = nArg = nOther = nAfter = 0;
            gGot = arr();
            gFatal = arr();
            gL = levels.at(o[3].i);
            gC = o[4].i;
            fns.at(o[1].s + " " + o[2].s)(o[5].s, o[6].i);
            settle(*w);
            obs.add(nCond);
            obs.add(nArg);
            obs.add(gGot);
            // the stack dump is part of a fatal message's text: what was written comes first
            Val f = arr();
            for (auto& e : gFatal.a) f.add(pr(e[0].i, e[1].s.substr(0, e[1].s.find("\n*******\tSTACKDUMP"))));
            obs.add(f);
            obs.add(nOther);
            obs.add(nAfter);
         }
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
