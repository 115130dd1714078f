// Pipeline driver: runs scenarios (text files) against the real g3log under the controlled scheduler, each in a forked
// child, and writes one JSON line per distinct event trace.
//   pdrv SCENARIOS OUT SCRATCH RUNS SEED POLICY
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/logmessage.hpp>
#include <g3log/filesink.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/crashhandler.hpp>
#include "rt.h"
#include "text.h"
#include "rtmain.h"
#include <condition_variable>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <malloc.h>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <thread>
#include <unistd.h>
#include <vector>

enum Ev { LOGC = 1, LOGR, ADDC, ADDR, RMC, RMR, CLRC, CLRR, DC, DR, INITC, INITR, RECVB, RECVE, EXECB, EXECE, SDTOR, HCC, HCR,
          FUTC, FUTR, CERR, FATC, FATR, HOOKB, HOOKE, HANDB, HANDE, WORKER, SETHOOKC, SETHOOKR, SETHANDC, SETHANDR, SHUTC, SHUTR,
          HOLDC, HOLDR, DROPC, DROPR, CONT, CATCH };

static const int WARNID = 900000;

struct Op { std::string k; std::vector<std::string> a; int i(size_t n) const { return n < a.size() ? atoi(a[n].c_str()) : 0; } };
struct SinkDef { char kind = 'S'; int gate = -1; int logs = -1; std::string fatal; int gateOnce = 0; };
struct Scenario { std::string id; std::map<int, std::vector<Op>> threads; std::map<int, SinkDef> sinks; std::map<int, int> size; std::set<int> same; int bound = -1; long cap = 0; };

static Scenario* gS;
static std::string gScratch;

// ---------------------------------------------------------------- messages
static std::string body(int m) {
   if (gS->same.count(m)) return "<q" + std::string((size_t)gS->size[0], '=') + "q>"; // messages with one and the same text: told apart by the line
   auto it = gS->size.find(m);
   return tx_body(m, it != gS->size.end() ? (size_t)it->second : 8);
}
// what stands around the tagged text: line ends, blanks, what a printf-like function would take for directives
static const char* edge(int m, int side) {
   static const char* const e[7][2] = {{"", ""}, {"", "\n"}, {"\n", ""}, {"", "  "}, {"\t ", "\n\n"}, {"", "\r\n"}, {"%s%n", "\xff%d"}};
   auto it = gS->size.find(m);
   if (m < 0 || !gS->same.empty() || (it != gS->size.end() && it->second > 1900)) return "";
   return e[m % 7][side];
}
static std::string full(int m) { return edge(m, 0) + body(m) + edge(m, 1); }
// is the text of message m, as it was logged, at the tag found at p? (its end might come with a later write)
static bool fullAt(const std::string& a, size_t p, int m, bool complete) {
   const std::string pre = edge(m, 0), rest = body(m) + edge(m, 1);
   if (p < pre.size() || a.compare(p - pre.size(), pre.size(), pre) != 0) return false;
   if (complete || a.size() >= p + rest.size()) return a.compare(p, rest.size(), rest) == 0;
   const std::string b = body(m);
   return a.compare(p, b.size(), b) == 0;
}
static const int SAMELINE = 1000000;
static int idOf(const std::string& s, size_t from = 0) { // id of the first complete tag
   if (!gS->same.empty()) {
      size_t q = s.find("->same:");
      if (q != std::string::npos) return atoi(s.c_str() + q + 7) - SAMELINE;
   }
   size_t p = s.find("<m", from);
   if (p == std::string::npos) {
      if (s.find("the ID of the Logger is not the one that is active") != std::string::npos) return WARNID;
      return -1;
   }
   int m = atoi(s.c_str() + p + 2);
   std::string end = "|m" + std::to_string(m) + ">";
   return s.find(end, p) == std::string::npos ? -2 - m : m;
}

struct Meta { std::string file, func, level; int line; std::thread::id tid; };
static std::map<int, Meta>& gMeta = *new std::map<int, Meta>; // filled before threads start or under gm
static std::mutex& gm = *new std::mutex;
static std::condition_variable& gcv = *new std::condition_variable;
static std::set<int>& gOpen = *new std::set<int>;
static std::map<int, int>&gRecv = *new std::map<int, int>, &gExec = *new std::map<int, int>, &gSinkDead = *new std::map<int, int>;
static int gHandlerCount = 0;

static void metaSet(int m, const char* file, int line, const char* func, const std::string& level) {
   std::lock_guard<std::mutex> l(gm);
   gMeta[m] = Meta{file, func, level, line, std::this_thread::get_id()};
}

enum { BIT_TEXT = 1, BIT_META = 2, BIT_STACK = 4, BIT_REASON = 8, BIT_FLUSH = 16, BIT_RECUR = 32, BIT_EARLY = 64, BIT_KIND = 128 };
static std::map<int, std::string>& gFatalKind = *new std::map<int, std::string>; // m -> kind
static int gSigOf(const std::string& k) {
   if (k == "SEGV" || k == "segv") return SIGSEGV;
   if (k == "FPE") return SIGFPE;
   if (k == "ILL") return SIGILL;
   if (k == "TERM") return SIGTERM;
   return SIGABRT;
}
static const char* sigName(int s) {
   switch (s) { case SIGSEGV: return "SIGSEGV"; case SIGFPE: return "SIGFPE"; case SIGILL: return "SIGILL"; case SIGTERM: return "SIGTERM"; }
   return "SIGABRT";
}

// raised signals carry no user text: the message is recognised by its signal line
static int fatalSignalId(const std::string& s) {
   size_t p = s.find("Received fatal signal: ");
   if (p == std::string::npos) return -1;
   for (auto& kv : gFatalKind)
      if (kv.first >= 800000) {
         int sg = gSigOf(kv.second);
         std::string want = std::string("Received fatal signal: ") + sigName(sg) + "(" + std::to_string(sg) + ")";
         if (s.compare(p, want.size(), want) == 0) return kv.first;
      }
   return -1;
}
static int anyId(const std::string& s) {
   int f = fatalSignalId(s);
   if (f >= 0) return f;
   return idOf(s);
}

enum { NFRAMES = 24 };
static int frameOf(int m) { return (m % 100 + (m >= 800000 ? 12 : 0)) % NFRAMES; }
static std::vector<std::pair<int, int>>& gFatalOrder = *new std::vector<std::pair<int, int>>; // fatal events: id, thread
static size_t gInitAt = 0;                                                                   // how many there were at the last initialization
// the innermost frame of a fatal event in a stack dump
static int frameIn(const std::string& s, size_t from, size_t to) {
   size_t p = s.find("g3vframe<", from);
   if (p == std::string::npos || p >= to) return -1;
   return atoi(s.c_str() + p + 9);
}
static bool firstDumpOk(const std::string& s, size_t from, size_t to) {
   int f = frameIn(s, from, to);
   std::lock_guard<std::mutex> l(gm);
   std::set<int> tids;
   for (size_t i = gInitAt; i < gFatalOrder.size(); ++i) tids.insert(gFatalOrder[i].second);
   for (size_t i = gInitAt; i < gFatalOrder.size(); ++i) {
      if (frameOf(gFatalOrder[i].first) == f) return true;
      if (tids.size() == 1) return false; // one thread: it has to be the first one
   }
   return false;
}

static const char* const kLong = "m < 0 && \"100% of what a rather long contract says, \\\\n with (brackets) and {braces}, is kept\" != nullptr";
static int fatalBits(const std::string& s, int m) { // what the text of a fatal message contains
   int b = 0;
   std::string k;
   { std::lock_guard<std::mutex> l(gm); k = gFatalKind[m]; }
   int sg = gSigOf(k);
   if (m >= 800000) {
      if (s.find("PID: " + std::to_string(getpid())) != std::string::npos) b |= BIT_TEXT;
      if (s.find(std::string("***** SIGNAL ") + sigName(sg) + "(signo= " + std::to_string(sg)) != std::string::npos) b |= BIT_KIND;
   } else {
      if (s.find(full(m)) != std::string::npos) b |= BIT_TEXT;
   }
   size_t st = s.find("STACKDUMP"), rc = s.find("recursive crash detected");
   if (st != std::string::npos && s.find("stack dump [1]", st) != std::string::npos && frameIn(s, st, rc) == frameOf(m)) b |= BIT_STACK;
   if (s.find(std::string("Fatal type:  ") + sigName(sg)) != std::string::npos) b |= BIT_REASON;
   if (s.find("flushed successfully") != std::string::npos) b |= BIT_FLUSH;
   if (rc != std::string::npos) {
      size_t e = s.find("End of first stacktrace", rc);
      if (e != std::string::npos && s.find("stack dump [1]", rc) < e && firstDumpOk(s, rc, e)) b |= BIT_RECUR;
      else b |= 256; // says it is not the first one, but shows something else
   }
   return b;
}

// fatal levels of the user's own
static int disaster(int m) {
   static const int v[] = {2147483647, 1077, 4711, 1001, 9999, 2101};
   return FATAL.value - 1000 + v[m % 6];
}
static int bitsOf(const std::string& text, const g3::LogMessage* lm, int m, bool formatted) {
   int bits = 0;
   bool fatal;
   { std::lock_guard<std::mutex> l(gm); fatal = gFatalKind.count(m) > 0; }
   if (m == WARNID) return BIT_TEXT | BIT_META;
   if (fatal) {
      bits |= fatalBits(text, m);
      std::string kind;
      { std::lock_guard<std::mutex> l(gm); kind = gFatalKind[m]; }
      std::string all = lm ? lm->toString() : text;
      if (m >= 800000) {
         if (all.find("FATAL SIGNAL RECEIVED") == std::string::npos || (lm && lm->_level.value != g3::internal::FATAL_SIGNAL.value)) bits &= ~BIT_KIND;
      } else if (kind[0] == 'C') {
         const std::string expr = kind == "CHECKL" ? kLong : "m < 0";
         if (all.find("broken Contract: CHECK(" + expr + ")") != std::string::npos && (!lm || (lm->expression() == expr && lm->_level.value == g3::internal::CONTRACT.value))) bits |= BIT_KIND;
      } else if (kind == "XLOG") {
         if (all.find("Custom made Log Message Type") != std::string::npos && (!lm || lm->_level.value == disaster(m))) bits |= BIT_KIND;
      } else if (all.find("caused by LOG(FATAL)") != std::string::npos && (!lm || lm->_level.value == FATAL.value)) bits |= BIT_KIND;
   }
   else {
      std::string want = full(m);
      std::string early = "LOGGER NOT INITIALIZED:\n\t\t" + want;
      if (!formatted) {
         if (text == want) bits |= BIT_TEXT;
         else if (text == early) bits |= BIT_TEXT | BIT_EARLY;
      } else {
         auto ends = [&](const std::string& e) { return text.size() >= e.size() && text.compare(text.size() - e.size(), e.size(), e) == 0; };
         if (ends(early + "\n")) bits |= BIT_TEXT | BIT_EARLY;
         else if (ends("]\t" + want + "\n")) bits |= BIT_TEXT;
      }
   }
   Meta me;
   { std::lock_guard<std::mutex> l(gm); auto it = gMeta.find(m); if (it == gMeta.end()) { return bits | (m >= 800000 ? BIT_META : 0); } me = it->second; }
   if (lm != nullptr) {
      std::ostringstream ts;
      ts << me.tid;
      if (lm->file_path() == me.file && lm->line() == std::to_string(me.line) && lm->function().find(me.func) != std::string::npos &&
          lm->level() == me.level && lm->threadID() == ts.str()) bits |= BIT_META;
   } else {
      std::string base = me.file.substr(me.file.find_last_of('/') + 1);
      std::string needle = me.level + " [" + base + "->";
      std::string line = ":" + std::to_string(me.line) + "]\t";
      if (text.find(needle) != std::string::npos && text.find(line) != std::string::npos) bits |= BIT_META;
   }
   return bits;
}

// ---------------------------------------------------------------- standard error
struct CerrBuf : std::streambuf {
   // only complete tags matter; text is collected for each thread because threads' outputs may interleave
   std::map<int, std::string> acc;
   void feed(const char* s, size_t n) {
      rt_text(s, n);
      std::string& a = acc[rt_tid()];
      a.append(s, n);
      for (;;) {
         size_t p = a.find("<m"), same = a.find("->same:");
         if (same != std::string::npos && (p == std::string::npos || same < p)) {
            size_t b = a.find("<q", same), e = a.find("q>", same);
            if (e == std::string::npos) return;
            int m = atoi(a.c_str() + same + 7) - SAMELINE;
            rt_ev(CERR, m, a.compare(b, e + 2 - b, body(m)) == 0 ? 1 : 0, 0, 0);
            a.erase(0, e + 2);
            continue;
         }
         if (p == std::string::npos) {
            size_t q = a.find("Received fatal signal: ");
            if (q != std::string::npos && a.find("flushed successfully", q) != std::string::npos) {
               int id = fatalSignalIdNoLock(a);
               rt_ev(CERR, id, 0, 0, 0);
               a.clear();
               continue;
            }
            if (q != std::string::npos && a.find("CAUSE", 0) != std::string::npos && a.find("Message:", 0) != std::string::npos && a.find("\n", q) != std::string::npos) {
               int id = fatalSignalIdNoLock(a);
               rt_ev(CERR, id, 0, 0, 0);
               a.clear();
               continue;
            }
            if (a.find("illegal initialization") != std::string::npos) { rt_ev(CERR, 700000, 0, 0, 0); a.clear(); continue; }
            if (q == std::string::npos && a.size() > 200000) a.erase(0, 100000);
            return;
         }
         int m = atoi(a.c_str() + p + 2);
         std::string end = "|m" + std::to_string(m) + ">";
         size_t e = a.find(end, p);
         if (e == std::string::npos) return;
         bool ok = fullAt(a, p, m, false);
         rt_ev(CERR, m, ok ? 1 : 0, 0, 0);
         a.erase(0, e + end.size());
      }
   }
   static int fatalSignalIdNoLock(const std::string& s) { return fatalSignalId(s); }
   std::streamsize xsputn(const char* s, std::streamsize n) override { feed(s, (size_t)n); return n; }
   int overflow(int c) override { char ch = (char)c; feed(&ch, 1); return c; }
};

// ---------------------------------------------------------------- sinks
static void doFatal(const std::string& kind, int m);
static void logMessage(int m, const std::string& style, int inner = 0);

static void waitGate(int g) {
   std::unique_lock<std::mutex> l(gm);
   while (!gOpen.count(g)) gcv.wait(l);
}
static void openGate(int g) {
   { std::lock_guard<std::mutex> l(gm); gOpen.insert(g); }
   gcv.notify_all();
}

struct MyErr : std::runtime_error { int c; explicit MyErr(int c_) : std::runtime_error("call " + std::to_string(c_)), c(c_) {} };

struct Rec {
   int id;
   SinkDef def;
   int seen = 0;
   Rec(int i, const SinkDef& d) : id(i), def(d) {}
   ~Rec() {
      rt_ev(SDTOR, id, seen, 0, 0);
      { std::lock_guard<std::mutex> l(gm); gSinkDead[id] = 1; }
      gcv.notify_all();
      id = -777;
   }
   void behave(int m) {
      if (def.gate >= 0 && (!def.gateOnce || seen == 0)) waitGate(def.gate);
      rt_point();
      if (def.logs >= 0 && m == def.logs) logMessage(600000 + m, "s");
      if (!def.fatal.empty() && m == atoi(def.fatal.c_str())) doFatal(def.fatal.substr(def.fatal.find(':') + 1), 500000 + m);
      ++seen;
   }
   void done(int m) {
      rt_ev(RECVE, id, m, 0, 0);
      { std::lock_guard<std::mutex> l(gm); ++gRecv[id]; }
      gcv.notify_all();
   }
   void recvString(std::string s) {
      int m = anyId(s);
      int bits = bitsOf(s, nullptr, m, true);
      rt_ev(RECVB, id, m, bits, 0);
      behave(m);
      done(m);
   }
   void recvMsg(g3::LogMessageMover mv) {
      g3::LogMessage& lm = mv.get();
      std::string t = lm.message();
      int m = lm.file() == "same.cpp" ? atoi(lm.line().c_str()) - SAMELINE : anyId(t);
      int bits = bitsOf(t, &lm, m, false);
      rt_ev(RECVB, id, m, bits, 0);
      if (def.kind == 'X') { // hostile sink: change everything that can be changed
         lm.write().insert(0, "CHANGED-BY-" + std::to_string(id) + " ");
         lm.write()[lm.write().size() / 2] = '#';
         lm.setExpression("changed");
         lm._file = "changed";
         lm._level = WARNING;
         lm.overrideLogDetailsFunc(&g3::LogMessage::FullLogDetailsToString);
      }
      behave(m);
      done(m);
   }
   // ---- functions called through the handle
   void enter(int c, bool ok) { rt_ev(EXECB, id, c, ok ? 1 : 0, 0); if (def.gate >= 0 && !def.gateOnce) waitGate(def.gate); rt_point(); }
   void leave(int c) { rt_ev(EXECE, id, c, 0, 0); { std::lock_guard<std::mutex> l(gm); ++gExec[id]; } gcv.notify_all(); }
   int echo(int c, std::string arg) {
      enter(c, arg == "arg" + std::to_string(c));
      leave(c);
      return c * 7 + 1;
   }
   std::string text(int c, std::string arg) {
      enter(c, arg == "arg" + std::to_string(c));
      leave(c);
      return "result " + arg;
   }
   void nothing(int c, std::string arg) {
      enter(c, arg == "arg" + std::to_string(c));
      leave(c);
   }
   int fails(int c, std::string arg) {
      enter(c, arg == "arg" + std::to_string(c));
      leave(c);
      throw MyErr(c);
   }
   void callLogs(int c, std::string arg) { // a handle call that itself logs
      enter(c, arg == "arg" + std::to_string(c));
      logMessage(650000 + c, "s");
      leave(c);
   }
   void callCalls(int c, std::string arg, int c2, int s2) { // a handle call that makes a handle call
      enter(c, arg == "arg" + std::to_string(c));
      innerCall(c2, s2);
      leave(c);
   }
   static void innerCall(int c, int s);
};
static void freeRecv(Rec* r, g3::LogMessageMover mv) { r->recvMsg(mv); }

struct Fut { char kind = 0; std::future<int> i; std::future<std::string> s; std::future<void> v; };

static std::map<int, std::unique_ptr<g3::LogWorker>>& gW = *new std::map<int, std::unique_ptr<g3::LogWorker>>; // never destroyed
static std::map<int, std::shared_ptr<g3::SinkHandle<Rec>>>& gH = *new std::map<int, std::shared_ptr<g3::SinkHandle<Rec>>>; // never destroyed
static std::map<int, std::unique_ptr<g3::SinkHandle<g3::FileSink>>>& gHF = *new std::map<int, std::unique_ptr<g3::SinkHandle<g3::FileSink>>>; // never destroyed
static std::map<int, std::shared_ptr<g3::internal::Sink<Rec>>>& gHold = *new std::map<int, std::shared_ptr<g3::internal::Sink<Rec>>>; // never destroyed
static std::map<int, Fut>& gF = *new std::map<int, Fut>; // never destroyed
static std::map<int, std::thread>& gT = *new std::map<int, std::thread>; // never destroyed
static std::mutex& mapm = *new std::mutex; // protects the maps above (never held while calling g3log)

template <class M, class K> static typename M::mapped_type& at(M& m, const K& k) {
   std::lock_guard<std::mutex> l(mapm);
   return m[k];
}

template <class M, class K> static typename M::mapped_type get(M& m, const K& k) {
   std::lock_guard<std::mutex> l(mapm);
   return m[k];
}
template <class M, class K> static void put(M& m, const K& k, typename M::mapped_type v) {
   std::lock_guard<std::mutex> l(mapm);
   m[k] = std::move(v);
}

void Rec::innerCall(int c, int s) {
   auto h = get(gH, s);
   Fut& f = at(gF, c);
   std::string arg = "arg" + std::to_string(c);
   rt_ev(HCC, c, s, 0, 0);
   f.i = h->call(&Rec::echo, c, arg);
   rt_ev(HCR, c, s, arg == "arg" + std::to_string(c) ? 0 : 1, 0);
   tx_wipe(arg);
   f.kind = 'v';
}

static const LEVELS CUSTOM{WARNING.value + 7, "CUSTOM"};

#define META(lev) metaSet(m, __FILE__, __LINE__, __func__, lev.text)
// logs another message while the statement that logs m is being put together; m's call counts from then on only
static const char* within(int m, int inner) {
   logMessage(inner, "s");
   rt_ev(LOGC, m, 0, 0, 0);
   return "";
}
static void logMessage(int m, const std::string& style, int inner) {
   std::string b = full(m);
   // `b` is destroyed right after the statement: the logger must have its own copy
   if (inner > 0) {
      if (style == "n") { META(INFO); LOG(INFO) << b.substr(0, 2) << within(m, inner) << b.substr(2); }
      else { META(WARNING); LOGF(WARNING, "%s%s", within(m, inner), b.c_str()); }
      rt_ev(LOGR, m, 0, 0, 0);
      tx_wipe(b);
      return;
   }
   rt_ev(LOGC, m, 0, 0, 0);
   if (style == "q") {
      metaSet(m, "/any/same.cpp", SAMELINE + m, "same", "INFO");
      LogCapture("/any/same.cpp", SAMELINE + m, "same", INFO).stream() << b;
   } else
   if (style == "f") { META(INFO); LOGF(INFO, "%s", b.c_str()); }
   else if (style == "i") { META(WARNING); LOG_IF(WARNING, m >= 0) << b; }
   else if (style == "d") { META(G3LOG_DEBUG); LOG(G3LOG_DEBUG) << b; }
   else if (style == "c") { META(CUSTOM); LOG(CUSTOM) << b; }
   else if (style == "j") { META(INFO); LOGF_IF(INFO, m >= 0, "%s", b.c_str()); }
   else { META(INFO); LOG(INFO) << b; }
   rt_ev(LOGR, m, 0, 0, 0);
   tx_wipe(b);
}
#undef META

static int* volatile gNull = nullptr;
__attribute__((noinline)) static void crash() { *gNull = 1; }

// every fatal event is raised in a function of its own (by id), so that it can be recognised in a stack dump
__attribute__((noinline)) static void raiseFatal(const std::string& kind, int m, const std::string& b) {
   if (kind == "LOG") { metaSet(m, __FILE__, __LINE__, __func__, "FATAL"); LOG(FATAL) << b; }
   else if (kind == "LOGF") { metaSet(m, __FILE__, __LINE__, __func__, "FATAL"); LOGF(FATAL, "%s", b.c_str()); }
   else if (kind == "LOGIF") { metaSet(m, __FILE__, __LINE__, __func__, "FATAL"); LOG_IF(FATAL, m >= 0) << b; }
   else if (kind == "CHECK") { metaSet(m, __FILE__, __LINE__, __func__, "CONTRACT"); CHECK(m < 0) << b; }
   else if (kind == "CHECKF") { metaSet(m, __FILE__, __LINE__, __func__, "CONTRACT"); CHECKF(m < 0, "%s", b.c_str()); }
   else if (kind == "CHECKL") { metaSet(m, __FILE__, __LINE__, __func__, "CONTRACT"); CHECK(m < 0 && "100% of what a rather long contract says, \\n with (brackets) and {braces}, is kept" != nullptr) << b; }
   else if (kind == "XLOG") { metaSet(m, __FILE__, __LINE__, __func__, "DISASTER"); LOG((LEVELS{disaster(m), "DISASTER"})) << b; }
   else if (kind == "segv") crash();
   else if (kind == "SEGV") raise(SIGSEGV);
   else if (kind == "ABRT") abort();
   else if (kind == "RABRT") raise(SIGABRT);
   else if (kind == "FPE") raise(SIGFPE);
   else if (kind == "ILL") raise(SIGILL);
   else if (kind == "TERM") raise(SIGTERM);
}
static volatile int gTail;
template <int N>
__attribute__((noinline)) void g3vframe(const std::string& kind, int m, const std::string& b) { raiseFatal(kind, m, b); gTail = N; }
template <int N>
static void inFrame(int n, const std::string& kind, int m, const std::string& b) {
   if (n == N) g3vframe<N>(kind, m, b);
   else if constexpr (N > 0) inFrame<N - 1>(n, kind, m, b);
}
static void doFatal(const std::string& kind, int m) {
   {
      std::lock_guard<std::mutex> l(gm);
      if (!gFatalKind.count(m)) gFatalKind[m] = kind;
      gFatalOrder.push_back({m, rt_tid()});
   }
   rt_ev(FATC, m, gSigOf(kind), 0, 0);
   std::string b = full(m);
   try {
      inFrame<NFRAMES - 1>(frameOf(m), kind, m, b);
      rt_ev(FATR, m, 0, 0, 0);
   } catch (const MyErr& e) {
      rt_ev(FATR, m, 1, e.c, 0);
   }
}

static void setHook(int h, const std::string& what, int m, const std::string& kind) {
   rt_ev(SETHOOKC, h, 0, 0, 0);
   g3::setFatalPreLoggingHook([=] {
      rt_ev(HOOKB, h, 0, 0, 0);
      if (what == "log") logMessage(m, "s");
      if (what == "fatal") doFatal(kind, m);
      if (what == "sethook") setHook(m, "", 0, "");
      rt_ev(HOOKE, h, 0, 0, 0);
   });
   rt_ev(SETHOOKR, h, 0, 0, 0);
}

static void setHandler(int h, const std::string& what) {
   rt_ev(SETHANDC, h, what == "default" ? 1 : what == "throw" ? 2 : what == "default+" ? 3 : 0, 0, 0);
   if (what == "default") g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
   else
      g3::setFatalExitHandler([=](g3::FatalMessagePtr p) {
         std::string t = p.get()->message();
         int m = anyId(t);
         // level, signal and text as handed over
         int bits = bitsOf(t, p.get().get(), m, false);
         int sig = p.get()->_signal_id;
         rt_ev(HANDB, h, m, bits, sig);
         if (what == "default+") g3::internal::pushFatalMessageToLogger(p);
         { std::lock_guard<std::mutex> l(gm); ++gHandlerCount; }
         gcv.notify_all();
         rt_ev(HANDE, h, m, 0, 0);
         if (what == "throw") throw MyErr(h);
      });
   rt_ev(SETHANDR, h, 0, 0, 0);
}

static void runThread(int t);

static void doOp(const Op& o) {
   const std::string& k = o.k;
   if (k == "W") { auto w = g3::LogWorker::createLogWorker(); at(gW, o.i(0)) = std::move(w); rt_ev(WORKER, o.i(0), 0, 0, 0); }
   else if (k == "I") { { std::lock_guard<std::mutex> l(gm); gInitAt = gFatalOrder.size(); } rt_ev(INITC, o.i(0), 0, 0, 0); g3::initializeLogging(o.i(0) < 0 ? nullptr : at(gW, o.i(0)).get()); rt_ev(INITR, o.i(0), 0, 0, 0); }
   else if (k == "D") {
      auto& w = at(gW, o.i(0));
      rt_ev(DC, o.i(0), 0, 0, 0);
      w.reset();
      rt_ev(DR, o.i(0), 0, 0, 0);
   }
   else if (k == "A") {
      int s = o.i(0);
      auto& w = at(gW, o.i(1));
      SinkDef d = gS->sinks[s];
      if (d.kind == 'F') {
         rt_ev(ADDC, s, o.i(1), 0, 0);
         auto h = w->addSink(std::make_unique<g3::FileSink>("s" + std::to_string(s), gScratch, "x", 1 + (size_t)o.i(2)), &g3::FileSink::fileWrite);
         rt_ev(ADDR, s, o.i(1), 0, 0);
         at(gHF, s) = std::move(h);
      } else {
         auto real = std::make_unique<Rec>(s, d);
         rt_ev(ADDC, s, o.i(1), 0, 0);
         std::unique_ptr<g3::SinkHandle<Rec>> h;
         if (d.kind == 'S') h = w->addSink(std::move(real), &Rec::recvString);
         else if (d.kind == 'L') h = w->addSink(std::move(real), &freeRecv);
         else h = w->addSink(std::move(real), &Rec::recvMsg);
         rt_ev(ADDR, s, o.i(1), 0, 0);
         put(gH, s, std::shared_ptr<g3::SinkHandle<Rec>>(std::move(h)));
      }
   }
   else if (k == "R") {
      int s = o.i(0);
      auto& w = at(gW, o.i(1));
      auto copy = std::make_unique<g3::SinkHandle<Rec>>(*get(gH, s)); // ours stays behind, as a stale handle
      rt_ev(RMC, s, o.i(1), 0, 0);
      w->removeSink(std::move(copy));
      rt_ev(RMR, s, o.i(1), 0, 0);
   }
   else if (k == "K") { auto& w = at(gW, o.i(0)); rt_ev(CLRC, o.i(0), 0, 0, 0); w->removeAllSinks(); rt_ev(CLRR, o.i(0), 0, 0, 0); }
   else if (k == "L") logMessage(o.i(0), o.a.size() > 1 ? o.a[1] : "s", o.a.size() > 2 ? o.i(2) : 0);
   else if (k == "LB") { for (int m = o.i(0); m < o.i(0) + o.i(1); ++m) logMessage(m, o.a.size() > 2 ? o.a[2] : "s"); }
   else if (k == "H") { // call id, sink, kind
      int c = o.i(0);
      auto h = get(gH, o.i(1));
      Fut& f = at(gF, c);
      char kind = o.a[2][0];
      std::string arg = "arg" + std::to_string(c);
      rt_ev(HCC, c, o.i(1), kind == 'x' ? 1 : 0, kind == 'l' ? 650000 + c : 0);
      if (kind == 'v') f.i = h->call(&Rec::echo, c, arg);
      else if (kind == 's') f.s = h->call(&Rec::text, c, arg);
      else if (kind == 'n') f.v = h->call(&Rec::nothing, c, arg);
      else if (kind == 'x') f.i = h->call(&Rec::fails, c, arg);
      else if (kind == 'l') f.v = h->call(&Rec::callLogs, c, arg);
      else if (kind == 'h') f.v = h->call(&Rec::callCalls, c, arg, o.i(3), o.i(4));
      rt_ev(HCR, c, o.i(1), arg == "arg" + std::to_string(c) ? 0 : 1, 0);   // what the caller gave is still the caller's
      tx_wipe(arg);
      f.kind = kind;
   }
   else if (k == "G") { // get future
      int c = o.i(0);
      Fut& f = at(gF, c);
      rt_ev(FUTC, c, 0, 0, 0);
      int kind = 3, ok = 0;
      try {
         if (f.kind == 'v') ok = f.i.get() == c * 7 + 1;
         else if (f.kind == 's') ok = f.s.get() == "result arg" + std::to_string(c);
         else if (f.kind == 'x') { f.i.get(); ok = 0; }
         else { f.v.get(); ok = 1; }
         kind = 0;
      } catch (const MyErr& e) { kind = 1; ok = e.c == c && std::string(e.what()) == "call " + std::to_string(c); }
      catch (const std::bad_weak_ptr&) { kind = 2; ok = 1; }
      catch (const std::exception&) { kind = 3; }
      rt_ev(FUTR, c, kind, ok, 0);
   }
   else if (k == "O") openGate(o.i(0));
   else if (k == "V") waitGate(o.i(0));
   else if (k == "VR") { std::unique_lock<std::mutex> l(gm); while (gRecv[o.i(0)] < o.i(1)) gcv.wait(l); }
   else if (k == "VX") { std::unique_lock<std::mutex> l(gm); while (gExec[o.i(0)] < o.i(1)) gcv.wait(l); }
   else if (k == "VD") { std::unique_lock<std::mutex> l(gm); while (!gSinkDead[o.i(0)]) gcv.wait(l); }
   else if (k == "VH") { std::unique_lock<std::mutex> l(gm); while (gHandlerCount < o.i(0)) gcv.wait(l); }
   else if (k == "P") { for (int i = 0; i < (o.i(0) > 0 ? o.i(0) : 1); ++i) rt_point(); }
   else if (k == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(o.i(0)));
   else if (k == "spawn") { int t = o.i(0); std::thread th(runThread, t); at(gT, t) = std::move(th); }
   else if (k == "join") { auto& th = at(gT, o.i(0)); th.join(); }
   else if (k == "F") doFatal(o.a[0], o.i(1));
   else if (k == "hook") setHook(o.i(0), o.a.size() > 1 ? o.a[1] : "", o.i(2), o.a.size() > 3 ? o.a[3] : "");
   else if (k == "hand") setHandler(o.i(0), o.a.size() > 1 ? o.a[1] : "");
   else if (k == "shut") { rt_ev(SHUTC, 0, 0, 0, 0); g3::internal::shutDownLogging(); rt_ev(SHUTR, 0, 0, 0, 0); }
   else if (k == "hold") { // the client keeps the sink alive
      int s = o.i(0);
      auto h = get(gH, s);
      rt_ev(HOLDC, s, 0, 0, 0);
      std::shared_ptr<g3::internal::Sink<Rec>> p = h->sink().lock();
      bool got = (bool)p;
      at(gHold, rt_tid() * 1000 + s) = std::move(p); // each thread holds for itself
      rt_ev(HOLDR, s, got, 0, 0);
   }
   else if (k == "drop") { int s = o.i(0); auto p = std::move(at(gHold, rt_tid() * 1000 + s)); rt_ev(DROPC, s, p ? 1 : 0, 0, 0); p.reset(); rt_ev(DROPR, s, 0, 0, 0); }
   else if (k == "install") g3::installCrashHandler();
   else { fprintf(stderr, "unknown op %s\n", k.c_str()); _exit(99); }
}

static void runThread(int t) {
   for (auto& o : gS->threads[t]) doOp(o);
}

// ---------------------------------------------------------------- runner
static void child(const Scenario& s, const rt_config& cfg) {
   struct rlimit r{0, 0};
   setrlimit(RLIMIT_CORE, &r);
   struct rlimit cpu{20, 20};
   setrlimit(RLIMIT_CPU, &cpu);
   mallopt(M_PERTURB, 0x5a);
   static CerrBuf cb;
   std::cerr.rdbuf(&cb);
   if (!getenv("PDRV_STDERR")) { FILE* f = freopen("/dev/null", "w", stderr); (void)f; }
   gS = const_cast<Scenario*>(&s);
   for (auto& kv : s.threads)
      for (auto& o : kv.second) if (o.k == "L") { gMeta[o.i(0)]; if (o.a.size() > 2) gMeta[o.i(2)]; }
   std::set_terminate([] { rt_ev(CATCH, 1, 0, 0, 0); _exit(78); });
   rt_begin(&cfg);
   runThread(0);
   rt_ev(CONT, 0, 0, 0, 0); // end of main reached
   _exit(0);
}

static std::vector<Scenario> load(const char* path) {
   std::vector<Scenario> v;
   std::ifstream in(path);
   std::string line;
   while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string w;
      if (!(is >> w)) continue;
      if (w == "scn") { v.emplace_back(); is >> v.back().id; }
      else if (w == "T") {
         int t; Op o; std::string x;
         is >> t >> o.k;
         while (is >> x) o.a.push_back(x);
         v.back().threads[t].push_back(o);
         if (o.k == "LB" && o.a.size() > 2 && o.a[2] == "q") for (int m = o.i(0); m < o.i(0) + o.i(1); ++m) v.back().same.insert(m);
      } else if (w == "S") {
         int s; SinkDef d;
         is >> s >> d.kind;
         std::string x;
         while (is >> x) {
            if (x.rfind("gate=", 0) == 0) d.gate = atoi(x.c_str() + 5);
            if (x.rfind("gate1=", 0) == 0) { d.gate = atoi(x.c_str() + 6); d.gateOnce = 1; }
            if (x.rfind("logs=", 0) == 0) d.logs = atoi(x.c_str() + 5);
            if (x.rfind("fatal=", 0) == 0) d.fatal = x.substr(6);
         }
         v.back().sinks[s] = d;
      } else if (w == "sys") is >> v.back().bound >> v.back().cap;
      else if (w == "size") { int m, n; is >> m >> n; v.back().size[m] = n; }
   }
   return v;
}

static std::string filesJson(const Scenario& s) {
   // what the file sinks left on disk: ids of complete tags, in order
   std::string out;
   DIR* d = opendir(gScratch.c_str());
   if (!d) return "[]";
   std::vector<std::pair<std::string, std::string>> fs;
   while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n.size() > 4 && n.substr(n.size() - 4) == ".log") {
         std::ifstream in(gScratch + "/" + n, std::ios::binary);
         std::stringstream ss;
         ss << in.rdbuf();
         fs.push_back({n, ss.str()});
         unlink((gScratch + "/" + n).c_str());
      }
   }
   closedir(d);
   (void)s;
   out = "[";
   bool first = true;
   for (auto& f : fs) {
      if (!first) out += ",";
      first = false;
      int sid = atoi(f.first.c_str() + 1);
      out += "[" + std::to_string(sid) + ",[";
      size_t p = 0;
      bool ff = true;
      const std::string& a = f.second;
      for (;;) {
         size_t q = a.find("<m", p), r = a.find("Received fatal signal: ", p);
         size_t same = gS->same.empty() ? std::string::npos : a.find("->same:", p);
         if (q == std::string::npos && r == std::string::npos && same == std::string::npos) break;
         int m;
         if (same < q && same < r) {
            m = atoi(a.c_str() + same + 7) - SAMELINE;
            size_t b = a.find("<q", same);
            if (b == std::string::npos || a.compare(b, body(m).size(), body(m)) != 0) m = -m - 1;
            p = same + 7;
         } else if (r < q) { m = fatalSignalId(a.substr(r)); p = r + 10; }
         else {
            m = atoi(a.c_str() + q + 2);
            if (!fullAt(a, q, m, true)) m = -m - 1;
            p = q + 2;
         }
         if (!ff) out += ",";
         ff = false;
         out += std::to_string(m);
      }
      out += "]," + std::to_string((int)(a.find("shutdown at:") != std::string::npos)) + "]";
   }
   return out + "]";
}

static void prepare(Scenario& s) {
   gS = &s;
   gFatalKind.clear();
   for (auto& kv : s.threads)
      for (auto& o : kv.second) {
         if (o.k == "F") gFatalKind[o.i(1)] = o.a[0];
         if (o.k == "hook" && o.a.size() > 3) gFatalKind[o.i(2)] = o.a[3];
      }
   for (auto& kv : s.sinks)
      if (!kv.second.fatal.empty()) {
         const std::string& f = kv.second.fatal;
         gFatalKind[500000 + atoi(f.c_str())] = f.substr(f.find(':') + 1);
      }
}

static std::string extra(Scenario& s) {
   for (auto& kv : s.sinks)
      if (kv.second.kind == 'F') return filesJson(s);
   return "[]";
}

int main(int argc, char** argv) {
   if (argc < 7) return 2;
   gScratch = argv[3];
   return runAll(load(argv[1]), argv, prepare, child, extra);
}
