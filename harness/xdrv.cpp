// Signal dispositions: replays spec/Signals.tla's operations, every sequence in a child process.   xdrv in out scratch
#include "mbt.h"
#include <g3log/crashhandler.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <fcntl.h>
#include <map>
#include <memory>
using mbt::Val;
using mbt::arr;

static const std::map<std::string, int> kSigs{{"ABRT", SIGABRT}, {"FPE", SIGFPE}, {"ILL", SIGILL}, {"SEGV", SIGSEGV}, {"TERM", SIGTERM}, {"USR1", SIGUSR1}};
static int gRaised;
static void handler(int s) { _exit(s == gRaised ? 41 : 43); }
static void siginfo(int s, siginfo_t* i, void* c) { _exit(s == gRaised && i->si_signo == s && c ? 42 : 44); }
static struct sigaction disposition(const std::string& d) {
   struct sigaction a;
   memset(&a, 0, sizeof a);
   sigemptyset(&a.sa_mask);
   if (d == "default") a.sa_handler = SIG_DFL;
   else if (d == "ignore") a.sa_handler = SIG_IGN;
   else if (d == "handler") { a.sa_handler = handler; a.sa_flags = SA_RESTART; sigaddset(&a.sa_mask, SIGUSR2); }
   else { a.sa_sigaction = siginfo; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaddset(&a.sa_mask, SIGHUP); sigaddset(&a.sa_mask, SIGINT); }
   return a;
}
static bool same(const struct sigaction& a, const struct sigaction& b) {
   const int flags = SA_SIGINFO | SA_RESTART | SA_NODEFER | SA_RESETHAND | SA_ONSTACK | SA_NOCLDSTOP | SA_NOCLDWAIT;
   if ((a.sa_flags & flags) != (b.sa_flags & flags)) return false;
   if (a.sa_flags & SA_SIGINFO ? a.sa_sigaction != b.sa_sigaction : a.sa_handler != b.sa_handler) return false;
   for (int s = 1; s < 32; ++s) if (sigismember(&a.sa_mask, s) != sigismember(&b.sa_mask, s)) return false;
   return true;
}
static Val table() {
   Val t = arr();
   for (auto& s : kSigs) {
      struct sigaction a;
      sigaction(s.second, nullptr, &a);
      std::string d = "crash handler";
      for (auto* k : {"default", "ignore", "handler", "siginfo"}) if (same(a, disposition(k))) d = k;
      // some function of the application, but not as the application had set it
      if (d == "crash handler" && (a.sa_handler == SIG_DFL || a.sa_handler == SIG_IGN || a.sa_handler == handler || a.sa_sigaction == siginfo)) d = "altered";
      Val e = arr();
      e.add(s.first);
      e.add(d);
      t.add(e);
   }
   return t;
}
int main(int, char** argv) {
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr(), end;
      std::string got = mbt::inChild([&](int fd) {
         dup2(open("/dev/null", O_WRONLY), 2);
         alarm(50);
         std::vector<std::unique_ptr<g3::LogWorker>> w;
         for (auto& s : kSigs) { auto a = disposition("default"); sigaction(s.second, &a, nullptr); }
         for (auto& o : ops.a) {
            const std::string &k = o[0].s, &s = o[1].s;
            if (k == "app") { auto a = disposition(o[2].s); sigaction(kSigs.at(s), &a, nullptr); }
            else if (k == "init") {
               g3::internal::shutDownLogging();
               w.push_back(g3::LogWorker::createLogWorker());
               g3::initializeLogging(w.back().get());
            } else if (k == "install") g3::installCrashHandler();
            else if (k == "default") g3::internal::restoreFatalHandlingToDefault();
            else if (k == "override") {
               std::map<int, std::string> set;
               std::istringstream is(s);
               for (std::string n; is >> n;) set[kSigs.at(n)] = "SIG" + n;
               g3::overrideSetupSignals(set);
            } else if (k == "restore") g3::restoreSignalHandler(kSigs.at(s));
            else if (k == "raise") { gRaised = kSigs.at(s); raise(gRaised); _exit(50); }
            else if (k == "fatal") { gRaised = SIGABRT; LOG(FATAL) << "x"; _exit(50); }
            mbt::writeAll(fd, mbt::str(table()) + "\n");
         }
         _exit(51);
      }, 100, &end);
      std::istringstream is(got);
      for (auto& o : ops.a) {
         Val e = arr();
         e.add(o);
         std::string l;
         e.add(std::getline(is, l) ? mbt::parse(l) : end);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
