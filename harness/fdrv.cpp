// The file sink: replays spec/FileSink.tla's operations and reports what is in the files.   fdrv in out scratch [threads]
// With several threads each one replays its share of the histories in a directory, and on a clock, of its own.
// The wall clock stands still (clock_gettime below) and moves with the operation "tick".
#include "mbt.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <algorithm>
#include <g3log/filesink.hpp>
#include <g3log/logmessage.hpp>
#include <map>
#include <memory>
#include <regex>
#include <sched.h>
#include <thread>
using mbt::Val;
using mbt::arr;

static thread_local long gNow = 1000000000;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
   if (c == CLOCK_REALTIME) { t->tv_sec = gNow; t->tv_nsec = 0; return 0; }
   return (int)syscall(SYS_clock_gettime, c, t);
}
static std::string custom(const g3::LogMessage& m) { return "<" + m.line() + ">"; }
static const char* kHeaders[][2] = {{"h0", "\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n"},
                                    {"h1", "\t\tone line\n"}, {"h2", "two\nlines, no end"}, {"none", ""}};
static const char* kBad[] = {"A/no/", "missing/", "plainfile/"};
static thread_local std::vector<std::string> gNames;   // every name the sink has reported

static std::string text(int k, bool big) { return "#" + std::to_string(k) + (big ? std::string(9000, 'b') : "") + "#"; }
static std::string entry(int k, bool big, const std::string& f) {
   const std::string tail = text(k, big) + "\n", line = std::to_string(k);
   if (f == "custom") return "<" + line + ">" + tail;
   return "2001/09/09 01:46:40 000000\tINFO [" + std::string(f == "full" ? "TID " : "") + "e.cpp->fn:" + line + "]\t" + tail;
}
static std::vector<std::string> listFiles(const std::string& dir, const std::string& pre) {
   std::vector<std::string> out;
   DIR* d = opendir(dir.c_str());
   while (auto* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == ".." || n == "plainfile") continue;
      if (e->d_type == DT_DIR) {
         auto s = listFiles(dir + "/" + n, pre + n + "/");
         out.insert(out.end(), s.begin(), s.end());
      } else out.push_back(pre + n);
   }
   closedir(d);
   return out;
}
static bool at(const std::string& s, size_t p, const std::string& x) { return s.compare(p, x.size(), x) == 0; }
static Val tokens(std::string s, const std::vector<bool>& bigs, const std::string& tid) {
   for (size_t p; !tid.empty() && (p = s.find("[" + tid + " ")) != std::string::npos;) s.replace(p + 1, tid.size(), "TID");
   Val out = arr();
   std::string gap;
   auto flushGap = [&] {
      if (gap.empty()) return;
      Val refs = arr(), t = arr();
      bool bad = gap.find('#') != std::string::npos;
      std::vector<std::string> cand(gNames);
      for (auto* b : kBad) if (gap.find(std::string(b) + "log.") != std::string::npos) refs.add(b);
      for (auto& n : cand) if (gap.find(n) != std::string::npos) refs.add(n);
      t.add(bad ? "B" : "N");
      t.add(refs);
      out.add(t);
      gap.clear();
   };
   auto tok = [&](Val t) { flushGap(); out.add(t); };
   for (size_t p = 0; p < s.size();) {
      bool hit = false;
      if (at(s, p, "\t\tg3log created log at: ")) {
         size_t e = s.find('\n', p);
         if (e != std::string::npos) {
            for (auto& h : kHeaders) if (at(s, e + 1, h[1])) {
               Val t = arr(); t.add("H"); t.add(h[0]); tok(t);
               p = e + 1 + strlen(h[1]);
               hit = true;
               break;
            }
         }
      } else if (at(s, p, "g3log g3FileSink shutdown at: ")) {
         size_t e = s.find('\n', p);
         if (e != std::string::npos) { Val t = arr(); t.add("X"); tok(t); p = e + 1; hit = true; }
      } else if (s[p] == '<' || s[p] == '2') {
         for (size_t k = bigs.size(); k-- > 0 && !hit;) for (auto* f : {"default", "full", "custom"}) {
            std::string x = entry((int)k + 1, bigs[k], f);
            if (at(s, p, x)) {
               Val t = arr(); t.add("E"); t.add((long)k + 1); t.add(f); tok(t);
               p += x.size();
               hit = true;
               break;
            }
            if (s.size() - p < x.size() && at(x, 0, s.substr(p)) && s.substr(p).find('#') != std::string::npos) {
               Val t = arr(); t.add("P"); t.add(0); tok(t);
               p = s.size();
               hit = true;
               break;
            }
         }
      }
      if (!hit) gap += s[p++];
   }
   flushGap();
   return out;
}
static void wipe(const std::string& dir) {
   for (auto& f : listFiles(dir, "")) unlink((dir + "/" + f).c_str());
}

static void replay(const std::vector<std::string>& lines, size_t first, size_t step, std::vector<std::string>& results) {
   mkdir("A", 0755);
   mkdir("B", 0755);
   close(open("plainfile", O_CREAT | O_WRONLY, 0644));
   std::ostringstream tid;
   tid << std::this_thread::get_id();
   for (size_t l = first; l < lines.size(); l += step) {
      Val ops = mbt::parse(lines[l]), res = arr();
      wipe(".");
      gNow = 1000000000;
      gNames.clear();
      std::unique_ptr<g3::FileSink> sink;
      std::vector<bool> bigs;
      for (size_t k = 0; k < ops.size(); ++k) {
         const Val& o = ops[k];
         const std::string& op = o[0].s;
         std::string ret;
         if (op == "create") sink = std::make_unique<g3::FileSink>("log", o[2].s, o[3].s, (size_t)o[1].i);
         else if (op == "entry" || op == "big") {
            bigs.push_back(op == "big");
            g3::LogMessage m("e.cpp", (int)bigs.size(), "fn", INFO);
            m._timestamp = g3::high_resolution_time_point(std::chrono::seconds(1000000000));
            m.write().append(text((int)bigs.size(), op == "big"));
            sink->fileWrite(g3::LogMessageMover(std::move(m)));
         } else if (op == "change") ret = sink->changeLogFile(o[2].s, o[3].s);
         else if (op == "header") { for (auto& h : kHeaders) if (o[2].s == h[0]) sink->overrideLogHeader(h[1]); }
         else if (op == "details") sink->overrideLogDetails(o[2].s == "default" ? g3::LogMessage::DefaultLogDetailsToString : o[2].s == "full" ? g3::LogMessage::FullLogDetailsToString : custom);
         else if (op == "tick") ++gNow;
         else if (op == "destroy") sink.reset();
         Val obs = arr();
         obs.add(ret);
         obs.add(sink ? sink->fileName() : "");
         if (sink && std::find(gNames.begin(), gNames.end(), sink->fileName()) == gNames.end()) gNames.push_back(sink->fileName());
         Val fs = arr();
         for (auto& f : listFiles(".", "")) {
            Val e = arr();
            e.add(f);
            e.add(tokens(mbt::slurp(f), bigs, tid.str()));
            fs.add(e);
         }
         obs.add(fs);
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      results[l] = mbt::str(res);
   }
   wipe(".");
}

int main(int argc, char** argv) {
   setenv("TZ", "UTC", 1);
   tzset();
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   if (chdir(argv[3])) return 90;
   std::vector<std::string> lines;
   for (std::string l; std::getline(in, l);) lines.push_back(l);
   std::vector<std::string> results(lines.size());
   const size_t n = argc > 4 ? (size_t)atoi(argv[4]) : 1;
   if (n == 1) replay(lines, 0, 1, results);
   else {
      std::vector<std::thread> ts;
      for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
         const std::string dir = "t" + std::to_string(t);
         mkdir(dir.c_str(), 0755);
         if (unshare(CLONE_FS) || chdir(dir.c_str())) _exit(91);   // the current directory is this thread's own
         replay(lines, t, n, results);
      });
      for (auto& t : ts) t.join();
   }
   for (auto& r : results) out << r << "\n";
   out.close();
   _exit(0);
}
