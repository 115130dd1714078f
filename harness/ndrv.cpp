// Log file names: one file sink per operation of spec/Names.tla, in a child process.   ndrv in out scratch
#include "mbt.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <algorithm>
#include <g3log/filesink.hpp>
using mbt::Val;
using mbt::arr;

extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
   if (c == CLOCK_REALTIME) { t->tv_sec = 1000000000; t->tv_nsec = 0; return 0; }
   return (int)syscall(SYS_clock_gettime, c, t);
}
static void listFiles(const std::string& dir, const std::string& pre, std::vector<std::string>& out) {
   DIR* d = opendir(dir.c_str());
   while (auto* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == ".." || n == "plain") continue;
      struct stat st;
      if (lstat((dir + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) listFiles(dir + "/" + n, pre + n + "/", out);
      else out.push_back(pre + n);
   }
   closedir(d);
}
int main(int, char** argv) {
   setenv("TZ", "UTC", 1);
   tzset();
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   if (chdir(argv[3])) return 90;
   for (auto* d : {"sub", "sub/deep", "sp ace", " lead"}) mkdir(d, 0755);
   close(open("plain", O_CREAT | O_WRONLY, 0644));
   const std::string err = std::string(argv[3]) + ".child";
   std::string line;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr();
      for (auto& o : ops.a) {
         Val obs = arr(), end;
         std::string got = mbt::inChild([&](int fd) {
            int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(e, 2);
            g3::FileSink s(o[0].s, o[1].s, o[2].s, 1);
            mbt::writeAll(fd, s.fileName());
            _exit(0);
         }, 60, &end);
         obs.add(end);
         struct stat st;
         obs.add(stat(err.c_str(), &st) == 0 && st.st_size > 0 ? 1 : 0);
         obs.add(got);
         std::vector<std::string> fs;
         listFiles(".", "", fs);
         Val v = arr();
         for (auto& f : fs) { v.add(f); unlink(f.c_str()); }
         obs.add(v);
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
