// Time stamps: replays spec/Time.tla's operations.   tdrv in out scratch
#include "mbt.h"
#include <g3log/time.hpp>
#include <atomic>
#include <thread>
using mbt::Val;
using mbt::arr;

static g3::system_time_point at(long d, long s, long n) {
   return g3::system_time_point(std::chrono::duration_cast<g3::system_time_point::duration>(std::chrono::seconds(d * 86400 + s) + std::chrono::nanoseconds(n)));
}
int main(int, char** argv) {
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   std::string line, zone;
   while (std::getline(in, line)) {
      Val ops = mbt::parse(line), res = arr();
      for (auto& o : ops.a) {
         Val obs = arr();
         if (o[6].s != zone) {
            zone = o[6].s;
            setenv("TZ", zone.c_str(), 1);
            tzset();
         }
         const auto t = at(o[3].i, o[4].i, o[5].i);
         if (o[0].s == "fmt") {
            obs.add(g3::localtime_formatted(t, o[1].s));
            time_t secs = o[3].i * 86400 + o[4].i;
            struct tm tm;
            localtime_r(&secs, &tm);
            char buf[4096];
            size_t k = strftime(buf, sizeof buf, o[2].s.c_str(), &tm);
            obs.add(std::string(buf, k));
         } else if (o[0].s == "cmp") {
            const auto a = g3::localtime_formatted(t, o[1].s), b = g3::localtime_formatted(at(o[7].i, o[8].i, o[9].i), o[1].s);
            obs.add(a < b ? -1 : a > b ? 1 : 0);
         } else {
            std::atomic<long> bad{0};
            std::vector<std::thread> ts;
            for (int k = 0; k < 4; ++k) ts.emplace_back([&, k] {
               const auto mine = at(o[3].i + k * 777, o[4].i - k * 1111, o[5].i + k);
               const auto want = g3::localtime_formatted(mine, o[1].s);
               for (int r = 0; r < 20000; ++r) if (g3::localtime_formatted(mine, o[1].s) != want) ++bad;
            });
            for (auto& x : ts) x.join();
            obs.add(bad.load());
         }
         Val e = arr();
         e.add(o);
         e.add(obs);
         res.add(e);
      }
      out << mbt::str(res) << "\n";
      out.flush();
   }
   out.close();
   _exit(0);
}
