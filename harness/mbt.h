// Replays operation sequences generated from a specification and records what the real code did.
// Input: one JSON array of operations per line, an operation is an array [name, args...] of strings and integers.
// Output: one JSON array of [operation, observation] pairs per line.
#pragma once
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace mbt {
   struct Val { // an integer, a string or an array
      int kind = 0;
      long i = 0;
      std::string s;
      std::vector<Val> a;
      Val() = default;
      Val(long x) : kind(0), i(x) {}
      Val(int x) : kind(0), i(x) {}
      Val(bool x) : kind(3), i(x) {}
      Val(const std::string& x) : kind(1), s(x) {}
      Val(const char* x) : kind(1), s(x) {}
      Val(std::vector<Val> x) : kind(2), a(std::move(x)) {}
      void add(Val v) { kind = 2; a.push_back(std::move(v)); }
      const Val& operator[](size_t k) const { return a.at(k); }
      size_t size() const { return a.size(); }
   };
   inline Val arr() { Val v; v.kind = 2; return v; }

   inline void put(std::string& o, const Val& v) {
      if (v.kind == 0) o += std::to_string(v.i);
      else if (v.kind == 3) o += v.i ? "true" : "false";
      else if (v.kind == 1) {
         o += '"';
         for (unsigned char c : v.s) {
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
         }
         o += '"';
      } else {
         o += '[';
         for (size_t k = 0; k < v.a.size(); ++k) { if (k) o += ','; put(o, v.a[k]); }
         o += ']';
      }
   }
   inline std::string str(const Val& v) { std::string o; put(o, v); return o; }

   struct Parser {
      const std::string& t; size_t p = 0;
      void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == ',' || t[p] == ':')) ++p; }
      Val val() {
         ws();
         char c = t.at(p);
         if (c == '[') {
            ++p;
            Val v = arr();
            for (ws(); t.at(p) != ']'; ws()) v.a.push_back(val());
            ++p;
            return v;
         }
         if (c == '"') {
            ++p;
            std::string s;
            while (t.at(p) != '"') {
               if (t[p] == '\\') {
                  ++p;
                  char d = t[p++];
                  if (d == 'n') s += '\n';
                  else if (d == 't') s += '\t';
                  else if (d == 'r') s += '\r';
                  else if (d == 'f') s += '\f';
                  else if (d == 'b') s += '\b';
                  else if (d == 'u') { s += (char)strtol(t.substr(p, 4).c_str(), nullptr, 16); p += 4; }
                  else s += d;
               } else s += t[p++];
            }
            ++p;
            return Val(s);
         }
         if (c == 't') { p += 4; return Val(true); }
         if (c == 'f') { p += 5; return Val(false); }
         size_t e = p;
         while (e < t.size() && (t[e] == '-' || isdigit((unsigned char)t[e]))) ++e;
         if (e == p) { fprintf(stderr, "bad input at %zu: %s\n", p, t.c_str()); _exit(97); }
         Val v(atol(t.substr(p, e - p).c_str()));
         p = e;
         return v;
      }
   };
   inline Val parse(const std::string& line) { Parser p{line}; return p.val(); }

   // runs f in a child; -> its output and how it ended: [0, status], [1, signal], [2, 0] (time limit)
   template <class F>
   std::string inChild(F f, int seconds, Val* end) {
      int fd[2];
      if (pipe(fd)) _exit(96);
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
         close(fd[0]);
         struct rlimit r{0, 0};
         setrlimit(RLIMIT_CORE, &r);
         f(fd[1]);
         _exit(0);
      }
      close(fd[1]);
      std::string out;
      char buf[65536];
      struct timespec t0;
      clock_gettime(CLOCK_MONOTONIC, &t0);
      bool killed = false;
      for (;;) {
         fd_set s;
         FD_ZERO(&s);
         FD_SET(fd[0], &s);
         struct timeval tv{0, 200000};
         int n = select(fd[0] + 1, &s, nullptr, nullptr, &tv);
         if (n > 0) {
            ssize_t k = read(fd[0], buf, sizeof buf);
            if (k <= 0) break;
            out.append(buf, (size_t)k);
         }
         struct timespec t;
         clock_gettime(CLOCK_MONOTONIC, &t);
         if (!killed && t.tv_sec - t0.tv_sec > seconds) { kill(pid, SIGKILL); killed = true; }
      }
      close(fd[0]);
      int st = 0;
      waitpid(pid, &st, 0);
      *end = arr();
      if (killed) { end->add(2); end->add(0); }
      else if (WIFSIGNALED(st)) { end->add(1); end->add(WTERMSIG(st)); }
      else { end->add(0); end->add(WEXITSTATUS(st)); }
      return out;
   }
   inline void writeAll(int fd, const std::string& s) {
      size_t o = 0;
      while (o < s.size()) {
         ssize_t k = write(fd, s.data() + o, s.size() - o);
         if (k <= 0) _exit(95);
         o += (size_t)k;
      }
   }
   inline std::string slurp(const std::string& path) {
      std::ifstream in(path, std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      return ss.str();
   }
}
