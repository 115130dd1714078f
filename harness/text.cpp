// Texts of messages; kept out of the instrumented part because it touches every character.
#include "text.h"
std::string tx_payload(int m, size_t n) {
   std::string s;
   s.reserve(n);
   unsigned x = 2166136261u ^ (unsigned)m;
   while (s.size() < n) {
      x = x * 1664525u + 1013904223u;
      char c = (char)(33 + (x >> 24) % 90);
      if (c == '<' || c == '>' || c == '%' || c == '|') c = '.';
      s += c;
   }
   return s;
}
std::string tx_body(int m, size_t n) {
   std::string t = std::to_string(m);
   std::string s = "<m";
   s += t;
   s += "|";
   s += tx_payload(m, n);
   s += "|m";
   s += t;
   s += ">";
   return s;
}
void tx_wipe(std::string& s) { s.assign(s.size(), '~'); }
