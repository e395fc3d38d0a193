// Reads behaviours that TLC generated from a specification: one per line, a
// sequence of integer tuples  << <<1, 2>>, <<3>> >>.
#pragma once
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>
typedef std::vector<long> Op; typedef std::vector<Op> Behaviour;
inline std::vector<Behaviour> readBehaviours(const char* file) {
   std::vector<Behaviour> r; const char* d = getenv("GEN_DIR"); std::ifstream f(std::string(d ? d : ".") + "/" + file); std::string l;
   while(std::getline(f, l)) {
      Behaviour b; int depth = 0; std::string num;
      auto flush = [&]() { if(!num.empty()) { if(depth == 2) b.back().push_back(strtol(num.c_str(), 0, 10)); num.clear(); } };
      for(size_t i = 0; i < l.size(); ++i) {
         char c = l[i];
         if(c == '<' && i + 1 < l.size() && l[i + 1] == '<') { ++depth; ++i; if(depth == 2) b.push_back(Op()); }
         else if(c == '>' && i + 1 < l.size() && l[i + 1] == '>') { flush(); --depth; ++i; }
         else if((c >= '0' && c <= '9') || c == '-') num += c; else flush();
      }
      r.push_back(b);
   }
   return r;
}
