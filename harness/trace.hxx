// Trace recording library shared by all conformance drivers.
//
// A driver registers "cases".  A case is a pure function of (seed, index): it
// exercises the real opengm headers and emits one event per public call.  Each
// case runs in its own forked child with a CPU limit, so that a crash, an
// unexpected exception or a hang becomes the last event of its trace
// ("crash" / "exc" / "timeout"), which no trace specification accepts.
// Output: ndjson, one line per case: {"k":<index>,"name":<string>,"ev":[...]}
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace tr {

// ---------------------------------------------------------------- numbers
// TLC integers are 32 bit.  Exact integers pass through, everything else maps
// to a sentinel which the specifications never produce themselves.
const long S_POSINF = 2000000001L, S_NEGINF = -2000000001L, S_NAN = 2000000003L,
           S_BIG = 2000000005L, S_NONINT = 2000000007L;
inline long num(double v) {
   if(std::isnan(v)) return S_NAN;
   if(std::isinf(v)) return v > 0 ? S_POSINF : S_NEGINF;
   if(std::fabs(v) > 1.0e9) return v > 0 ? S_BIG : -S_BIG;
   double r = std::floor(v + 0.5);
   if(std::fabs(v - r) > 1e-6 * std::max(1.0, std::fabs(v))) return S_NONINT;
   return static_cast<long>(r);
}
// fixed point with `scale`, rounded to nearest
inline long fix(double v, double scale) {
   if(std::isnan(v)) return S_NAN;
   if(std::isinf(v)) return v > 0 ? S_POSINF : S_NEGINF;
   v *= scale;
   if(std::fabs(v) > 1.0e9) return v > 0 ? S_BIG : -S_BIG;
   return static_cast<long>(std::floor(v + 0.5));
}
// indices and sizes (unsigned in the library)
inline long idx(unsigned long long v) { return v > 1000000000ULL ? S_BIG : static_cast<long>(v); }

// ---------------------------------------------------------------- JSON
struct J {
   std::string b; bool first;
   J() : b("{"), first(true) {}
   explicit J(const char* op) : b("{"), first(true) { s("op", op); }
   void key(const char* k) { if(!first) b += ','; first = false; b += '"'; b += k; b += "\":"; }
   J& s(const char* k, const std::string& v) { key(k); b += '"'; b += v; b += '"'; return *this; }
   J& i(const char* k, long v) { key(k); b += std::to_string(v); return *this; }
   J& n(const char* k, double v) { return i(k, num(v)); }
   J& t(const char* k, bool v) { key(k); b += v ? "true" : "false"; return *this; }
   J& raw(const char* k, const std::string& v) { key(k); b += v; return *this; }
   template<class C> J& a(const char* k, const C& c) {
      key(k); b += '['; bool f = true;
      for(auto it = c.begin(); it != c.end(); ++it) { if(!f) b += ','; f = false; b += std::to_string(num(static_cast<double>(*it))); }
      b += ']'; return *this;
   }
   template<class C> J& aa(const char* k, const C& c) {
      key(k); b += '['; bool f = true;
      for(auto it = c.begin(); it != c.end(); ++it) {
         if(!f) b += ','; f = false; b += '[';
         bool g = true;
         for(auto jt = it->begin(); jt != it->end(); ++jt) { if(!g) b += ','; g = false; b += std::to_string(num(static_cast<double>(*jt))); }
         b += ']';
      }
      b += ']'; return *this;
   }
   std::string str() const { return b + "}"; }
};

inline std::string jarr(const std::vector<std::string>& v) {
   std::string b = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) b += ','; b += v[i]; } return b + "]";
}

// ---------------------------------------------------------------- RNG
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x632BE59BD9B4E019ULL) { next(); next(); }
   uint64_t next() { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return s * 0x2545F4914F6CDD1DULL; }
   // uniform in [0,n)
   size_t below(size_t n) { return n == 0 ? 0 : static_cast<size_t>((next() >> 11) % n); }
   long range(long lo, long hi) { return lo + static_cast<long>(below(static_cast<size_t>(hi - lo + 1))); }
   bool chance(int pct) { return below(100) < static_cast<size_t>(pct); }
   template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
   template<class T> void shuffle(std::vector<T>& v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[below(i)]); }
};

// ---------------------------------------------------------------- recorder
struct Rec {
   int fd; bool any; Rng rng; bool thorough; size_t count;
   Rec(int f, uint64_t seed, bool th) : fd(f), any(false), rng(seed), thorough(th), count(0) {}
   void raw(const std::string& e) {
      std::string o = (any ? "," : "") + e; any = true; ++count;
      const char* p = o.data(); size_t n = o.size();
      while(n) { ssize_t w = ::write(fd, p, n); if(w <= 0) _exit(77); p += w; n -= static_cast<size_t>(w); }
   }
   void ev(const J& j) { raw(j.str()); }
};

struct Case { std::string name; std::function<void(Rec&)> fn; int cpu; };
struct Driver {
   std::vector<Case> cases; uint64_t seed; bool thorough; int cpu;
   Driver() : seed(1), thorough(false), cpu(60) {}
   void add(const std::string& name, std::function<void(Rec&)> fn) { Case c; c.name = name; c.fn = fn; c.cpu = cpu; cases.push_back(c); }
   size_t n(size_t quick, size_t thoroughN) const { return thorough ? thoroughN : quick; }

   std::string runOne(size_t k) {
      int p[2]; if(pipe(p)) { perror("pipe"); exit(3); }
      std::cout.flush(); fflush(stdout);
      pid_t pid = fork();
      if(pid < 0) { perror("fork"); exit(3); }
      if(pid == 0) {
         ::close(p[0]);
         int dn = ::open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
         struct rlimit r; r.rlim_cur = cases[k].cpu; r.rlim_max = cases[k].cpu + 5; setrlimit(RLIMIT_CPU, &r);
#if !defined(__SANITIZE_ADDRESS__)
         r.rlim_cur = r.rlim_max = 6ULL << 30; setrlimit(RLIMIT_AS, &r);
#endif
         r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
         ::alarm(static_cast<unsigned>(cases[k].cpu) * 10);
         uint64_t h = 1469598103934665603ULL; for(char c : cases[k].name) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
         Rec rec(p[1], seed * 1000003ULL + h % 1000000007ULL, thorough);
         try { cases[k].fn(rec); }
         catch(const std::exception& e) { std::string w = e.what(); std::string q; for(char c : w) if(c >= 32 && c < 127 && c != '"' && c != '\\') q += c; rec.ev(J("exc").s("what", q.substr(0, 160))); _exit(0); }
         catch(...) { rec.ev(J("exc").s("what", "non-std exception")); _exit(0); }
         _exit(0);
      }
      ::close(p[1]);
      std::string s; char buf[65536];
      for(;;) { ssize_t r = ::read(p[0], buf, sizeof buf); if(r > 0) s.append(buf, static_cast<size_t>(r)); else if(r == 0) break; else if(errno != EINTR) break; }
      ::close(p[0]);
      int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if(WIFSIGNALED(st)) {
         int sg = WTERMSIG(st);
         J j((sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) ? "timeout" : "crash"); j.i("sig", sg);
         // drop a torn last event
         size_t depth = 0, lastok = 0; bool instr = false;
         for(size_t i = 0; i < s.size(); ++i) { char c = s[i]; if(c == '"') instr = !instr; if(instr) continue; if(c == '{') ++depth; if(c == '}') { --depth; if(!depth) lastok = i + 1; } }
         s.resize(lastok);
         if(!s.empty()) s += ','; s += j.str();
      } else if(WEXITSTATUS(st) != 0) { if(!s.empty()) s += ','; s += J("crash").i("sig", -WEXITSTATUS(st)).str(); }
      return "{\"k\":" + std::to_string(k) + ",\"name\":\"" + cases[k].name + "\",\"ev\":[" + s + "]}";
   }

   // driver TIER SEED OUT [caseName]
   int main(int argc, char** argv, std::function<void(Driver&)> build) {
      if(argc < 4) { fprintf(stderr, "usage: %s quick|thorough SEED OUT [case]\n", argv[0]); return 3; }
      thorough = std::string(argv[1]) == "thorough"; seed = strtoull(argv[2], 0, 10);
      std::string out = argv[3]; build(*this);
      std::string only = argc > 4 ? argv[4] : "";
      if(!only.empty()) {
         std::ofstream f(out); size_t hit = 0;
         for(size_t k = 0; k < cases.size(); ++k) if(cases[k].name == only) { f << runOne(k) << "\n"; ++hit; }
         return hit ? 0 : 3;
      }
      long nw = sysconf(_SC_NPROCESSORS_ONLN); if(nw < 1) nw = 1; if(nw > 8) nw = 8;
      std::vector<pid_t> ps;
      for(long w = 0; w < nw; ++w) {
         pid_t pid = fork(); if(pid < 0) { perror("fork"); return 3; }
         if(pid == 0) {
            std::ofstream f(out + ".w" + std::to_string(w));
            for(size_t k = static_cast<size_t>(w); k < cases.size(); k += static_cast<size_t>(nw)) f << runOne(k) << "\n";
            f.flush(); _exit(f.good() ? 0 : 4);
         }
         ps.push_back(pid);
      }
      bool ok = true;
      for(pid_t p : ps) { int st; waitpid(p, &st, 0); if(st != 0) ok = false; }
      std::vector<std::unique_ptr<std::ifstream> > in;
      for(long w = 0; w < nw; ++w) in.emplace_back(new std::ifstream(out + ".w" + std::to_string(w)));
      std::ofstream f(out); std::string line;
      for(size_t k = 0; k < cases.size(); ++k) { if(std::getline(*in[k % static_cast<size_t>(nw)], line)) f << line << "\n"; else ok = false; }
      for(long w = 0; w < nw; ++w) ::unlink((out + ".w" + std::to_string(w)).c_str());
      return ok ? 0 : 4;
   }
};
} // namespace tr
#define DRIVER_MAIN(buildFn) int main(int argc, char** argv) { tr::Driver d; return d.main(argc, argv, buildFn); }
