// Runtime shared by driver and checks: choice tape, case context, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <stdexcept>

struct Rng { uint64_t s; explicit Rng(uint64_t x=1):s(x){}
  uint64_t next(){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} };

// All randomness of a case is read from here. Generating: bytes come from the
// PRNG and are recorded. Replaying: bytes are read, zeroes after the end.
struct Tape {
  static const uint32_t CAP=1u<<20;
  uint8_t *buf; uint32_t *len; uint32_t pos=0; bool gen; Rng rng;
  std::vector<std::pair<uint32_t,uint32_t>> spans;
  Tape(uint8_t*b,uint32_t*l,bool g,uint64_t seed):buf(b),len(l),gen(g),rng(seed){ if(gen)*len=0; }
  uint64_t rb=0; int rn=0;
  uint8_t byte(){
    if(gen){ if(rn==0){ rb=rng.next(); rn=8; } uint8_t v=rb; rb>>=8; rn--; if(pos<CAP){ buf[pos]=v; *len=++pos; return v;} return 0; }
    if(pos<*len) return buf[pos++];
    pos++; return 0;
  }
  uint64_t raw(int n){ uint64_t v=0; while(n--) v=(v<<8)|byte(); return v; }
  // uniform in [0,n)
  uint64_t u(uint64_t n){ if(n<=1) return 0; if(n<=256){ return n==256?byte(): (uint64_t)byte()*n>>8; } if(n<=65536) return raw(2)*n>>16; return n>>32?raw(8)%n:raw(4)*n>>32; }
  int64_t range(int64_t lo,int64_t hi){ return lo+(int64_t)u(hi-lo+1); }
  // true with probability p/256; a zero byte gives false
  bool chance(int p){ return byte()>=256-p; }
  template<class T> const T& of(const std::vector<T>&v){ return v[u(v.size())]; }
  int weighted(std::initializer_list<int> w){ int t=0; for(int x:w) t+=x; int r=u(t),i=0; for(int x:w){ if(r<x) return i; r-=x; i++; } return 0; }
  int weighted(const std::vector<int>&w){ int t=0; for(int x:w) t+=x; int r=u(t),i=0; for(int x:w){ if(r<x) return i; r-=x; i++; } return 0; }
  // loop control: while(t.more(n)) {...}; one flag byte per iteration, so
  // deleting an op's span (flag + choices) removes exactly that op
  struct Loop { int left; bool started=false; };
  Loop loop(int lo,int hi){ Loop l; l.left = gen? (int)(lo+ rng.next()%(uint64_t)(hi-lo+1)) : 1<<30; return l; }
  uint32_t open=~0u; 
  bool more(Loop&l){
    if(l.started && spanStack.size()) { spans.push_back({spanStack.back(),pos}); spanStack.pop_back(); }
    uint32_t p=pos; bool go;
    if(gen){ uint8_t v = l.left-->0 ? (uint8_t)(1+rng.next()%255) : 0; if(pos<CAP){ buf[pos]=v; *len=++pos; } else v=0; go=v; if(pos>=CAP-4096) go=false; }
    else { go = byte()!=0; }
    if(go){ l.started=true; spanStack.push_back(p);} return go;
  }
  std::vector<uint32_t> spanStack;
};

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct Known : std::runtime_error { using std::runtime_error::runtime_error; };

std::string vfmt(const char*fmt, va_list a);
std::string fmt(const char*f, ...) __attribute__((format(printf,1,2)));
std::string esc(const std::string&s);
inline std::string esc(const char*s,size_t n){ return esc(std::string(s,n)); }

struct Case {
  Tape &t; bool verbose; bool thorough; FILE*out; uint64_t h=1469598103934665603ull; bool nontriv=false; 
  std::string trace; std::map<std::string,int> labels;
  Case(Tape&tt,bool v,bool th):t(tt),verbose(v),thorough(th),out(nullptr){}
  void mix(uint64_t x){ h^=x; h*=1099511628211ull; h^=h>>29; }
  void mix(const std::string&s){ for(unsigned char c:s) mix((uint64_t)c+1); mix(0x1000); }
  void label(const char*l){ labels[l]=1; }
  void nontrivial(){ nontriv=true; }
  void log(const char*f,...) __attribute__((format(printf,2,3)));
};
[[noreturn]] void fail(const char*f,...) __attribute__((format(printf,1,2)));

// each check defines these
struct CheckInfo { const char*id; const char*rule; long quick; long thorough; };
extern const CheckInfo CHECK;
void run_case(Case&c);
