#include "rt.h"
#include "alloc.h"
#include <cerrno>
#include <climits>
extern "C" { struct g_obj { void(*llog)(void*,const char*,int,const char*,const char*,unsigned,const char*,va_list); void*llog_data; };
int g_mult(int,uint64_t*,uint64_t); int64_t g_pick(int,int,int64_t,int64_t,int64_t,int*); size_t g_align(size_t); bool g_ptr(int,uint64_t); bool g_container(unsigned,unsigned); int g_scope(int,int,size_t,int,int,int); void g_zero(void*,size_t,uint32_t*); int g_log(int,g_obj*,int,int*,const char*,int); extern int g_closed[8],g_nclosed; }
const CheckInfo CHECK={"C40","the shared helper macros and functions on generated operands: safe multiplications of every width near their limits against 128-bit arithmetic, minimum, maximum and clamp over six types with counted evaluations, alignment to powers of two, pointer casts, container lookups, scope cleanup (freed memory, closed descriptors, errno) and every log and log-and-return helper with and without a receiver. Non-trivial: at least one product, one alignment, one scope and one log call with a receiver",1500000,15000000};
struct Got { int n; void*data; std::string file,func,subs,text; int line; unsigned sev; };
static void receiver(void*d,const char*file,int line,const char*func,const char*subs,unsigned sev,const char*f,va_list a){ int e=errno; Got&g=*(Got*)d; g.n++; g.data=d; g.file=file?file:""; g.func=func?func:""; g.subs=subs?subs:""; g.line=line; g.sev=sev; g.text=vfmt(f,a); errno=e; }
static uint64_t val(Tape&t,int bits){ uint64_t m=bits==64?~0ull:(1ull<<bits)-1,v; switch(t.u(7)){ case 0: v=t.u(300); break; case 1: v=t.raw(8); break; case 2: v=(1ull<<t.u(bits))+t.range(-2,2); break; case 3: v=m-t.u(4); break; case 4: v=t.raw(1+t.u(8)); break; case 5: v=(m>>(bits/2))+t.range(-3,3); break; default: { uint64_t d=t.u(300)+1; v=m/d+t.range(-1,1); } } return v&m; }
void run_case(Case&c){ Tape&t=c.t; long live=vt_live; int did=0; auto l=t.loop(4,c.thorough?60:30); while(t.more(l)){ switch(t.u(8)){
  case 0: { static const int W[]={64,64,32,64,32,16,8}; int k=t.u(7); uint64_t a=val(t,W[k]),b=val(t,W[k]),m=W[k]==64?~0ull:(1ull<<W[k])-1; if(t.chance(128)&&b) a=m/b+t.range(-1,1)&m; c.mix(k*7+1); c.mix(a); c.mix(b); c.log("multiplication %d: %llu * %llu",k,(unsigned long long)a,(unsigned long long)b); unsigned __int128 p=(unsigned __int128)a*b; uint64_t v=a; int r=g_mult(k,&v,b); if(p>m){ if(r!=-ERANGE) fail("%llu * %llu overflows %d bits, the result is %d",(unsigned long long)a,(unsigned long long)b,W[k],r); if(v!=a) fail("a refused multiplication changes the value"); c.label("refused product"); } else if(r||v!=(uint64_t)p) fail("%llu * %llu in %d bits returns %d and gives %llu",(unsigned long long)a,(unsigned long long)b,W[k],r,(unsigned long long)v); did|=1; break; }
  case 1: { int k=t.u(5),ty=t.u(6); int64_t x[3]; for(auto&y:x) y=(int64_t)val(t,64); if(t.chance(60)) x[1]=x[0]; auto cv=[&](int64_t y)->__int128{ switch(ty){ case 0: return (int)y; case 1: return (unsigned)y; case 2: return y; case 3: return (uint64_t)y; case 4: return (uint8_t)y; default: return (int16_t)y; } }; __int128 a=cv(x[0]),b=cv(x[1]),d=cv(x[2]); if(k==2&&b>d){ std::swap(x[1],x[2]); std::swap(b,d); } int n[3]={0,0,0}; c.mix(k*11+ty); c.mix(x[0]); c.mix(x[1]); c.log("%s of type %d: %lld %lld %lld",k==0||k==3?"minimum":k==2?"clamp":"maximum",ty,(long long)x[0],(long long)x[1],(long long)x[2]); __int128 got=cv(g_pick(k,ty,x[0],x[1],x[2],n)),want=k==0||k==3?std::min(a,b):k==2?(a<b?b:a>d?d:a):std::max(a,b); if(got!=want) fail("it is %lld, expected %lld",(long long)got,(long long)want); if(n[0]!=1||n[1]!=1||n[2]!=(k==2)) fail("the arguments are evaluated %d, %d and %d times",n[0],n[1],n[2]); break; }
  case 2: { uint64_t u=val(t,64),want=u&&u<=1ull<<63?1:0; while(want&&want<u) want*=2; c.mix(u); c.log("align %llu",(unsigned long long)u); uint64_t got=g_align(u); if(got!=want) fail("%llu is aligned to %llu, expected %llu",(unsigned long long)u,(unsigned long long)got,(unsigned long long)want); if(!want) c.label("alignment overflow or zero"); did|=2; break; }
  case 3: { int k=t.u(8); uint64_t v=val(t,64); c.mix(v+k); c.log("pointer cast %d of %llx",k,(unsigned long long)v); if(!g_ptr(k,v)) fail("a value cast to a pointer and back changes"); break; }
  case 4: { unsigned i=t.u(3),j=t.u(7); c.mix(i*7+j); c.log("container %u %u",i,j); if(!g_container(i,j)) fail("a container or an array length is wrong"); break; }
  case 5: { int f1=t.of(std::vector<int>{-1,0,1,77,-9,INT_MAX,INT_MIN}),f2=t.of(std::vector<int>{-1,0,5,1000}),b=t.u(130),in=t.u(130),e=t.u(4); size_t n=t.u(9)*t.u(40); c.mix(f1); c.mix(f2); c.mix(b*200+in); c.log("scope with descriptors %d and %d, %zu bytes, errno %d then %d, way out %d",f1,f2,n,b,in,e); g_nclosed=0; long l0=vt_live; int r=g_scope(f1,f2,n,b,in,e); if(e==2) r=b; std::vector<int> want; if(f2>=0) want.push_back(f2); if(f1>=0) want.push_back(f1); std::vector<int> got(g_closed,g_closed+std::min(g_nclosed,8)); std::sort(want.begin(),want.end()); std::sort(got.begin(),got.end()); if(got!=want) fail("the scope closes %d descriptor(s), expected %zu",g_nclosed,want.size()); if(vt_live!=l0) fail("the scope leaves %ld allocation(s)",vt_live-l0); if(r!=b) fail("errno is %d after the scope, it was %d",r,b); did|=4; break; }
  case 6: { size_t n=t.u(70); std::vector<uint8_t> m(n+16,0xa5); uint32_t v[3]={~0u,~0u,~0u}; c.mix(n); c.log("zero %zu bytes",n); g_zero(&m[8],n,&v[1]); for(size_t i=0;i<m.size();i++) if(m[i]!=(i>=8&&i<8+n?0:0xa5)) fail("byte %zd is %02x after zeroing %zu",(ssize_t)i-8,m[i],n); if(v[1]||v[0]!=~0u||v[2]!=~0u) fail("zeroing a variable"); break; }
  default: { int k=t.u(40),e=1+t.u(130); bool rec=!t.chance(40); std::string s; size_t n=t.chance(10)?2000:t.u(20); while(s.size()<n) s+=(char)(33+t.u(94)); int arg=(int)val(t,32); Got g={}; g_obj o={rec?receiver:nullptr,&g}; int line=0; c.mix(k*300+e); c.mix(s); c.log("log helper %d, error %d, text %zu, %s",k,e,n,rec?"receiver":"no receiver"); int r=g_log(k,&o,e,&line,s.c_str(),arg); int want=0; unsigned sev=3; std::string text; if(k<24){ static const int E[]={EINVAL,EFAULT,ENOMEM,EPIPE}; static const char*M[]={"invalid arguments","internal operation failed","out of memory","fd closed unexpectedly"}; want=k<16?-E[k/4]:-e; if(k<16) text=M[k/4]; else text=fmt("syscall failed (%d): %s",k<20?e:-e,strerror(e)); if(k%4>1) want=0; } else { static const unsigned S[]={7,6,5,4,3,2,1,0}; sev=S[(k-24)%8]; text=s+fmt("/%d",arg); } if(r!=want) fail("log helper %d returns %d, expected %d",k,r,want); if(g.n!=rec) fail("log helper %d gives %d messages",k,g.n); if(rec){ if(g.sev!=sev) fail("log helper %d has severity %u, expected %u",k,g.sev,sev); if(g.text!=text) fail("log helper %d says '%s', expected '%s'",k,esc(g.text).c_str(),esc(text).c_str()); if(g.line!=line||g.func!="g_log"||g.subs!="subsys"||g.file.find("C40.c")==std::string::npos) fail("log helper %d names the wrong place: %s:%d %s %s",k,g.file.c_str(),g.line,g.func.c_str(),g.subs.c_str()); did|=8; } } } }
  if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); if(did==15) c.nontrivial(); if(did&8) c.label("message delivered"); }
