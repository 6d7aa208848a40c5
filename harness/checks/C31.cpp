#include "rt.h"
#include "alloc.h"
#include <cerrno>
struct shl_array;
extern "C" { int g_new(shl_array**,size_t,size_t); void g_free(shl_array*); int g_zresize(shl_array*,size_t); int g_push(shl_array*,const void*); void g_pop(shl_array*); void*g_data(shl_array*); size_t g_len(shl_array*); size_t g_bsize(shl_array*); size_t g_esize(shl_array*); }
const CheckInfo CHECK={"C31","push, pop and zero-filling resize histories on arrays of random element size and initial capacity, with failing growth and missing arguments; length, byte size and every element are compared with a sequence after each operation. Non-trivial: the array grew past its capacity at least twice, and shrank and grew again within it",120000,600000};
static bool armed=false; static int sf(){ if(!armed) return 0; armed=false; return 1; }
void run_case(Case&c){ Tape&t=c.t; long live=vt_live; struct G{ ~G(){ vt_should_fail=nullptr; } } g; armed=false; vt_should_fail=sf; size_t es=t.of(std::vector<int>{1,2,4,8,3,12,24,100}), n0=t.of(std::vector<int>{0,1,2,3,4,7,16}); shl_array*a=nullptr; c.mix(es*100+n0); c.log("new(%zu,%zu)",es,n0);
  if(g_new(nullptr,es,n0)!=-EINVAL||g_new(&a,0,n0)!=-EINVAL||a) fail("creating without a target or element size is accepted"); if(t.chance(20)){ armed=true; int r=g_new(&a,es,n0); armed=false; if(r!=-ENOMEM||a) fail("failing creation returned %d",r); if(vt_live!=live) fail("failing creation leaks"); } if(g_new(&a,es,n0)) fail("creation failed"); std::vector<std::string> m; bool regrow=false,shrunk=false; int grown=0; uint8_t next=1;
  auto verify=[&](){ if(g_len(a)!=m.size()) fail("length is %zu, expected %zu",g_len(a),m.size()); if(g_bsize(a)!=m.size()*es||g_esize(a)!=es) fail("byte size is %zu of %zu, expected %zu of %zu",g_bsize(a),g_esize(a),m.size()*es,es); const char*d=(const char*)g_data(a); for(size_t i=0;i<m.size();i++) if(memcmp(d+i*es,m[i].data(),es)) fail("element %zu of %zu is \"%s\", expected \"%s\"",i,m.size(),esc(std::string(d+i*es,es)).c_str(),esc(m[i]).c_str()); };
  auto l=t.loop(4,c.thorough?120:50); while(t.more(l)){ switch(t.weighted({50,25,25,3})){
    case 0: { std::string e(es,0); for(auto&x:e) x=(char)(next++|1); bool arm=t.chance(16); armed=arm; long k=vt_calls; int r=g_push(a,e.data()); bool fired=arm&&!armed; armed=false; c.mix(1); c.log("push%s = %d",fired?" (allocation fails)":"",r); if((r!=0)!=fired) fail("push returned %d",r); if(!r){ m.push_back(e); if(vt_calls!=k) grown++; } break; }
    case 1: { int n=1+t.u(3); c.log("pop x%d",n); c.mix(n); while(n--){ g_pop(a); if(m.size()){ m.pop_back(); shrunk=true; } } break; }
    case 2: { size_t n=t.chance(200)?t.u(m.size()+6):t.u(120); if(es<=4&&t.chance(1)&&t.chance(12)){ n=t.of(std::vector<int>{255,256,257,32768,65536,65537}); c.label("tens of thousands of entries"); } bool arm=t.chance(16); armed=arm; long k=vt_calls; int r=g_zresize(a,n); bool fired=arm&&!armed; armed=false; c.mix(n+5); c.log("zresize(%zu)%s = %d",n,fired?" (allocation fails)":"",r); if((r!=0)!=fired) fail("resize returned %d",r); if(!r){ if(n<m.size()) shrunk=true; if(n>m.size()&&shrunk&&vt_calls==k) regrow=true; if(vt_calls!=k) grown++; m.resize(n,std::string(es,0)); } break; }
    default: if(g_push(a,nullptr)!=-EINVAL||g_push(nullptr,"")!=-EINVAL||g_zresize(nullptr,3)!=-EINVAL||g_len(nullptr)||g_data(nullptr)||g_bsize(nullptr)||g_esize(nullptr)) fail("a missing argument is accepted"); g_pop(nullptr); }
    verify(); }
  g_free(a); g_free(nullptr); if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); if(grown>=2&&regrow) c.nontrivial(); }
