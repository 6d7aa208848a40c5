#include "rt.h"
#include "alloc.h"
#include <sys/uio.h>
#include <cerrno>
struct shl_ring;
extern "C" { size_t g_size(void); size_t g_used(shl_ring*); void shl_ring_flush(shl_ring*); void shl_ring_clear(shl_ring*); size_t shl_ring_peek(shl_ring*,struct iovec*); size_t shl_ring_copy(shl_ring*,void*,size_t); int shl_ring_push(shl_ring*,const void*,size_t); void shl_ring_pull(shl_ring*,size_t); }
const CheckInfo CHECK={"C25","push, pull, peek, copy, flush and clear histories with sizes from 0 to several times the buffer, biased to end exactly at, before and after its end, plus failing growth; contents are compared with a double-ended queue after each operation. Non-trivial: the contents wrapped around the end of the buffer and the buffer grew while wrapped or twice",48000,300000};
static bool armed=false; static int sf(){ if(!armed) return 0; armed=false; return 1; }
void run_case(Case&c){ Tape&t=c.t; long live=vt_live; std::vector<char> mem(g_size(),0); shl_ring*r=(shl_ring*)mem.data(); std::deque<uint8_t> q; uint8_t next=t.u(256); size_t cap=0,wr=0; bool huge=t.chance(1)&&t.chance(100); if(huge) c.label("hundreds of kilobytes"); bool wrapped=false; int grown=0; struct G{ ~G(){ vt_should_fail=nullptr; } } g; armed=false; vt_should_fail=sf; 
  auto verify=[&](){ if(g_used(r)!=q.size()) fail("the ring reports %zu bytes, it holds %zu",g_used(r),q.size()); struct iovec v[2]; memset(v,0,sizeof v); size_t n=shl_ring_peek(r,v); if(n>2) fail("peek fills %zu pieces",n); if(n!=shl_ring_peek(r,nullptr)) fail("peek without pieces answers differently"); if((n==0)!=q.empty()) fail("peek fills %zu pieces for %zu bytes",n,q.size()); size_t tot=0; for(size_t i=0;i<n;i++){ const uint8_t*p=(const uint8_t*)v[i].iov_base; if(!v[i].iov_len) fail("peek gives an empty piece"); for(size_t k=0;k<v[i].iov_len;k++,tot++){ if(tot>=q.size()) fail("peek shows more than the %zu bytes stored",q.size()); if(p[k]!=q[tot]) fail("byte %zu is %02x, expected %02x",tot,p[k],q[tot]); } } if(tot!=q.size()) fail("peek shows %zu of %zu bytes",tot,q.size()); if(n==2) wrapped=true; };
  auto size=[&]()->size_t{ size_t room=cap>q.size()?cap-q.size():0; switch(t.weighted({30,14,10,8,8,6,2})){ case 0: return t.u(200); case 1: return t.u(4100); case 2: return room; case 3: return room+1; case 4: return room?room-1:0; case 5: return cap>wr%(cap?cap:1)?cap-wr%(cap?cap:1):1; default: return t.of(std::vector<int>{4095,4096,4097,8192,12000}); } };
  auto l=t.loop(4,c.thorough?120:50); while(t.more(l)){ switch(t.weighted({50,40,10,2,2,1})){
    case 5: { size_t n=t.chance(128)?~(size_t)0-t.u(70000):((size_t)1<<63)+1+t.u(70000); c.log("push of %zu",n); c.label("more than the address space"); c.mix(n); armed=true; int e=shl_ring_push(r,"",n); armed=false; if(e!=-ENOMEM) fail("push of %zu bytes returned %d",n,e); break; }
    case 0: { size_t n=size(); if(huge&&t.chance(100)) n=t.of(std::vector<int>{65535,65536,65537,100000,200000}); if(q.size()+n>(huge?700000u:60000u)) n=t.u(100); std::vector<uint8_t> b(n); for(auto&x:b) x=next++*167+3; if(t.chance(12)) armed=true; bool a=armed; c.mix(n); c.log("push %zu%s",n,armed?" with failing allocation":""); size_t calls=vt_calls; uint8_t*p=(uint8_t*)::malloc(n?n:1); if(n) memcpy(p,b.data(),n); int e=shl_ring_push(r,p,n); ::free(p); bool fired=a&&!armed; armed=false; if(e&&!fired) fail("push of %zu returned %d",n,e); if(!e&&fired) fail("push succeeded although growing failed"); if(!e){ if((size_t)vt_calls!=calls){ grown++; cap=4096; while(cap<q.size()+n) cap*=2; wr=q.size(); } q.insert(q.end(),b.begin(),b.end()); wr+=n; } else c.label("failed push"); break; }
    case 1: { size_t n; switch(t.u(5)){ case 0: n=q.size(); break; case 1: n=q.size()+1+t.u(50); break; case 2: n=t.u(q.size()+1); break; case 3: n=q.size()?q.size()-1:0; break; default: n=t.u(300); } c.mix(n+7); c.log("pull %zu",n); shl_ring_pull(r,n); q.erase(q.begin(),q.begin()+std::min(n,q.size())); break; }
    case 2: { size_t n=t.chance(128)?t.u(q.size()+20):q.size(); c.log("copy %zu",n); uint8_t*b=(uint8_t*)::malloc(n?n:1); memset(b,0xee,n?n:1); size_t got=shl_ring_copy(r,b,n); std::string bad; if(got!=std::min(n,q.size())) bad=fmt("copy of %zu gives %zu of %zu bytes",n,got,q.size()); for(size_t i=0;i<n&&bad.empty();i++) if(i<got? b[i]!=q[i] : b[i]!=0xee) bad=fmt("copied byte %zu is %02x",i,b[i]); ::free(b); if(bad.size()) fail("%s",bad.c_str()); break; }
    case 3: c.log("flush"); shl_ring_flush(r); q.clear(); wr=0; break;
    default: c.log("clear"); shl_ring_clear(r); q.clear(); cap=wr=0; if(vt_live!=live) fail("clear keeps %ld allocation(s)",vt_live-live); }
    verify(); }
  shl_ring_clear(r); if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); if(wrapped&&grown>=2) c.nontrivial(); if(wrapped) c.label("wrapped"); }
