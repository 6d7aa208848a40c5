#include "rt.h"
#include "alloc.h"
struct shl_htable;
extern "C" { size_t g_size(void); void shl_htable_init(shl_htable*,bool(*cmp)(const void*,const void*),size_t(*re)(const void*,void*),void*); void shl_htable_clear(shl_htable*,void(*)(void*,void*),void*); void shl_htable_visit(shl_htable*,void(*)(void*,void*),void*); bool shl_htable_lookup(shl_htable*,const void*,size_t,void**); int shl_htable_insert(shl_htable*,const void*,size_t); bool shl_htable_remove(shl_htable*,const void*,size_t,void**);
void g_static_ulong(shl_htable*); void g_static_str(shl_htable*); void g_init_ulong(shl_htable*); void g_clear_ulong(shl_htable*,void(*)(unsigned long*,void*),void*); void g_visit_ulong(shl_htable*,void(*)(unsigned long*,void*),void*); bool g_lookup_ulong(shl_htable*,unsigned long,unsigned long**); int g_insert_ulong(shl_htable*,const unsigned long*); bool g_remove_ulong(shl_htable*,unsigned long,unsigned long**);
void g_init_str(shl_htable*); bool g_lookup_str(shl_htable*,const char*,size_t*,char***); int g_insert_str(shl_htable*,char**,size_t*); bool g_remove_str(shl_htable*,const char*,size_t*,char***); void g_clear_str(shl_htable*,void(*)(char**,void*),void*); void g_visit_str(shl_htable*,void(*)(char**,void*),void*); }
const CheckInfo CHECK={"C22","insert, remove, lookup, enumerate and clear histories on generic, integer and string tables; elements are real or far-apart artificial addresses, some inserted several times, keys repeat, hashes are random, equal in their low bits or all equal, and failing table growth is injected; after each operation the answer and regularly the enumeration are compared with a multiset. Non-trivial: at least 20 elements at once, at least 5 removals and colliding hashes",400000,1500000};
static int failp=0; static Tape*ft; static bool armed=false; static int sf(){ if(!armed) return 0; armed=false; return 1; }
struct Elem { unsigned long key; size_t hash; uintptr_t ptr; };
// generic tables: elements are addresses, their data lives on the side
static std::map<uintptr_t,Elem*> *side; static unsigned long rehashes;
static const Elem*at(const void*p){ auto i=side->find((uintptr_t)p); if(i==side->end()) fail("the table passes an element %p that was never inserted",p); return i->second; }
static bool cmp(const void*a,const void*b){ return at(a)->key==at(b)->key; }
static size_t re(const void*e,void*priv){ if(priv!=(void*)0x1234) fail("rehash was given the wrong context"); rehashes++; return at(e)->hash; }
typedef std::multiset<uintptr_t> MS;
static void vis(void*e,void*ctx){ ((MS*)ctx)->insert((uintptr_t)e); }
static void diff(const MS&got,const MS&want,const char*what){ if(got==want) return; for(uintptr_t p:want) if(got.count(p)!=want.count(p)) fail("%s delivers element %#lx %zu time(s), expected %zu",what,(long)p,got.count(p),want.count(p)); for(uintptr_t p:got) if(!want.count(p)) fail("%s delivers element %#lx, which is not in the table",what,(long)p); }
void run_case(Case&c){ Tape&t=c.t; long live=vt_live; int kind=t.weighted({70,15,15}); std::vector<char> mem(g_size()); shl_htable*h=(shl_htable*)mem.data(); std::map<uintptr_t,Elem*> sd; side=&sd; MS in; std::map<uintptr_t,unsigned long> key; bool big=false; int removed=0; 
  struct G{ ~G(){ vt_should_fail=nullptr; } } g; armed=false; vt_should_fail=sf; ft=&t;
  int n=t.of(std::vector<int>{3,12,40,120}); int style=t.u(5), space=t.u(6); int keys=1+t.u(n); std::vector<Elem> el(n); std::vector<unsigned long> ul(n); std::vector<std::string> st(n); std::vector<char*> sp(n); std::map<unsigned long,size_t> hk; std::set<uintptr_t> used; std::set<size_t> low;
  std::vector<unsigned long> uk; for(int i=0;i<keys;i++) uk.push_back(style==0?i:style==1?(unsigned long)t.u(8)*64:style==2?(unsigned long)i<<40:(unsigned long)t.raw(8));
  for(int i=0;i<n;i++){ unsigned long k=t.u(keys); el[i].key=k; if(!hk.count(k)) hk[k]= style==0?0:style==1?(t.u(4)):style==2?(size_t)t.raw(8):style==3?(size_t)t.u(256)<<(8*t.u(7)):k; el[i].hash=hk[k]; low.insert(el[i].hash&63);
    if(kind==0){ uintptr_t p; do { switch(space){ case 0: p=0x600000001000+16*t.u(4096); break; case 1: p=0x1000+t.u(1<<20); break; case 2: p=(uintptr_t)t.raw(6)>>1; break; case 3: p=((uintptr_t)1<<(12+t.u(34)))+8*t.u(64); break; case 4: p=0x7fff00000000+t.u(0x100000); break; default: p=t.chance(128)?0x555500000000+8*t.u(1000):0x7ffff0000000+t.u(1<<16); } while(p<4096||used.count(p)) p+=4099; } while(0); used.insert(p); el[i].ptr=p; sd[p]=&el[i]; }
    else if(kind==1){ ul[i]=uk[el[i].key%uk.size()]; el[i].key=ul[i]; el[i].ptr=(uintptr_t)&ul[i]; } else { st[i]=fmt("%s%lx",style==1?"":"key",el[i].key); if(el[i].key==0&&style==2) st[i]=""; sp[i]=&st[i][0]; el[i].ptr=(uintptr_t)&sp[i]; } }
  if(kind==2) for(int i=0;i<n;i++) key[el[i].ptr]=i;
  auto same=[&](const Elem&a,const Elem&b){ return kind==2? st[&a-&el[0]]==st[&b-&el[0]] : a.key==b.key; };
  std::map<uintptr_t,const Elem*> byp; for(auto&e:el) byp[e.ptr]=&e;
  if(kind==0) shl_htable_init(h,cmp,re,(void*)0x1234); else if(t.chance(64)){ c.label("static initialiser"); if(kind==1) g_static_ulong(h); else g_static_str(h); } else if(kind==1) g_init_ulong(h); else g_init_str(h);
  auto present=[&](const Elem&e){ for(uintptr_t p:in) if(same(*byp[p],e)) return true; return false; };
  auto check_elem=[&](void*o,const Elem&e,const char*what){ uintptr_t p=(uintptr_t)o; auto i=byp.find(p); if(i==byp.end()) fail("%s returned %p, which was never inserted",what,o); if(!same(*i->second,e)) fail("%s returned an element with another key",what); if(!in.count(p)) fail("%s returned an element that is not in the table",what); };
  auto enumerate=[&](){ MS got; if(kind==0) shl_htable_visit(h,vis,&got); else if(kind==1) g_visit_ulong(h,(void(*)(unsigned long*,void*))vis,&got); else g_visit_str(h,(void(*)(char**,void*))vis,&got); diff(got,in,"enumeration"); };
  // a table of thousands, from which some are taken again
  size_t fn=kind<2&&t.chance(1)&&t.chance(50)?t.of(std::vector<int>{300,1000,5000,40000}):0; std::vector<Elem> fe(fn); std::vector<unsigned long> fu(fn);
  if(fn){ c.label("thousands of elements"); c.log("%zu more elements",fn); c.mix(fn); int hs=1+t.u(12); for(size_t i=0;i<fn;i++){ Elem&e=fe[i]; e.key=0x7700000000+i*3; e.hash=hs<4?i*0x9E3779B97F4A7C15ull:hs<8?i:i<<hs; if(kind==0){ e.ptr=0x300000000000+16*i; sd[e.ptr]=&e; } else { fu[i]=e.key; e.ptr=(uintptr_t)&fu[i]; } byp[e.ptr]=&e; int r=kind==0?shl_htable_insert(h,(void*)e.ptr,e.hash):g_insert_ulong(h,&fu[i]); if(r) fail("insert returned %d",r); in.insert(e.ptr); }
    enumerate(); int step=1+t.u(9); for(size_t i=0;i<fn;i++){ Elem&e=fe[i]; void*o=nullptr; bool rm=i%step==0; bool r=kind==0?(rm?shl_htable_remove(h,(void*)e.ptr,e.hash,&o):shl_htable_lookup(h,(void*)e.ptr,e.hash,&o)):(rm?g_remove_ulong(h,e.key,(unsigned long**)&o):g_lookup_ulong(h,e.key,(unsigned long**)&o)); if(!r||(uintptr_t)o!=e.ptr) fail("element %zu of %zu is not found",i,fn); if(rm) in.erase(e.ptr); }
    enumerate(); for(size_t i=0;i<fn;i++){ Elem&e=fe[i]; void*o=nullptr; bool r=kind==0?shl_htable_lookup(h,(void*)e.ptr,e.hash,&o):g_lookup_ulong(h,e.key,(unsigned long**)&o); if(r!=(i%step!=0)) fail("element %zu of %zu is %s after removals",i,fn,r?"found":"not found"); } }
  auto l=t.loop(5,fn?10:c.thorough?400:150); int step=0; int bias=t.u(3); // phases of growth and shrinkage
  while(t.more(l)){ step++; if(t.chance(8)) bias=t.u(3); const Elem&e=el[t.u(n)]; int op=t.weighted(bias==0?std::vector<int>{60,20,15,3,0}:bias==1?std::vector<int>{30,40,15,3,1}:std::vector<int>{30,30,30,5,1}); c.mix(op); c.mix(e.ptr%99991);
    switch(op){
      case 0: { if(t.chance(10)) armed=true; c.log("insert(%#lx key %lx hash %#zx)%s",(long)e.ptr,e.key,e.hash,armed?" with failing allocation":""); bool a=armed; size_t hs=0; int r= kind==0?shl_htable_insert(h,(void*)e.ptr,e.hash):kind==1?g_insert_ulong(h,(unsigned long*)e.ptr):g_insert_str(h,(char**)e.ptr,t.chance(128)?&hs:nullptr); bool fired=a&&!armed; armed=false; if(r==0&&fired) fail("insert succeeded although growing the table failed"); if(r!=0&&!fired) fail("insert returned %d",r); if(r==0) in.insert(e.ptr); else { c.label("failed insert"); } break; }
      case 1: { void*o=nullptr; size_t hs=0; bool want=present(e); bool nul=t.chance(30); c.log("remove(key %lx)",e.key); bool r= kind==0?shl_htable_remove(h,(void*)e.ptr,e.hash,nul?nullptr:&o):kind==1?g_remove_ulong(h,e.key,nul?nullptr:(unsigned long**)&o):g_remove_str(h,st[&e-&el[0]].c_str(),t.chance(128)?&hs:nullptr,nul?nullptr:(char***)&o); if(r!=want) fail("removing key %lx %s, although it is %s",e.key,r?"succeeded":"failed",want?"present":"absent"); if(r){ removed++; if(!nul){ check_elem(o,e,"remove"); in.erase(in.find((uintptr_t)o)); } else { MS got; if(kind==0) shl_htable_visit(h,vis,&got); else if(kind==1) g_visit_ulong(h,(void(*)(unsigned long*,void*))vis,&got); else g_visit_str(h,(void(*)(char**,void*))vis,&got); uintptr_t gone=0; int k=0; for(auto i=in.begin();i!=in.end();i=in.upper_bound(*i)) if(got.count(*i)!=in.count(*i)){ gone=*i; k+=(int)in.count(*i)-(int)got.count(*i); } if(k!=1) fail("one remove took %d elements",k); if(!same(*byp[gone],e)) fail("remove took an element with another key"); in.erase(in.find(gone)); } } break; }
      case 2: { void*o=nullptr; size_t hs=0; bool want=present(e); c.log("lookup(key %lx)",e.key); bool nul=t.chance(30); bool r= kind==0?shl_htable_lookup(h,(void*)e.ptr,e.hash,nul?nullptr:&o):kind==1?g_lookup_ulong(h,e.key,nul?nullptr:(unsigned long**)&o):g_lookup_str(h,st[&e-&el[0]].c_str(),t.chance(128)?&hs:nullptr,nul?nullptr:(char***)&o); if(r!=want) fail("looking up key %lx %s, although it is %s",e.key,r?"succeeded":"failed",want?"present":"absent"); if(r&&!nul) check_elem(o,e,"lookup"); break; }
      case 3: c.log("enumerate"); enumerate(); break;
      default: { c.log("clear"); MS got; bool cb=t.chance(200); if(kind==0) shl_htable_clear(h,cb?vis:nullptr,&got); else if(kind==1) g_clear_ulong(h,cb?(void(*)(unsigned long*,void*))vis:nullptr,&got); else g_clear_str(h,cb?(void(*)(char**,void*))vis:nullptr,&got); if(cb) diff(got,in,"clear"); in.clear(); enumerate(); c.label("clear"); } }
    if(in.size()>=20) big=true; if(step%16==0) enumerate(); }
  enumerate(); for(auto&e:el){ void*o=nullptr; size_t hs=0; bool want=present(e); bool r= kind==0?shl_htable_lookup(h,(void*)e.ptr,e.hash,&o):kind==1?g_lookup_ulong(h,e.key,(unsigned long**)&o):g_lookup_str(h,st[&e-&el[0]].c_str(),&hs,(char***)&o); if(r!=want) fail("finally key %lx is %s, although it is %s",e.key,r?"found":"not found",want?"present":"absent"); }
  MS got; shl_htable_clear(h,vis,&got); diff(got,in,"the final clear"); if(vt_live!=live) fail("%ld allocation(s) live after clearing",vt_live-live); static const char*nm[]={"generic","integers","strings"}; c.label(nm[kind]); if(big&&removed>=5&&(low.size()<(size_t)keys||keys<n)) c.nontrivial(); }
