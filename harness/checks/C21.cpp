#include "rt.h"
#include "alloc.h"
extern "C" { typedef uint32_t tsm_symbol_t; struct tsm_symbol_table; int tsm_symbol_table_new(struct tsm_symbol_table**out); void tsm_symbol_table_ref(struct tsm_symbol_table*); void tsm_symbol_table_unref(struct tsm_symbol_table*); tsm_symbol_t tsm_symbol_make(uint32_t); tsm_symbol_t tsm_symbol_append(struct tsm_symbol_table*,tsm_symbol_t,uint32_t); const uint32_t*tsm_symbol_get(struct tsm_symbol_table*,tsm_symbol_t*,size_t*); unsigned int tsm_symbol_get_width(struct tsm_symbol_table*,tsm_symbol_t); unsigned int tsm_ucs4_get_width(uint32_t); int ref_wcwidth(uint32_t); }
const CheckInfo CHECK={"C21","histories of appends (repeated bases and marks so that sequences recur, chains past the maximum length, invalid characters, bulk growth through many resizes of the table), decompositions and width queries on one or two symbol tables with extra references, compared with a map from sequences to symbols. Non-trivial: at least 12 composed symbols exist, one sequence was built twice and one had at least 3 characters",60000,400000};
static const uint32_t MAXC=0x7fffffffu; static const size_t MAXLEN=10;
typedef std::vector<uint32_t> Seq;
struct Tab { struct tsm_symbol_table*t; std::map<Seq,uint32_t> bySeq; std::map<uint32_t,Seq> byId; std::vector<uint32_t> ids; int refs=1;
  Seq seq(uint32_t s){ if(s<=MAXC) return {s}; auto i=byId.find(s); return i==byId.end()?Seq{0}:i->second; } };
static std::string str(const Seq&s){ std::string o; for(uint32_t c:s) o+=fmt("%sU+%X",o.empty()?"":" ",c); return o; }
static void get(Tab&T,uint32_t s){ uint32_t copy=s; size_t n=99; const uint32_t*p=tsm_symbol_get(T.t,&copy,&n); Seq e=T.seq(s); if(!p) fail("symbol %#x decomposes to nothing",s); if(n!=e.size()||memcmp(p,e.data(),n*4)) fail("symbol %#x decomposes to [%s] (%zu), expected [%s]",s,n<20?str(Seq(p,p+n)).c_str():"",n,str(e).c_str()); if(copy!=s) fail("decomposing changed the symbol"); copy=s; const uint32_t*q=tsm_symbol_get(T.t,&copy,nullptr); if(memcmp(q,e.data(),e.size()*4)) fail("symbol %#x decomposes differently without a size",s);
  unsigned w=tsm_symbol_get_width(T.t,s), ew=tsm_ucs4_get_width(e[0]); if(w!=ew) fail("symbol %#x [%s] is %u columns wide, its base is %u",s,str(e).c_str(),w,ew); }
static uint32_t append(Tab&T,uint32_t s,uint32_t c){ uint32_t r=tsm_symbol_append(T.t,s,c); Seq e=T.seq(s); if(c>MAXC||e.size()>=MAXLEN){ if(r!=s) fail("appending U+%X to symbol %#x [%s] gives %#x, expected the symbol unchanged",c,s,str(e).c_str(),r); return r; } e.push_back(c); auto i=T.bySeq.find(e); if(i!=T.bySeq.end()){ if(i->second!=r) fail("sequence [%s] gives symbol %#x, earlier it gave %#x",str(e).c_str(),r,i->second); return r; } if(r<=MAXC) fail("composing [%s] gives the plain character U+%X",str(e).c_str(),r); if(T.byId.count(r)) fail("sequence [%s] gives symbol %#x, which already stands for [%s]",str(e).c_str(),r,str(T.byId[r]).c_str()); T.bySeq[e]=r; T.byId[r]=e; T.ids.push_back(r); return r; }
void run_case(Case&c){ Tape&t=c.t; long live=vt_live; { Tab tab[2]; int nt=1+(t.chance(60)); for(int i=0;i<nt;i++) if(tsm_symbol_table_new(&tab[i].t)) fail("creation failed"); bool again=false,deep=false; int bulk=0;
  if(t.chance(1)&&t.chance(12)){ Tab&T=tab[0]; int n=t.of(std::vector<int>{5000,32800,65600}); for(int i=0;i<n;i++) append(T,0x4e00+i%20000,(i*0x9E3779B1u)>>12&0xfffff); c.label("tens of thousands of symbols"); c.mix(n); }
  auto l=t.loop(4,c.thorough?200:70); while(t.more(l)){ Tab&T=tab[nt>1?t.u(2):0]; auto sym=[&]()->uint32_t{ switch(t.weighted({30,40,4,3,3})){ case 0: return 'a'+t.u(4); case 1: if(T.ids.size()) return T.ids[t.u(T.ids.size())]; return 'a'; case 2: return t.of(Seq{0,MAXC,0x10ffff,0xfffd,0x300,0x4e00}); case 3: return t.of(Seq{MAXC+1,0xffffffffu}); default: return MAXC+1+t.u(T.ids.size()+6); } };
    auto mark=[&]()->uint32_t{ switch(t.weighted({40,8,3,3})){ case 0: return 0x300+t.u(4); case 1: return t.of(Seq{'a','b',0,0x10ffff,MAXC,MAXC-1}); case 2: return t.of(Seq{MAXC+1,0xffffffffu,MAXC+2}); default: return 0x300+t.u(0x70); } };
    switch(t.weighted({60,14,8,4,4,4})){
      case 0: { uint32_t s=sym(),m=mark(); size_t n=T.ids.size(); uint32_t r=append(T,s,m); c.mix(s); c.mix(m); if(c.verbose) c.log("table %d: append(%#x,U+%X) = %#x",(int)(&T-tab),s,m,r); if(r>MAXC&&r!=s&&n==T.ids.size()) again=true; if(T.seq(r).size()>=3) deep=true; get(T,r); get(T,s); break; }
      case 1: { uint32_t s=sym(); c.log("table %d: get(%#x)",(int)(&T-tab),s); c.mix(s); get(T,s); break; }
      case 2: { uint32_t s=sym(); int n=1+t.u(13); c.log("table %d: chain of %d onto %#x",(int)(&T-tab),n,s); for(int i=0;i<n;i++){ c.mix(n); s=append(T,s,0x300+t.u(3)); get(T,s); if(T.seq(s).size()>=3) deep=true; if(T.seq(s).size()==MAXLEN) c.label("maximum length"); } break; }
      case 3: if(bulk<600){ int n=t.of(std::vector<int>{10,40,100,300}); uint32_t b='A'+t.u(3); c.log("table %d: bulk of %d onto %#x",(int)(&T-tab),n,b); c.mix(n*b); for(int i=0;i<n;i++) append(T,b,0x1000+i*(1+b%3)); bulk+=n; c.label("bulk"); break; } break;
      case 4: if(T.refs<4&&t.chance(128)){ tsm_symbol_table_ref(T.t); T.refs++; c.log("ref"); } else if(T.refs>1){ tsm_symbol_table_unref(T.t); T.refs--; c.log("unref"); } break;
      default: { uint32_t v=t.chance(128)?(uint32_t)t.raw(4):t.of(Seq{0,1,'a',MAXC,MAXC+1,0xffffffffu}); uint32_t r=tsm_symbol_make(v); if(r!=(v<=MAXC?v:0)) fail("plain character U+%X becomes symbol %#x",v,r); } } }
  for(int i=0;i<nt;i++){ Tab&T=tab[i]; for(uint32_t s:T.ids) get(T,s); for(auto&p:T.bySeq){ Seq b(p.first.begin(),p.first.end()-1); if(b.size()==1&&b[0]<=MAXC){ uint32_t r=tsm_symbol_append(T.t,b[0],p.first.back()); if(r!=p.second) fail("sequence [%s] now gives symbol %#x, earlier it gave %#x",str(p.first).c_str(),r,p.second); } } if(T.ids.size()>=12&&again&&deep) c.nontrivial(); while(T.refs-->0) tsm_symbol_table_unref(T.t); } }
  if(vt_live!=live) fail("%ld allocation(s) live after the tables were released",vt_live-live); }
