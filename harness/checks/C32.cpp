#include "ops.h"
extern "C" uint32_t g_append(struct tsm_screen*s,uint32_t sym,uint32_t c);
const CheckInfo CHECK={"C32","histories of printing (plain, wide and combined symbols of up to ten characters, with many compositions so that symbol numbers vary), attributes, editing, scrolling, moving the view, selecting, the whole-screen flags and resizing; every redraw is recorded by a renderer that keeps a glyph cache keyed by the reported id for the whole history and whose return values are random. Non-trivial: at least 3 redraws, a combined symbol and two attribute combinations were drawn",16000,60000};
typedef std::vector<uint32_t> Seq;
static std::string sq(const Seq&s){ std::string o; for(uint32_t c:s) o+=fmt("%sU+%X",o.empty()?"":" ",c); return o; }
struct Glyph { Seq s; int at; };
struct Ctx { World*w; Tape*t; std::map<uint64_t,Glyph>*cache; std::map<uint32_t,Seq>*syms; std::vector<MC>*e; size_t n; int cursors; int mode; bool combo; unsigned ats; std::string err; };
static const char*an[]={"bold","italic","underline","inverse","blink"};
static std::string as(int at){ std::string o; for(int i=0;i<5;i++) if(at>>i&1) o+=std::string(o.empty()?"":" ")+an[i]; return o.empty()?"plain":o; }
static int cb(struct tsm_screen*con,uint64_t id,const uint32_t*ch,size_t len,unsigned width,unsigned x,unsigned y,const struct tsm_screen_attr*attr,tsm_age_t age,void*data){ (void)age;
  Ctx*d=(Ctx*)data; World&w=*d->w; int ret= d->mode==0?0: d->mode==1?-1-(int)d->t->u(40): (int)(d->n*7%3)-1; if(d->err.size()) return ret;
  if(con!=w.u.s){ d->err="the renderer was given a foreign screen"; return ret; }
  size_t k=d->n++; if(k>=d->e->size()){ d->err=fmt("more than %zu cells are reported",d->e->size()); return ret; }
  int ex=k%w.m.w,ey=k/w.m.w; if((int)x!=ex||(int)y!=ey){ d->err=fmt("cell (%u,%u) is reported where (%d,%d) is due",x,y,ex,ey); return ret; }
  const MC&q=(*d->e)[k]; A a=from_attr(attr); Seq got; if(len>16){ d->err=fmt("cell (%u,%u) has %zu characters",x,y,len); return ret; } if(len) got.assign(ch,ch+len); 
  if((int)width!=q.w){ d->err=fmt("cell (%u,%u) is reported %u columns wide, expected %d",x,y,width,q.w); return ret; }
  if(!q.wild&&a!=q.a){ d->err=fmt("cell (%u,%u) has [%s], expected [%s]",x,y,a.str().c_str(),q.a.str().c_str()); return ret; }
  if(q.w){ Seq e; auto i=d->syms->find(q.ch); if(i!=d->syms->end()) e=i->second; else if(!(q.ch==0||(q.ch==' '&&!a.underline))) e={q.ch}; if(e.size()>1) d->combo=true; if(got!=e){ d->err=fmt("cell (%u,%u) is drawn as [%s], expected [%s]",x,y,sq(got).c_str(),sq(e).c_str()); return ret; } }
  int at=a.bold|a.italic<<1|a.underline<<2|a.inverse<<3|a.blink<<4; d->ats|=1u<<at;
  auto g=d->cache->find(id); if(g==d->cache->end()) (*d->cache)[id]=Glyph{got,at}; else if(g->second.at!=at||g->second.s!=got) d->err=fmt("cell (%u,%u) is [%s] %s, its id %#llx was used for [%s] %s",x,y,sq(got).c_str(),as(at).c_str(),(unsigned long long)id,sq(g->second.s).c_str(),as(g->second.at).c_str());
  return ret; }
void run_case(Case&c){ Tape&t=c.t; World w(c,O_CURSOR|O_SFLAGS); w.u.logs=false; int W,H; gen::dims(t,W,H,240); w.size(W,H); w.max_sb(t.u(2*H+3));
  std::map<uint64_t,Glyph> cache; std::map<uint32_t,Seq> syms; std::vector<uint32_t> ids; int draws=0; bool combo=false; unsigned ats=0; A cur; cur.fc=cur.bc=7;
  auto compose=[&](uint32_t base,int n,bool rnd){ uint32_t s=base; Seq q={base}; if(syms.count(base)) q=syms[base]; for(int i=0;i<n&&q.size()<10;i++){ uint32_t m=rnd?0x300+t.u(0x70):0x300+t.u(3); uint32_t r=g_append(w.u.s,s,m); q.push_back(m); c.mix(m); auto f=syms.find(r); if(r<=0x7fffffff) fail("composing [%s] gives the plain character U+%X",sq(q).c_str(),r); if(f!=syms.end()&&f->second!=q) fail("symbol %#x stands for [%s] and [%s]",r,sq(f->second).c_str(),sq(q).c_str()); if(f==syms.end()){ syms[r]=q; ids.push_back(r); } s=r; } return s; };
  auto put=[&](uint32_t ch,const A&a){ w.u.L("write",{(long)ch}); if(c.verbose) c.log("   [%s] %s",syms.count(ch)?sq(syms[ch]).c_str():"",a.str().c_str()); c.mix(a.str()); struct tsm_screen_attr sa=to_attr(a); tsm_screen_write(w.u.s,ch,&sa); w.m.write(ch,a,syms.count(ch)?ref_width(syms[ch][0]):-1); };
  auto draw=[&](){ std::vector<MC> e; w.m.draw(e); Ctx d{&w,&t,&cache,&syms,&e,0,0,(int)t.weighted({60,20,20}),false,0,""}; w.u.L("draw",{d.mode}); tsm_screen_draw(w.u.s,cb,&d); if(d.err.size()) fail("redraw %d: %s",draws,d.err.c_str()); if(d.n!=e.size()) fail("redraw %d reports %zu of %zu cells",draws,d.n,e.size()); draws++; combo|=d.combo; ats|=d.ats; };
  if(t.chance(120)){ static const int ns[]={40,200,700,1500}; int n=ns[t.weighted({40,20,6,3})]; uint32_t b="AB e"[t.u(4)]; w.u.L("compose many",{n,(long)b}); for(int i=0;i<n;i++){ uint32_t r=g_append(w.u.s,b,0x1000+i); Seq q={b,(uint32_t)0x1000+i}; if(syms.count(r)&&syms[r]!=q) fail("symbol %#x stands for [%s] and [%s]",r,sq(syms[r]).c_str(),sq(q).c_str()); if(!syms.count(r)){ syms[r]=q; ids.push_back(r);} } c.label("many symbols"); }
  draw(); auto l=t.loop(5,c.thorough?70:36); while(t.more(l)){
    switch(t.weighted({34,30,16,10,8,8,8,6,6,3,6})){
      case 0: { int n=1+t.u(6); for(int i=0;i<n;i++){ uint32_t base=t.of(std::vector<uint32_t>{'a','b','A',' ',0x4e00,0x1f600,'e','a',0xe9}); uint32_t s; if(ids.size()&&t.chance(130)) s=ids[t.u(ids.size())]; else s=compose(base,t.chance(30)?9:1+(int)t.u(3),t.chance(80)); if(t.chance(80)) cur=ops::attr(t,false); put(s,cur); } break; }
      case 1: { int n=1+t.u(W); for(int i=0;i<n;i++){ if(t.chance(60)) cur=ops::attr(t,true); put(t.chance(16)?0:gen::chr(t),cur); } break; }
      case 2: { // the same symbol with different attributes
        uint32_t s= ids.size()&&t.chance(160)? ids[t.u(ids.size())]: 'a'+t.u(3); A a; a.fc=a.bc=7; int n=2+t.u(4); for(int i=0;i<n;i++){ int b=t.u(32); if(t.chance(150)) b=b?1<<t.u(5):0; a.bold=b&1; a.italic=b>>1&1; a.underline=b>>2&1; a.inverse=b>>3&1; a.blink=b>>4&1; put(s,a); } break; }
      case 3: ops::cursor(w); break; case 4: ops::edit(w); break; case 5: ops::view(w); break;
      case 6: { int k=t.u(4); if(w.m.alt()) k=3; /* what a selection covers once text scrolled off the alternate screen is not specified */ if(k==0) ops::sel_start(w,t.u(w.m.w),t.u(w.m.h)); else if(k==3) ops::sel_reset(w); else ops::sel_target(w,t.u(w.m.w),t.u(w.m.h)); break; }
      case 7: ops::sflags(w,t.of(std::vector<unsigned>{TSM_SCREEN_INVERSE,TSM_SCREEN_HIDE_CURSOR,TSM_SCREEN_HIDE_CURSOR,TSM_SCREEN_AUTO_WRAP,TSM_SCREEN_INSERT_MODE,TSM_SCREEN_FIXED_POS,TSM_SCREEN_ALTERNATE}),t.chance(140)); if(w.m.alt()&&w.m.sel) ops::sel_reset(w); break;
      case 8: w.input(t.chance(128)?gen::text(t,W):gen::index(t)); break;
      case 9: { int x,y; gen::dims(t,x,y,240); w.size(x,y); break; }
      default: ops::set_def_attr(w,ops::attr(t,false)); }
    w.check(); if(t.chance(90)) draw(); }
  draw(); if(draws>=3&&combo&&(ats&(ats-1))) c.nontrivial(); if(combo) c.label("combined symbols drawn"); if(w.m.view) c.label("scrolled back"); if(w.m.sel) c.label("selection"); if(w.m.flags&TSM_SCREEN_HIDE_CURSOR) c.label("hidden cursor"); if(__builtin_popcount(ats)>=8) c.label("8 attribute combinations"); }
