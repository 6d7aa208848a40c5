// The system under test: one screen plus one terminal, driven through the public
// API, with every notification recorded and every redraw validated for shape.
#pragma once
#include <functional>
#include "rt.h"
#ifdef VT_TINY_AGE
#define uint_fast32_t uint8_t
#endif
extern "C" {
#include "libtsm.h"
#undef uint_fast32_t
unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con);
unsigned int tsm_screen_sb_get_line_pos(struct tsm_screen *con);
}
#include "alloc.h"

struct A { // attributes
  int fc=16, bc=17; uint8_t fr=0,fg=0,fb=0,br=0,bg=0,bb=0; bool bold=0,italic=0,underline=0,inverse=0,protect=0,blink=0;
  bool operator==(const A&o) const { return fc==o.fc&&bc==o.bc&&fr==o.fr&&fg==o.fg&&fb==o.fb&&br==o.br&&bg==o.bg&&bb==o.bb&&bold==o.bold&&italic==o.italic&&underline==o.underline&&inverse==o.inverse&&protect==o.protect&&blink==o.blink; }
  bool operator!=(const A&o) const { return !(*this==o); }
  std::string str() const { return fmt("fg=%d(%d,%d,%d) bg=%d(%d,%d,%d)%s%s%s%s%s%s",fc,fr,fg,fb,bc,br,bg,bb,bold?" bold":"",italic?" italic":"",underline?" underline":"",inverse?" inverse":"",protect?" protect":"",blink?" blink":""); }
};
inline A from_attr(const struct tsm_screen_attr*a){ A r; r.fc=a->fccode; r.bc=a->bccode; r.fr=a->fr; r.fg=a->fg; r.fb=a->fb; r.br=a->br; r.bg=a->bg; r.bb=a->bb; r.bold=a->bold; r.italic=a->italic; r.underline=a->underline; r.inverse=a->inverse; r.protect=a->protect; r.blink=a->blink; return r; }
inline struct tsm_screen_attr to_attr(const A&a){ struct tsm_screen_attr r; memset(&r,0,sizeof r); r.fccode=a.fc; r.bccode=a.bc; r.fr=a.fr; r.fg=a.fg; r.fb=a.fb; r.br=a.br; r.bg=a.bg; r.bb=a.bb; r.bold=a.bold; r.italic=a.italic; r.underline=a.underline; r.inverse=a.inverse; r.protect=a.protect; r.blink=a.blink; return r; }

struct Ev { char kind; std::string data; int a=0,b=0; bool operator==(const Ev&o)const{return kind==o.kind&&data==o.data&&a==o.a&&b==o.b;} 
  std::string str() const { return kind=='m'?fmt("mouse-mode(%d,%s)",a,b?"pixels":"cells"):fmt("%s \"%s\"",kind=='w'?"write":"osc",esc(data).c_str()); } };

struct Cell { uint32_t ch=0; uint8_t w=1; A a; uint64_t age=0; std::vector<uint32_t> sym; uint64_t id=0; };
struct Pic { int w=0,h=0; std::vector<Cell> c; uint64_t ret=0; const Cell&at(int x,int y) const { return c[y*w+x]; } };

// writes merge so that only the byte stream and the order relative to other notifications count
inline void push_ev(std::vector<Ev>&v,Ev e){ if(e.kind=='w'&&e.data.empty()) return; if(e.kind=='w'&&v.size()&&v.back().kind=='w') v.back().data+=e.data; else v.push_back(e); }

struct Sut {
  Case*c; struct tsm_screen*s=nullptr; struct tsm_vte*v=nullptr; std::vector<Ev> ev; 
  bool idseen[32]={}; uint64_t idhi[32]={};
  std::function<void()> hook; // runs inside every notification
  std::string tag; int tm=0; bool tp=false;
  struct DrawCtx { Sut*u; Pic*p; int n; std::string err; };
  static void wcb(struct tsm_vte*vt,const char*u8,size_t len,void*d){ Sut*u=(Sut*)d; if(u->v && vt!=u->v) fail("write callback was given a foreign terminal object"); push_ev(u->ev,{'w',std::string(u8,len)}); if(u->hook) u->hook(); }
  static void ocb(struct tsm_vte*vt,const char*u8,size_t len,void*d){ Sut*u=(Sut*)d; (void)vt; if(u8[len]!=0) fail("OSC text is not NUL-terminated at its length %zu",len); if(strlen(u8)!=len) fail("OSC length %zu does not match its text (strlen %zu)",len,strlen(u8)); u->ev.push_back({'o',std::string(u8,len)}); if(u->hook) u->hook(); }
  static void mcb(struct tsm_vte*vt,enum tsm_mouse_track_mode m,bool px,void*d){ Sut*u=(Sut*)d; (void)vt; if((int)m==u->tm&&px==u->tp) return; /* repeating the known state is harmless */ u->tm=m; u->tp=px; u->ev.push_back({'m',"",(int)m,px?1:0}); if(u->hook) u->hook(); }
  explicit Sut(Case*cc):c(cc){}
  // a receiver of log messages that formats them
  bool logs=false; long nlog=0; static void lcb(void*d,const char*file,int line,const char*func,const char*subs,unsigned sev,const char*format,va_list args){ char b[512]; vsnprintf(b,sizeof b,format,args); Sut*u=(Sut*)d; u->nlog++; if(!file||line<=0||!func||!subs||sev>7) fail("log message without its origin"); }
  bool create(bool with_vte=true){ tsm_log_t lf=logs?lcb:nullptr; if(tsm_screen_new(&s,lf,this)){ s=nullptr; return false; } if(with_vte){ if(tsm_vte_new(&v,s,wcb,this,lf,this)){ v=nullptr; return false; } tsm_vte_set_osc_cb(v,ocb,this); tsm_vte_set_mouse_cb(v,mcb,this);} return true; }
  void destroy(){ if(v) tsm_vte_unref(v); if(s) tsm_screen_unref(s); v=nullptr; s=nullptr; }
  ~Sut(){ destroy(); }
  Sut(const Sut&)=delete;
  void L(const char*name,std::initializer_list<long> a){ std::string q=name; c->mix(q); for(long x:a) c->mix(x); if(c->verbose){ q+="("; bool f=true; for(long x:a){ q+=fmt("%s%ld",f?"":",",x); f=false; } c->log("%s%s)",tag.c_str(),q.c_str()); } }
  void input(const std::string&b){ c->mix(b); if(c->verbose) c->log("%sinput \"%s\"",tag.c_str(),esc(b).c_str()); 
    // exact-size heap copy so reads past the end are caught
    char*p=(char*)::malloc(b.size()?b.size():1); memcpy(p,b.data(),b.size()); tsm_vte_input(v,p,b.size()); ::free(p); }
  int w(){ return tsm_screen_get_width(s);} int h(){ return tsm_screen_get_height(s);} int cx(){ return tsm_screen_get_cursor_x(s);} int cy(){ return tsm_screen_get_cursor_y(s);} 
  int sbcount(){ return tsm_screen_sb_get_line_count(s);} int sbpos(){ return tsm_screen_sb_get_line_pos(s);} 
  static int dcb(struct tsm_screen*con,uint64_t id,const uint32_t*ch,size_t len,unsigned int width,unsigned int x,unsigned int y,const struct tsm_screen_attr*attr,tsm_age_t age,void*data){
    DrawCtx*d=(DrawCtx*)data; Pic*p=d->p; (void)con; if(d->err.size()) return 0;
    if(d->n>=p->w*p->h){ d->err=fmt("redraw reports more than %dx%d cells",p->w,p->h); return 0; }
    int ex=d->n%p->w, ey=d->n/p->w; if((int)x!=ex||(int)y!=ey){ d->err=fmt("redraw reports cell (%u,%u) where (%d,%d) is due",x,y,ex,ey); return 0; }
    Cell&k=p->c[d->n++]; k.w=width; k.a=from_attr(attr); k.age=age; k.id=id; k.ch=(uint32_t)id; if(len) k.sym.assign(ch,ch+len);
    // the rest of the id must tell the attribute combinations apart
    int at=k.a.bold|k.a.italic<<1|k.a.underline<<2|k.a.inverse<<3|k.a.blink<<4; uint64_t hi=id>>32; Sut*su=d->u;
    if(!su->idseen[at]){ for(int i=0;i<32;i++) if(su->idseen[i]&&su->idhi[i]==hi) d->err=fmt("cell (%u,%u): id %llx does not tell its attributes [%s] from others",x,y,(unsigned long long)id,k.a.str().c_str()); su->idseen[at]=true; su->idhi[at]=hi; }
    else if(su->idhi[at]!=hi) d->err=fmt("cell (%u,%u): id %llx of attributes [%s] differs from earlier ones (%llx)",x,y,(unsigned long long)id,k.a.str().c_str(),(unsigned long long)su->idhi[at]);
    bool blank = k.ch==0 || (k.ch==' '&&!k.a.underline);
    if(blank? len!=0 : len==0) d->err=fmt("cell (%u,%u): symbol %x reported with length %zu",x,y,k.ch,len);
    if(!blank && k.ch<=0x10ffff && (len!=1||ch[0]!=k.ch)) d->err=fmt("cell (%u,%u): symbol %x drawn as %x (len %zu)",x,y,k.ch,ch[0],len);
    return 0; }
  Pic draw(){ Pic p; p.w=w(); p.h=h(); p.c.resize((size_t)p.w*p.h); DrawCtx d{this,&p,0,""}; p.ret=tsm_screen_draw(s,dcb,&d); if(d.err.size()) fail("%s",d.err.c_str()); if(d.n!=p.w*p.h) fail("redraw reports %d cells of %dx%d",d.n,p.w,p.h); return p; }
  // C01 bounds; cheap enough to run after every operation
  void bounds(){ int W=w(),H=h(); if(cy()<0||cy()>=H) fail("cursor row %d outside 0..%d",cy(),H-1); if(cx()<0||cx()>W+1) fail("cursor column %d beyond width %d by more than one character",cx(),W); }
};
inline std::string pic_text(const Pic&p){ std::string o; for(int y=0;y<p.h;y++){ o+="|"; for(int x=0;x<p.w;x++){ uint32_t ch=p.at(x,y).ch; o+= ch==0?'.':(ch>32&&ch<127?(char)ch:ch==32?'_':'#'); } o+="|\n"; } return o; }
