// Reference terminal: an independent, deliberately simple implementation of the
// behaviour stated in properties.jsonl. It shares no code with /repo.
#pragma once
#include "sut.h"
#include "ref_data.h"
#include <memory>
extern "C" int ref_wcwidth(wchar_t ucs);

inline int ref_width(uint32_t ch){ if(ch==0||ch>0x10ffff) return 0; int r=ref_wcwidth((wchar_t)ch); return r<0?0:r; }
inline std::string ref_utf8(uint32_t g){ std::string o; if((g>=0xd800&&g<=0xdfff)||g>0x10ffff||(g&0xfffe)==0xfffe||(g>=0xfdd0&&g<=0xfdef)) return o;
  if(g<0x80) o+=(char)g; else if(g<0x800){ o+=(char)(0xc0|g>>6); o+=(char)(0x80|(g&63)); } else if(g<0x10000){ o+=(char)(0xe0|g>>12); o+=(char)(0x80|(g>>6&63)); o+=(char)(0x80|(g&63)); } else { o+=(char)(0xf0|g>>18); o+=(char)(0x80|(g>>12&63)); o+=(char)(0x80|(g>>6&63)); o+=(char)(0x80|(g&63)); } return o; }

struct MC { uint32_t ch=0; int w=1; A a; bool wild=false; };
struct MLine { std::vector<MC> c; };
typedef std::shared_ptr<MLine> LP;
struct Anchor { enum K{TOP,SB,SCR} k=TOP; LP line; int x=0,y=0; };

struct MScreen {
  int w=80,h=24; unsigned flags=0; std::vector<LP> mainb,altb; A def,def_main; int mt=0,mb=23,cx=0,cy=0; std::vector<bool> tabs;
  std::deque<LP> sb; long sbmax=0; LP view; bool sel=false; Anchor ss,se;
  MScreen(){ def=A(); def.fc=0; def.bc=0; def.fr=def.fg=def.fb=255; def_main=A(); def_main.fc=def_main.bc=0; for(int i=0;i<h;i++){ mainb.push_back(newline()); altb.push_back(newline()); } deftabs(); }
  MC blank() const { MC m; m.a=def; return m; }
  LP newline(){ auto l=std::make_shared<MLine>(); l->c.assign(w,blank()); return l; }
  void deftabs(){ tabs.assign(w,false); for(int i=0;i<w;i+=8) tabs[i]=true; }
  bool alt() const { return flags&TSM_SCREEN_ALTERNATE; }
  std::vector<LP>& rows(){ return alt()?altb:mainb; }
  MC& cell(int x,int y){ return rows()[y]->c[x]; }
  int sbidx(const LP&l){ for(size_t i=0;i<sb.size();i++) if(sb[i]==l) return i; return -1; }
  int sbpos(){ return view?sbidx(view):(int)sb.size(); }
  void drop(const LP&l){ for(Anchor*a:{&ss,&se}) if(a->k==Anchor::SB&&a->line==l){ a->k=Anchor::TOP; a->line=nullptr; a->x=0; } }
  void push_sb(LP l){
    if(sbmax==0) return;
    if((long)sb.size()>=sbmax){ LP f=sb.front(); int vi=view?sbidx(view):-1; sb.pop_front(); sb.push_back(l); drop(f);
      if(view){ if(vi==0) view=sb[0]; else if(!(flags&TSM_SCREEN_FIXED_POS)) view=sb[vi]; }
      return; }
    sb.push_back(l); }
  void sel_up(){ for(Anchor*a:{&ss,&se}) if(a->k==Anchor::SCR){ if(a->y>0) a->y--; else if(sb.size()){ a->k=Anchor::SB; a->line=sb.back(); } else { a->k=Anchor::TOP; a->x=0; } } }
  void scroll_up(long n){ if(n<=0) return; int max=mb-mt+1; if(n>max) n=max; auto&r=rows();
    for(int i=0;i<n;i++){ LP l=r[mt]; r.erase(r.begin()+mt); if(!alt()){ push_sb(l); } r.insert(r.begin()+mb,newline()); if(sel) sel_up(); } }
  void scroll_down(long n){ if(n<=0) return; int max=mb-mt+1; if(n>max) n=max; auto&r=rows();
    for(int i=0;i<n;i++){ r.erase(r.begin()+mb); r.insert(r.begin()+mt,newline()); }
    if(sel) for(Anchor*a:{&ss,&se}) if(a->k==Anchor::SCR) a->y=(int)std::min<long>(h-1,a->y+n); }
  int resize(int x,int y){
    if(x<=0||y<=0) return -22; if(x==w&&y==h) return 0;
    for(auto*b:{&mainb,&altb}){ MC bl=blank(); if(b==&mainb&&alt()) bl.a=def_main; for(auto&l:*b) l->c.resize(x,bl); }
    w=x; mt=0; deftabs(); if(cx>=w) cx=w-1;
    for(Anchor*a:{&ss,&se}) if(a->x>=w) a->x=w-1;
    if(y<h){ int d=h-y; mb=h-1; scroll_up(d); cy=cy>d?cy-d:0; mainb.resize(y); altb.resize(y); }
    else for(auto*b:{&mainb,&altb}){ MC bl=blank(); if(b==&mainb&&alt()) bl.a=def_main; while((int)b->size()<y){ auto l=std::make_shared<MLine>(); l->c.assign(w,bl); b->push_back(l);} }
    h=y; mb=h-1; if(cy>=h) cy=h-1; return 0; }
  void set_margins(long t,long b){ if(t==0) t=1; if(b<=t||b>h){ mt=0; mb=h-1; } else { mt=t-1; mb=b-1; } }
  void set_max_sb(long m){ while((long)sb.size()>m){ LP f=sb.front(); sb.pop_front(); if(view==f) view=sb.size()?sb[0]:nullptr; drop(f);} sbmax=m; }
  void clear_sb(){ for(auto&l:std::deque<LP>(sb)) drop(l); sb.clear(); view=nullptr; }
  void sb_up(long n){ long p=sbpos(); p=std::max(0L,p-n); if(sb.size()) { if(n>0) view= p<(long)sb.size()?sb[p]:nullptr; } }
  void sb_down(long n){ if(!view) return; long p=sbpos()+n; view= p<(long)sb.size()?sb[p]:nullptr; }
  void sb_reset(){ view=nullptr; }
  void reset(){ flags=0; mt=0; mb=h-1; deftabs(); }
  void set_flags(unsigned f){ if(f&~flags&TSM_SCREEN_ALTERNATE) def_main=def; flags|=f; }
  void reset_flags(unsigned f){ flags&=~f; }
  void set_tab(){ if(cx<w) tabs[cx]=true; } void clear_tab(){ if(cx<w) tabs[cx]=false; } void clear_tabs(){ tabs.assign(w,false); }
  void write(uint32_t ch,const A&a,int len=-1){ if(len<0) len=ref_width(ch); if(!len) return;
    int last=(cy<=mb)?mb:h-1;
    if(cx>=w){ if(flags&TSM_SCREEN_AUTO_WRAP){ cx=0; cy++; } else cx=w-1; }
    if(cy>last){ cy=last; scroll_up(1); }
    auto&r=rows()[cy]->c;
    if((flags&TSM_SCREEN_INSERT_MODE) && cx+len<w){ std::vector<MC> old(r.begin()+cx,r.begin()+cx+len); r.insert(r.begin()+cx,old.begin(),old.end()); r.resize(w); }
    MC&m=r[cx]; m.ch=ch; m.w=len; m.a=a; m.wild=false; for(int i=1;i<len&&cx+i<w;i++){ r[cx+i].w=0; r[cx+i].a=a; }
    cx+=len; }
  void move_to(long x,long y){ long last=h-1; if(flags&TSM_SCREEN_REL_ORIGIN){ last=mb; y+=mt; } cx=std::min<long>(x,w-1); cy=std::min(y,last); }
  void move_abs(long x,long y){ cx=std::min<long>(x,w-1); cy=std::min<long>(y,h-1); }
  void up(long n,bool scroll){ if(n<=0) return; int top=cy>=mt?mt:0; long d=cy-top; if(n>d){ if(scroll) scroll_down(std::min<long>(n-d,h)); cy=top; } else cy-=n; }
  void down(long n,bool scroll){ if(n<=0) return; int bot=cy<=mb?mb:h-1; long d=bot-cy; if(n>d){ if(scroll) scroll_up(std::min<long>(n-d,h)); cy=bot; } else cy+=n; }
  void left(long n){ if(n<=0) return; int x=std::min(cx,w-1); cx=n>x?0:x-n; }
  void right(long n){ if(n<=0) return; cx= n+cx>=w?w-1:cx+n; }
  void line_end(){ cx=w-1; } void home(){ cx=0; } void newline_op(){ down(1,true); cx=0; }
  void tab_right(long n){ if(n<=0) return; int x=cx; while(n-->0){ int j=x+1; while(j<w&&!tabs[j]) j++; x=j; if(x>=w-1) break; } cx=std::min(x,w-1); }
  void tab_left(long n){ if(n<=0) return; int x=cx; while(n-->0){ int j=std::min(x,w)-1; while(j>0&&!tabs[j]) j--; x=std::max(0,j); if(!x) break; } cx=x; }
  void insert_lines(long n){ if(n<=0||cy<mt||cy>mb) return; auto&r=rows(); int max=mb-cy+1; if(n>max) n=max; for(int i=0;i<n;i++){ r.erase(r.begin()+mb); r.insert(r.begin()+cy,newline()); } cx=0; }
  void delete_lines(long n){ if(n<=0||cy<mt||cy>mb) return; auto&r=rows(); int max=mb-cy+1; if(n>max) n=max; for(int i=0;i<n;i++){ r.erase(r.begin()+cy); r.insert(r.begin()+mb,newline()); } cx=0; }
  void insert_chars(long n){ if(n<=0) return; if(cx>=w) cx=w-1; auto&r=rows()[cy]->c; n=std::min<long>(n,w-cx); r.insert(r.begin()+cx,n,blank()); r.resize(w); }
  void delete_chars(long n){ if(n<=0) return; if(cx>=w) cx=w-1; auto&r=rows()[cy]->c; n=std::min<long>(n,w-cx); r.erase(r.begin()+cx,r.begin()+cx+n); r.resize(w,blank()); }
  void erase(int x0,int y0,int x1,int y1,bool prot){ x1=std::min(x1,w-1); for(int y=y0;y<=y1;y++) for(int x=(y==y0?x0:0);x<=(y==y1?x1:w-1);x++){ MC&m=cell(x,y); if(prot&&m.a.protect) continue; m=blank(); } }
  int ex() const { return std::min(cx,w-1); }
  void erase_cursor(){ erase(ex(),cy,ex(),cy,false); }
  void erase_chars(long n){ if(n<=0) return; erase(ex(),cy,(int)std::min<long>(ex()+n-1,w-1),cy,false); }
  void el0(bool p){ erase(ex(),cy,w-1,cy,p); } void el1(bool p){ erase(0,cy,ex(),cy,p); } void el2(bool p){ erase(0,cy,w-1,cy,p); }
  void ed0(bool p){ erase(ex(),cy,w-1,h-1,p); } void ed1(bool p){ erase(0,0,ex(),cy,p); } void ed2(bool p){ erase(0,0,w-1,h-1,p); }
  // selection
  Anchor anchor(long x,long y){ Anchor a; a.x=std::min<long>(x,w-1); y=std::min<long>(y,h-1); long k=sbpos()+y; if(k<(long)sb.size()){ a.k=Anchor::SB; a.line=sb[k]; } else { a.k=Anchor::SCR; a.y=k-sb.size(); } return a; }
  void sel_start(long x,long y){ sel=true; ss=se=anchor(x,y); }
  void sel_target(long x,long y){ if(sel) se=anchor(x,y); }
  void sel_reset(){ sel=false; }
  // global row number of an anchor: scrollback lines first, then the screen; -1 for "above everything"
  long grow(const Anchor&a){ return a.k==Anchor::TOP?-1: a.k==Anchor::SB? sbidx(a.line): (long)sb.size()+a.y; }
  void sel_range(long&r0,long&x0,long&r1,long&x1){ r0=grow(ss); x0=ss.k==Anchor::TOP?0:ss.x; r1=grow(se); x1=se.k==Anchor::TOP?0:se.x; if(r1<r0||(r1==r0&&x1<x0)){ std::swap(r0,r1); std::swap(x0,x1);} }
  bool selected(long gr,long x){ if(!sel) return false; long r0,x0,r1,x1; sel_range(r0,x0,r1,x1); if(r1<0) return false; return (gr>r0||(gr==r0&&x>=x0))&&(gr<r1||(gr==r1&&x<=x1)); }
  int copy(std::string&out){ out.clear(); if(!sel) return -2; long r0,x0,r1,x1; sel_range(r0,x0,r1,x1); if(r1<0) return 0; if(r0<0){ r0=0; x0=0; }
    for(long r=r0;r<=r1;r++){ LP l= r<(long)sb.size()?sb[r]:rows()[r-sb.size()]; long a=r==r0?x0:0, e=r==r1?x1:w-1; long len=0; for(size_t i=0;i<l->c.size();i++) if(l->c[i].ch) len=i+1;
      if(a>len) continue; for(long i=a;i<=e&&i<len;i++){ if(l->c[i].w==0) continue; out+= l->c[i].ch? ref_utf8(l->c[i].ch): " "; } out+='\n'; }
    if(out.size()) out.pop_back(); return out.size(); }
  // expected redraw
  void draw(std::vector<MC>&out){ out.assign((size_t)w*h,MC()); int base=sbpos(); for(int y=0;y<h;y++){ long k=base+y; bool insb=k<(long)sb.size(); LP l=insb?sb[k]:rows()[k-sb.size()]; int sy=insb?-1:(int)(k-sb.size());
      for(int x=0;x<w;x++){ MC m; if(x<(int)l->c.size()) m=l->c[x]; else { m=blank(); m.wild=true; }
        if(sy==cy&&x==ex()&&!(flags&TSM_SCREEN_HIDE_CURSOR)) m.a.inverse=!m.a.inverse;
        if(flags&TSM_SCREEN_INVERSE) m.a.inverse=!m.a.inverse;
        if(selected(k,x)) m.a.inverse=!m.a.inverse;
        out[(size_t)y*w+x]=m; } } }
};

// ---------------------------------------------------------------- terminal
struct MVte {
  MScreen*s; std::vector<Ev>*ev; unsigned flags=0; A def,cat; const uint8_t (*pal)[3]; std::string palname; bool havepal=false; bool havecustom=false; uint8_t custom[18][3];
  enum St{GROUND,ESC,ESCINT,CSIENTRY,CSIPARAM,CSIINT,CSIIGN,DCSENTRY,DCSPARAM,DCSINT,DCSPASS,DCSIGN,OSC,STIGN} st=GROUND;
  enum {BANG=1,CASH=2,WHAT=4,GT=8,SPACE=16,SQ=32,DQ=64,MULT=128,PLUS=256,POPEN=512,PCLOSE=1024,OTHER=2048};
  unsigned cflags=0; int argc=0; int argv[17]; std::string osc;
  const uint32_t*g[4]; int gl=0,gr=1,glt=-1; 
  struct Saved{ int x=0,y=0; A a; int gl=0,gr=1; bool wrap=true,org=false; } sv; int ax=0,ay=0;
  int u8need=0; uint32_t u8ch=0; int u8st=0; // utf8 decoder
  int mmode=0,mevent=0; unsigned mlc=0,mlr=0; int toldm=0,toldp=0; bool bsdel=false; int depth=0;
  MVte(MScreen*ss,std::vector<Ev>*e):s(ss),ev(e){ pal=REF_PALETTES[0].c; def=A(); rgb(def); reset(); s->ed2(false); }
  void rgb(A&a){ if(a.fc>=0){ int c=a.fc; if(a.bold&&c<8) c+=8; if(c>=18) c=16; a.fr=pal[c][0]; a.fg=pal[c][1]; a.fb=pal[c][2]; } if(a.bc>=0){ int c=a.bc; if(c>=18) c=17; a.br=pal[c][0]; a.bg=pal[c][1]; a.bb=pal[c][2]; } }
  void out(const std::string&b){ if(!depth && !(flags&TSM_VTE_FLAG_SEND_RECEIVE_MODE)) input(b); push_ev(*ev,{'w',b}); }
  void palette_changed(){ pal=REF_PALETTES[0].c; if(havepal){ if(palname=="custom"&&havecustom) pal=custom; else for(auto&p:REF_PALETTES) if(palname==p.name) pal=p.c; } def.fc=16; def.bc=17; rgb(def); cat=def; s->def=def; s->ed2(false); }
  void set_palette(const char*n){ havepal=n; palname=n?n:""; palette_changed(); }
  void set_custom(const uint8_t (*p)[3]){ havecustom=p; if(p) memcpy(custom,p,54); palette_changed(); }
  void notify(){ int m=0,p=0; if(mmode==9) m=1002; else if((mmode==1006||mmode==1016)&&mevent){ m=mevent; p=mmode==1016; } if(m!=toldm||p!=toldp){ toldm=m; toldp=p; ev->push_back({'m',"",m,p}); } }
  void reset(){ flags=TSM_VTE_FLAG_TEXT_CURSOR_MODE|TSM_VTE_FLAG_AUTO_REPEAT_MODE|TSM_VTE_FLAG_SEND_RECEIVE_MODE|TSM_VTE_FLAG_AUTO_WRAP_MODE|TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE;
    s->reset(); s->set_flags(TSM_SCREEN_AUTO_WRAP); u8st=0; st=GROUND; gl=0; gr=1; glt=-1; g[0]=g[2]=REF_unicode_lower; g[1]=g[3]=REF_unicode_upper; mmode=mevent=0; mlc=mlr=0; cat=def; rgb(cat); s->def=def; sv=Saved(); sv.a=def; ax=ay=0; notify(); }
  void hard_reset(){ reset(); s->set_flags(TSM_SCREEN_ALTERNATE); s->ed2(false); s->reset_flags(TSM_SCREEN_ALTERNATE); s->ed2(false); s->clear_sb(); s->move_abs(0,0); }
  void print(uint32_t ch){ rgb(cat); s->write(ch,cat); }
  void save(){ sv.x=s->cx; sv.y=s->cy; sv.a=cat; sv.gl=gl; sv.gr=gr; sv.wrap=flags&TSM_VTE_FLAG_AUTO_WRAP_MODE; sv.org=flags&TSM_VTE_FLAG_ORIGIN_MODE; }
  void setf(bool on,unsigned f,unsigned sf=0){ if(on) flags|=f; else flags&=~f; if(sf){ if(on) s->set_flags(sf); else s->reset_flags(sf); } }
  void restore(){ s->move_abs(sv.x,sv.y); cat=sv.a; rgb(cat); s->def=cat; gl=sv.gl; gr=sv.gr; setf(sv.wrap,TSM_VTE_FLAG_AUTO_WRAP_MODE,TSM_SCREEN_AUTO_WRAP); setf(sv.org,TSM_VTE_FLAG_ORIGIN_MODE,TSM_SCREEN_REL_ORIGIN); }
  void control(uint32_t c){ switch(c){ case 5: out("\x06"); break; case 8: s->left(1); break; case 9: s->tab_right(1); break; case 10: case 11: case 12: if(flags&TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE) s->newline_op(); else s->down(1,true); break; case 13: s->home(); break; case 14: gl=1; break; case 15: gl=0; break; case 0x1a: print(0xbf); break;
      case 0x84: s->down(1,true); break; case 0x85: s->newline_op(); break; case 0x88: s->set_tab(); break; case 0x8d: s->up(1,true); break; case 0x8e: glt=2; break; case 0x8f: glt=3; break; case 0x9a: out("\x1b[?60;1;6;9;15c"); break; } }
  void collect(uint32_t c){ switch(c){ case '!': cflags|=BANG; break; case '$': cflags|=CASH; break; case '?': cflags|=WHAT; break; case '>': cflags|=GT; break; case ' ': cflags|=SPACE; break; case '\'': cflags|=SQ; break; case '"': cflags|=DQ; break; case '*': cflags|=MULT; break; case '+': cflags|=PLUS; break; case '(': cflags|=POPEN; break; case ')': cflags|=PCLOSE; break; default: cflags|=OTHER; } }
  void clear(){ cflags=0; argc=0; for(int&x:argv) x=-1; osc.clear(); }
  void esc(uint32_t c){
    if((c<0x80&&strchr("B<0A4C5RQKYE6ZH7=",(int)c)&&c)&&(cflags&(POPEN|PCLOSE|MULT|PLUS))){ int k=cflags&POPEN?0:cflags&PCLOSE?1:cflags&MULT?2:3; g[k]= c=='B'?REF_unicode_lower: c=='<'?REF_dec_supplemental_graphics: c=='0'?REF_dec_special_graphics: REF_unicode_upper; return; }
    if(c=='F'&&(cflags&SPACE)){ flags&=~TSM_VTE_FLAG_USE_C1; return; } if(c=='G'&&(cflags&SPACE)){ flags|=TSM_VTE_FLAG_USE_C1; return; }
    if(cflags) return;
    switch(c){ case 'D': s->down(1,true); break; case 'E': s->newline_op(); break; case 'H': s->set_tab(); break; case 'M': s->up(1,true); break; case 'N': glt=2; break; case 'O': glt=3; break; case 'Z': out("\x1b[?60;1;6;9;15c"); break; case '~': gr=1; break; case 'n': gl=2; break; case '}': gr=2; break; case 'o': gl=3; break; case '|': gr=3; break; case '=': flags|=TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE; break; case '>': flags&=~TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE; break; case 'c': hard_reset(); break; case '7': save(); break; case '8': restore(); break; } }
  void sgr(){ static const uint8_t cube[6]={0,0x5f,0x87,0xaf,0xd7,0xff}; int n=argc; std::vector<int> p(argv,argv+n); if(n<=1&&argv[0]==-1) p={0}; n=p.size();
    auto get=[&](int i){ return i<n?p[i]:-1; };
    for(int i=0;i<n;i++){ int v=p[i]; switch(v){ case 0: { bool pr=cat.protect; cat=def; cat.protect=pr; break; } case 1: cat.bold=1; break; case 3: cat.italic=1; break; case 4: cat.underline=1; break; case 5: cat.blink=1; break; case 7: cat.inverse=1; break; case 22: cat.bold=0; break; case 23: cat.italic=0; break; case 24: cat.underline=0; break; case 25: cat.blink=0; break; case 27: cat.inverse=0; break;
        case 39: cat.fc=def.fc; cat.fr=def.fr; cat.fg=def.fg; cat.fb=def.fb; break; case 49: cat.bc=def.bc; cat.br=def.br; cat.bg=def.bg; cat.bb=def.bb; break;
        case 38: case 48: { int code; int r=0,gg=0,b=0; if(get(i+1)==5){ int k=get(i+2); if(k<0) break; if(k<16) code=k; else { code=-1; if(k<232){ k-=16; r=cube[k/36]; gg=cube[k/6%6]; b=cube[k%6]; } else r=gg=b=((k-232)*10+8)&255; } i+=2; } else if(get(i+1)==2){ if(get(i+2)<0||get(i+3)<0||get(i+4)<0) break; code=-1; r=get(i+2)&255; gg=get(i+3)&255; b=get(i+4)&255; i+=4; } else break;
            if(v==38){ cat.fc=code; cat.fr=r; cat.fg=gg; cat.fb=b; } else { cat.bc=code; cat.br=r; cat.bg=gg; cat.bb=b; } break; }
        default: if(v>=30&&v<=37) cat.fc=v-30; else if(v>=40&&v<=47) cat.bc=v-40; else if(v>=90&&v<=97) cat.fc=v-90+8; else if(v>=100&&v<=107) cat.bc=v-100+8; } }
    rgb(cat); s->def=cat; }
  void mode(bool on){ for(int i=0;i<argc;i++){ int v=argv[i]; if(!(cflags&WHAT)){ switch(v){ case 2: setf(on,TSM_VTE_FLAG_KEYBOARD_ACTION_MODE); break; case 4: setf(on,TSM_VTE_FLAG_INSERT_REPLACE_MODE,TSM_SCREEN_INSERT_MODE); break; case 12: setf(on,TSM_VTE_FLAG_SEND_RECEIVE_MODE); break; case 20: setf(on,TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE); break; } continue; }
      switch(v){ case 1: setf(on,TSM_VTE_FLAG_CURSOR_KEY_MODE); break; case 5: setf(on,TSM_VTE_FLAG_INVERSE_SCREEN_MODE,TSM_SCREEN_INVERSE); break; case 6: setf(on,TSM_VTE_FLAG_ORIGIN_MODE,TSM_SCREEN_REL_ORIGIN); break; case 7: setf(on,TSM_VTE_FLAG_AUTO_WRAP_MODE,TSM_SCREEN_AUTO_WRAP); break; case 8: setf(on,TSM_VTE_FLAG_AUTO_REPEAT_MODE); break; case 25: setf(on,TSM_VTE_FLAG_TEXT_CURSOR_MODE); if(on) s->reset_flags(TSM_SCREEN_HIDE_CURSOR); else s->set_flags(TSM_SCREEN_HIDE_CURSOR); break; case 42: setf(on,TSM_VTE_FLAG_NATIONAL_CHARSET_MODE); break;
        case 47: if(on) s->set_flags(TSM_SCREEN_ALTERNATE); else s->reset_flags(TSM_SCREEN_ALTERNATE); break;
        case 1047: if(on) s->set_flags(TSM_SCREEN_ALTERNATE); else { if(s->alt()) s->ed2(false); s->reset_flags(TSM_SCREEN_ALTERNATE);} break;
        case 1048: if(on){ ax=s->cx; ay=s->cy; } else s->move_abs(ax,ay); break;
        case 1049: if(on){ ax=s->cx; ay=s->cy; s->set_flags(TSM_SCREEN_ALTERNATE); s->ed2(false); } else { s->reset_flags(TSM_SCREEN_ALTERNATE); s->move_abs(ax,ay);} break;
        case 9: mmode=on?9:0; mevent=on?1002:0; notify(); break;
        case 1002: case 1003: if(mmode==9) mevent=1002; else mevent=on?v:0; notify(); break;
        case 1006: case 1016: mmode=on?v:0; notify(); break; } } }
  void csi(uint32_t c){ if(argc<16) argc++; int a0=argv[0],a1=argv[1]; int n=a0<=0?1:a0; bool q=cflags&WHAT;
    unsigned ok=0; switch(c){ case 'J': case 'K': case 'h': case 'l': ok=WHAT; break; case 'c': ok=GT; break; case 'p': ok=GT|BANG|DQ; break; } if(cflags&~ok) return;
    switch(c){ case 'A': s->up(n,false); break; case 'B': s->down(n,false); break; case 'C': s->right(n); break; case 'D': s->left(n); break; case 'd': s->move_to(s->cx,n-1); break; case 'E': s->down(n,false); s->home(); break; case 'F': s->up(n,false); s->home(); break;
      case 'e': if(s->flags&TSM_SCREEN_REL_ORIGIN) s->move_to(s->cx,std::max(0,s->cy+n-s->mt)); else s->move_to(s->cx,s->cy+n); break;
      case 'H': case 'f': s->move_to((a1<=0?1:a1)-1,n-1); break; case 'G': s->move_abs(n-1,s->cy); break;
      case 'J': if(a0<=0) s->ed0(q); else if(a0==1) s->ed1(q); else if(a0==2) s->ed2(q); break; case 'K': if(a0<=0) s->el0(q); else if(a0==1) s->el1(q); else if(a0==2) s->el2(q); break; case 'X': s->erase_chars(n); break; case 'm': sgr(); break;
      case 'p': if(cflags&(GT|BANG)){ reset(); break; } { int l=a0; reset(); if(l==61){ flags|=TSM_VTE_FLAG_7BIT_MODE; g[1]=REF_dec_supplemental_graphics; } else if(l>=62&&l<=64){ if(a1==1||a1==2) flags|=TSM_VTE_FLAG_USE_C1; flags|=TSM_VTE_FLAG_8BIT_MODE; g[1]=REF_dec_supplemental_graphics; } } break;
      case 'h': mode(true); break; case 'l': mode(false); break; case 'r': s->set_margins(std::max(0,a0),std::max(0,a1)); break;
      case 'c': if(argc<=1&&a0<=0) out(cflags&GT?"\x1b[>1;1;0c":"\x1b[?60;1;6;9;15c"); break;
      case 'n': if(a0==5) out("\x1b[0n"); else if(a0==6) out(fmt("\x1b[%d;%dR",s->cy+1,std::min(s->cx,s->w-1)+1)); break;
      case 'L': s->insert_lines(n); break; case 'M': s->delete_lines(n); break; case 'g': if(a0<=0) s->clear_tab(); else if(a0==3) s->clear_tabs(); break; case '@': s->insert_chars(n); break; case 'P': s->delete_chars(n); break; case 'Z': s->tab_left(n); break; case 'I': s->tab_right(n); break; case 'S': s->scroll_up(n); break; case 'T': s->scroll_down(n); break; } }
  void graphic(uint32_t c){ if(c>=33&&c<=126){ int k=gl; if(glt>=0){ k=glt; glt=-1; } c=g[k][c-32]; } else if(c>=161&&c<=254) c=g[gr][c-160]; print(c); }
  void enter(St n){ if(st==OSC) ev->push_back({'o',osc}); if(n==CSIENTRY||n==DCSENTRY||n==ESC||n==OSC) clear(); st=n; }
  void param(uint32_t c){ if(c==';'){ if(argc<16) argc++; return; } if(argc>=16) return; int&v=argv[argc]; if(v>0xffff) return; v= v<=0? (int)(c-'0') : v*10+(int)(c-'0'); }
  void feed(uint32_t c){ // one decoded character
    if(c==0x18||c==0x1a||(c>=0x80&&c<=0x8f)||(c>=0x91&&c<=0x97)||c==0x99||c==0x9a||c==0x9c){ if(st==OSC) ev->push_back({'o',osc}); st=GROUND; control(c); return; }
    if(c==0x1b){ enter(ESC); return; } if(c==0x98||c==0x9e||c==0x9f){ enter(STIGN); return; } if(c==0x90){ enter(DCSENTRY); return; } if(c==0x9d){ enter(OSC); return; } if(c==0x9b){ enter(CSIENTRY); return; }
    bool c0=c<0x20;
    switch(st){
      case GROUND: if(c0) control(c); else graphic(c); return;
      case ESC: if(c0){ control(c); return; } if(c==0x7f) return; if(c<0x30||c>0x7f){ collect(c); enter(ESCINT); return; } if(c=='['){ enter(CSIENTRY); return; } if(c==']'){ enter(OSC); return; } if(c=='P'){ enter(DCSENTRY); return; } if(c=='X'||c=='^'||c=='_'){ enter(STIGN); return; } st=GROUND; esc(c); return;
      case ESCINT: if(c0){ control(c); return; } if(c==0x7f) return; if(c<0x30||c>0x7f){ collect(c); return; } st=GROUND; esc(c); return;
      case CSIENTRY: case CSIPARAM: case CSIINT: if(c0){ control(c); return; } if(c==0x7f) return; if(c>0x7f){ st=CSIIGN; return; } if(c>=0x40){ st=GROUND; csi(c); return; } if(c<0x30){ collect(c); st=CSIINT; return; } if(st==CSIINT||c==':'){ st=CSIIGN; return; } if(c>=0x3c){ if(st==CSIPARAM){ st=CSIIGN; return; } collect(c); st=CSIPARAM; return; } param(c); st=CSIPARAM; return;
      case CSIIGN: if(c0){ control(c); return; } if(c>=0x40&&c<=0x7e) st=GROUND; return;
      case DCSENTRY: case DCSPARAM: case DCSINT: if(c0||c==0x7f) return; if(c>=0x40){ st=DCSPASS; return; } if(c<0x30){ st=DCSINT; return; } if(st==DCSINT||c==':'){ st=DCSIGN; return; } if(c>=0x3c&&st==DCSPARAM){ st=DCSIGN; return; } st=DCSPARAM; return;
      case DCSPASS: case DCSIGN: case STIGN: return;
      case OSC: if(c==7){ enter(GROUND); return; } if(c0) return; { std::string u=ref_utf8(c); if(osc.size()+u.size()<=127) osc+=u; } return; } }
  void byte(unsigned char b){
    if(flags&TSM_VTE_FLAG_7BIT_MODE){ feed(b&0x7f); return; } if(flags&TSM_VTE_FLAG_8BIT_MODE){ feed(b); return; }
    // decoder: u8st = continuation bytes still missing
    if(u8st==0){ if(b<0x80){ feed(b); return; } if(b<0xc0) return; if(b<0xc2||b>=0xf8){ feed(0xfffd); return; } if(b<0xe0){ u8st=1; u8ch=b&0x1f; u8need=1; } else if(b<0xf0){ u8st=2; u8ch=b&0xf; u8need=2; } else { u8st=3; u8ch=b&7; u8need=3; } return; }
    if((b&0xc0)!=0x80){ u8st=0; feed(0xfffd); return; }
    u8ch=u8ch<<6|(b&0x3f); u8st--;
    if(u8need==3&&u8st==2&&(u8ch<0x10||u8ch>0x10f)){ u8st=0; feed(0xfffd); return; }
    if(u8need==2&&u8st==1&&(u8ch<0x20||(u8ch>=0x360&&u8ch<=0x37f))){ u8st=0; feed(0xfffd); return; }
    if(u8st==0) feed(u8ch); }
  void input(const std::string&b){ depth++; for(unsigned char c:b) byte(c); depth--; }
};
