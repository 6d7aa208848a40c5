// A system under test and the reference terminal run in lock-step, plus the
// generators that drive both.
#pragma once
#include "model.h"

enum Obs { O_CURSOR=1, O_PIC=2, O_FLAGS=4, O_SB=8, O_EV=16, O_COPY=32, O_SFLAGS=64, O_DEFATTR=128, O_ATTRFREE=256, O_MOUSE=512 };

inline std::string cell_str(const MC&m){ return fmt("U+%04X w=%d %s",m.ch,m.w,m.a.str().c_str()); }

struct World {
  Case&c; Tape&t; Sut u; MScreen m; std::unique_ptr<MVte> v; std::vector<Ev> mev; unsigned obs; 
  // facts about the history, for labels
  int nscroll=0,nwrap=0;
  World(Case&cc,unsigned o):c(cc),t(cc.t),u(&cc),obs(o){ if(!u.create()) fail("creation failed"); v.reset(new MVte(&m,&mev)); }
  void size(int W,int H){ u.L("resize",{W,H}); int a=tsm_screen_resize(u.s,W,H), b=m.resize(W,H); if(a!=b) fail("resize(%d,%d) returned %d, expected %d",W,H,a,b); }
  void input(const std::string&b){ u.input(b); v->input(b); }
  void max_sb(int n){ u.L("set_max_sb",{n}); tsm_screen_set_max_sb(u.s,n); m.set_max_sb(n); }
  void compare_pic(const char*when=""){
    Pic p=u.draw(); std::vector<MC> e; m.draw(e); if(p.w!=m.w||p.h!=m.h) fail("%ssize is %dx%d, expected %dx%d",when,p.w,p.h,m.w,m.h);
    for(int y=0;y<p.h;y++) for(int x=0;x<p.w;x++){ const Cell&k=p.at(x,y); const MC&q=e[(size_t)y*m.w+x]; 
      bool bad = (int)k.w!=q.w; if(q.w!=0&&k.ch!=q.ch) bad=true; if(!(obs&O_ATTRFREE)&&!q.wild&&k.a!=q.a){ A ka=k.a,qa=q.a; if(ka!=qa) bad=true; }
      if(bad){ MC km; km.ch=k.ch; km.w=k.w; km.a=k.a; fail("%scell (%d,%d) is [%s], expected [%s]; screen:\n%s",when,x,y,cell_str(km).c_str(),cell_str(q).c_str(),pic_text(p).c_str()); } } }
  void check(){
    u.bounds();
    if(obs&O_CURSOR){ if(u.cx()!=m.cx||u.cy()!=m.cy) fail("cursor is at column %d row %d, expected column %d row %d",u.cx(),u.cy(),m.cx,m.cy); }
    if(obs&O_SFLAGS){ if(tsm_screen_get_flags(u.s)!=m.flags) fail("screen flags are %#x, expected %#x",tsm_screen_get_flags(u.s),m.flags); }
    if(obs&O_FLAGS){ if(tsm_vte_get_flags(u.v)!=v->flags) fail("terminal flags are %#x, expected %#x",tsm_vte_get_flags(u.v),v->flags); }
    if(obs&O_MOUSE){ if((int)tsm_vte_get_mouse_mode(u.v)!=v->mmode||(int)tsm_vte_get_mouse_event(u.v)!=v->mevent) fail("mouse mode/event is %u/%u, expected %d/%d",tsm_vte_get_mouse_mode(u.v),tsm_vte_get_mouse_event(u.v),v->mmode,v->mevent); }
    if(obs&O_SB){ if(u.sbcount()!=(int)m.sb.size()) fail("scrollback holds %d lines, expected %d",u.sbcount(),(int)m.sb.size()); if(u.sbpos()!=m.sbpos()) fail("scrollback position is %d, expected %d",u.sbpos(),m.sbpos()); }
    if(obs&O_EV){ check_events(); } else { u.ev.clear(); mev.clear(); }
    if(obs&O_DEFATTR){ struct tsm_screen_attr a; tsm_vte_get_def_attr(u.v,&a); A x=from_attr(&a); if(x!=v->def) fail("default attributes are [%s], expected [%s]",x.str().c_str(),v->def.str().c_str()); }
    if(obs&O_COPY) check_copy();
    if(obs&O_PIC) compare_pic();
  }
  void check_events(){ size_t n=std::min(u.ev.size(),mev.size()); for(size_t i=0;i<n;i++) if(!(u.ev[i]==mev[i])) fail("notification %zu is %s, expected %s",i,u.ev[i].str().c_str(),mev[i].str().c_str());
    if(u.ev.size()>n) fail("unexpected notification %s",u.ev[n].str().c_str()); if(mev.size()>n) fail("missing notification %s",mev[n].str().c_str()); u.ev.clear(); mev.clear(); }
  void check_copy(){ char*o=nullptr; int r=tsm_screen_selection_copy(u.s,&o); std::string e; int er=m.copy(e); 
    if(r<0||er<0){ if(o&&r>=0) vt_free(o); if((r<0)!=(er<0)) fail("selection copy returned %d, expected %d",r,er); return; }
    std::string got(o,r); size_t sl=strlen(o); vt_free(o); if(got!=e) fail("copied text is \"%s\" (%d bytes), expected \"%s\" (%d bytes)",esc(got).c_str(),r,esc(e).c_str(),er); if(sl!=got.size()) fail("copied text length %d but strlen %zu",r,sl); }
};

// ---------------------------------------------------------------- generators
namespace gen {
inline void cp(std::string&o,uint32_t c){ o+=ref_utf8(c); }
// a printable character (possibly of width 0 or 2)
inline uint32_t chr(Tape&t){ switch(t.weighted({60,6,10,4,4,4,4})){ case 0: return 'a'+t.u(26); case 1: return ' '; case 2: return t.of(std::vector<uint32_t>{0x4e00,0x3042,0xac00,0xff21,0x1f600,0x20000,0x4e2d}); case 3: return t.of(std::vector<uint32_t>{0x300,0x301,0x20d0,0x200b,0xfe0f,0x34f}); case 4: return t.of(std::vector<uint32_t>{0xa1,0xe9,0xff,0xa0,0xad,0xdf}); case 5: return t.of(std::vector<uint32_t>{0x2500,0x3b1,0x20ac,0x416,0x1d11e,0xfffd,0x2550}); default: return 33+t.u(94); } }
inline std::string text(Tape&t,int maxn){ std::string o; int n=1+t.u(maxn); for(int i=0;i<n;i++) cp(o,chr(t)); return o; }
inline std::string ascii(Tape&t,int maxn){ std::string o; int n=1+t.u(maxn); for(int i=0;i<n;i++) o+=(char)('A'+t.u(26)); return o; }
// a numeric parameter around the interesting values of a dimension
inline std::string num(Tape&t,int dim){ switch(t.weighted({10,5,12,25,8,6,2,1,1})){ case 0: return ""; case 1: return "0"; case 2: return "1"; case 3: return std::to_string(t.u(dim+3)); case 4: return std::to_string(dim); case 5: return std::to_string(dim+1+t.u(4)); case 6: return std::to_string(t.of(std::vector<int>{255,256,999,16384,32768,65535,65536})); case 7: return "000" + std::to_string(t.u(dim+2)); default: return t.of(std::vector<std::string>{"99999999999999999999","4294967296","4294967297","2147483648","655359"}); } }
inline std::string csi1(Tape&t,int dim,char f){ return "\x1b["+num(t,dim)+f; }
inline std::string csi2(Tape&t,int d1,int d2,char f){ std::string s="\x1b["+num(t,d1); if(t.chance(230)) s+=";"+num(t,d2); return s+f; }
inline std::string intro(Tape&t){ return t.chance(24)?"\xc2\x9b":"\x1b["; }
inline std::string control(Tape&t){ return std::string(1,t.of(std::vector<char>{'\n','\r','\b','\t','\v','\f','\n','\r'})); }
inline std::string move(Tape&t,int w,int h){ switch(t.u(14)){ case 0: return csi1(t,h,'A'); case 1: return csi1(t,h,'B'); case 2: return csi1(t,w,'C'); case 3: return csi1(t,w,'D'); case 4: return csi1(t,h,'E'); case 5: return csi1(t,h,'F'); case 6: return csi1(t,w,'G'); case 7: return csi1(t,h,'d'); case 8: return csi1(t,h,'e'); case 9: case 10: case 11: return csi2(t,h,w,'H'); case 12: return csi2(t,h,w,'f'); default: return control(t);} }
inline std::string index(Tape&t){ return t.of(std::vector<std::string>{"\x1b""D","\x1bM","\x1b""E","\xc2\x84","\xc2\x85","\xc2\x8d","\n","\x1bM"}); }
inline std::string tabs(Tape&t,int w){ switch(t.u(7)){ case 0: return "\x1bH"; case 1: return "\t"; case 2: return csi1(t,w/4,'I'); case 3: return csi1(t,w/4,'Z'); case 4: return "\x1b[g"; case 5: return t.of(std::vector<std::string>{"\x1b[3g","\x1b[0g","\x1b[2g","\x1b[1g","\x1b[5g"}); default: return "\xc2\x88"; } }
inline std::string margins(Tape&t,int h){ if(t.chance(40)) return "\x1b[r"; return csi2(t,h,h,'r'); }
inline std::string edit(Tape&t,int w,int h){ switch(t.u(11)){ case 0: return csi1(t,h,'L'); case 1: return csi1(t,h,'M'); case 2: return csi1(t,w,'@'); case 3: return csi1(t,w,'P'); case 4: return csi1(t,w,'X'); case 5: return csi1(t,h,'S'); case 6: return csi1(t,h,'T'); case 7: case 8: return std::string("\x1b[")+(t.chance(60)?"?":"")+t.of(std::vector<std::string>{"","0","1","2","3","4"})+"J"; default: return std::string("\x1b[")+(t.chance(60)?"?":"")+t.of(std::vector<std::string>{"","0","1","2","3"})+"K"; } }
inline std::string sgr1(Tape&t){ switch(t.weighted({20,10,12,12,6,6,10,8,6,4,4})){ case 0: return std::to_string(t.of(std::vector<int>{0,1,3,4,5,7,22,23,24,25,27,1,7})); case 1: return std::to_string(30+t.u(8)); case 2: return std::to_string(40+t.u(8)); case 3: return std::to_string(90+t.u(8)); case 4: return std::to_string(100+t.u(8)); case 5: return t.chance(128)?"39":"49"; case 6: return fmt("%d;5;%d",t.chance(128)?38:48,(int)t.u(256)); case 7: { int a=t.chance(128)?38:48,v[3]; switch(t.weighted({5,2,2,2})){ case 0: for(int&x:v) x=t.u(256); break; case 1: for(int&x:v) x=t.of(std::vector<int>{0,255,0,95,1,254,135,128}); break; case 2: v[0]=v[1]=v[2]=t.chance(128)?(int)t.u(2)*255:(int)t.u(256); break; default: { const auto&p=REF_PALETTES[t.u(sizeof(REF_PALETTES)/sizeof(*REF_PALETTES))].c[t.u(18)]; for(int i=0;i<3;i++) v[i]=p[i]; } } // a colour of a palette
    return fmt("%d;2;%d;%d;%d",a,v[0],v[1],v[2]); } case 8: return ""; case 10: { // a colour with omitted or missing arguments
    std::string s=t.chance(128)?"38":"48"; if(t.chance(16)) return s; s+=";"; int k=t.weighted({8,4,1,1}); s+=k==0?"2":k==1?"5":k==2?"":std::to_string(t.u(9)); int n=k==1?(int)t.u(2):t.chance(200)?3:(int)t.u(4); for(int i=0;i<n;i++){ s+=";"; if(!t.chance(100)) s+=std::to_string(t.chance(128)?(int)t.u(10):30+(int)t.u(78)); } return s; } default: return std::to_string(t.u(120)); } }
inline std::string sgr(Tape&t){ std::string s="\x1b["; int n=t.chance(40)?(int)t.u(18):1+(int)t.u(3); for(int i=0;i<n;i++){ if(i) s+=";"; s+=sgr1(t);} return s+"m"; }
inline std::string modes(Tape&t,const std::vector<int>&ansi,const std::vector<int>&dec){ bool q=dec.size()&&(ansi.empty()||t.chance(190)); std::string s=q?"\x1b[?":"\x1b["; int n=t.chance(40)?1+(int)t.u(5):1; for(int i=0;i<n;i++){ if(i) s+=";"; if(t.chance(8)) continue; s+=std::to_string(t.of(q?dec:ansi)); } return s+(t.chance(140)?"h":"l"); }
inline std::string charset(Tape&t,bool wide_slots=true){ switch(t.u(10)){ case 0: case 1: case 2: case 3: return std::string("\x1b")+"()*+"[t.u(4)]+t.of(std::vector<char>{'B','0','<','0','<','A','4','C','5','R','Q','K','Y','E','6','Z','H','7','='}); case 4: return t.chance(128)?"\x0e":"\x0f"; case 5: return std::string("\x1b")+"no"[t.u(2)]; case 6: return std::string("\x1b")+"~}|"[t.u(3)]; case 7: case 8: return std::string("\x1b")+"NO"[t.u(2)]; default: return t.of(std::vector<std::string>{"\xc2\x8e","\xc2\x8f"}); } }
inline std::string query(Tape&t){ return t.of(std::vector<std::string>{"\x1b[c","\x1b[0c","\x1b[>c","\x1b[>0c","\x1b[5n","\x1b[6n","\x1bZ","\xc2\x9a","\x05","\x1b[6n","\xc2\x9b""6n"}); }
inline std::string osc(Tape&t,int maxn=160){ std::string s=t.chance(30)?"\xc2\x9d":"\x1b]"; int n=t.chance(60)?118+(int)t.u(16):(int)t.u(t.chance(80)?maxn:12); for(int i=0;i<n;i++){ if(t.chance(20)) cp(s,chr(t)); else s+=(char)(32+t.u(95)); } s+=t.of(std::vector<std::string>{"\x07","\x1b\\","\xc2\x9c"}); return s; }
inline std::string str(Tape&t){ std::string s=t.of(std::vector<std::string>{"\x1bP","\x1bX","\x1b^","\x1b_","\xc2\x90","\xc2\x98","\xc2\x9e","\xc2\x9f"}); int n=t.u(10); for(int i=0;i<n;i++){ switch(t.u(5)){ case 0: s+=(char)t.u(0x18); break; case 1: cp(s,0xa0+t.u(200)); break; default: s+=(char)(32+t.u(95)); } } s+=t.of(std::vector<std::string>{"\x1b\\","\xc2\x9c","\x18","\x1b\\"}); return s; }
inline std::string savres(Tape&t){ return t.chance(128)?"\x1b""7":"\x1b""8"; }
// arbitrary sequence with any introducer, markers, parameters, intermediates and final
inline std::string edge(Tape&t);
inline std::string weird(Tape&t){ std::string s; switch(t.weighted({40,15,10,10,10,6})){
  case 4: return edge(t);
  case 0: { s=intro(t); int n=t.u(4); for(int i=0;i<n;i++) s+=t.of(std::vector<char>{'?','>','<','=','!','$',' ','"','\'','*','+','#','%','&',',','-','.','/','(',')',':'}); n=t.u(3); for(int i=0;i<n;i++){ s+=num(t,10); if(t.chance(128)) s+=";"; } if(t.chance(40)) s+=t.of(std::vector<char>{'$','!',' ','"','#','%','*','\'',':','?'}); if(t.chance(20)) s+=t.of(std::vector<std::string>{"\x18","\x1a","\x1b","\xc2\x9c","\xc3\xa9","\x7f","\n","\r"}); s+=(char)(0x40+t.u(0x3f)); break; }
  case 1: { s="\x1b"; int n=t.u(3); for(int i=0;i<n;i++) s+=(char)(0x20+t.u(16)); if(t.chance(20)) cp(s,0xa0+t.u(0x200)); s+=(char)(0x30+t.u(0x4f)); break; }
  case 2: { int n=1+t.u(6); for(int i=0;i<n;i++) s+=(char)t.u(256); break; }
  case 3: { s=intro(t); int n=t.u(40); for(int i=0;i<n;i++) s+=t.chance(100)?';':(char)('0'+t.u(10)); s+=(char)(0x40+t.u(0x3f)); break; }
  default: cp(s,0x80+t.u(0x20)); }
  return s; }
inline std::string badutf8(Tape&t){ std::string s; int n=1+t.u(5); for(int i=0;i<n;i++) switch(t.u(6)){ case 0: s+=(char)(0x80+t.u(64)); break; case 1: s+=(char)(0xc0+t.u(64)); break; case 2: { std::string g; cp(g,chr(t)); s+=g.substr(0,g.size()-1); break; } case 3: s+=t.of(std::vector<std::string>{"\xc0\x8a","\xc1\xbf","\xe0\x80\x8a","\xe0\x9f\xbf","\xf0\x80\x80\x8a","\xf0\x8f\xbf\xbf","\xed\xa0\x80","\xed\xbf\xbf","\xf4\x90\x80\x80","\xf5\x80\x80\x80","\xf8\x88\x80\x80\x80","\xff","\xfe"}); break; default: cp(s,chr(t)); } s+=(char)('a'+t.u(26)); return s; }
// a parser state entered in some way, then any one character (the ends of the ranges the states distinguish more often), then something that ends it
inline uint32_t edgechr(Tape&t){ if(t.chance(90)) return t.u(0x100); return t.of(std::vector<uint32_t>{0,5,7,8,9,10,13,14,15,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1f,0x20,0x21,0x2f,0x30,0x39,0x3a,0x3b,0x3c,0x3f,0x40,0x4f,0x50,0x51,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x7e,0x7f,0x7f,0x7f,0x80,0x8f,0x90,0x91,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0xff,0x100,0x2500,0xffff,0x10ffff}); }
inline std::string edge(Tape&t){
  if(t.chance(128)){ // a supported sequence with such a character somewhere inside
    std::string s=t.of(std::vector<std::string>{"\x1b[2C","\x1b[!p","\x1b[62\"p","\x1b[62;1\"p","\x1b[?6l","\x1b[?25;5h","\x1b[>c","\x1b[>p","\x1b(0","\x1b)A","\x1b F","\x1b#8","\x1bM","\x1b[3;2H","\x1b[?2J","\x1b[1;31m","\x1b]0;ti\x07","\x1b]2;ab\x1b\\","\x1bP$qm\x1b\\","\x1bP1;2|ab\x1b\\","\x1bXabc\x1b\\","\x1b_ab\xc2\x9c","\xc2\x9b""2C","\x1b[6n","\x1b[1$p"}); int n=t.chance(200)?1:2; while(n--){ std::string e; cp(e,edgechr(t)); s.insert(1+t.u(s.size()),e); } return s; }
  std::string s=t.of(std::vector<std::string>{"","\x1b","\x1b ","\x1b(","\x1b#","\x1b$","\x1b%","\x1b  ","\x1b[","\x1b[?","\x1b[>","\x1b[<","\x1b[=","\x1b[2","\x1b[2;","\x1b[?2","\x1b[!","\x1b[ ","\x1b[\"","\x1b[$","\x1b[2!","\x1b[2 ","\x1b[?25!","\x1b[2:","\x1b[2?","\x1b[!2","\x1b[?!","\x1b]","\x1b]0;ab","\x1bP","\x1bP2","\x1bP2;","\x1bP?","\x1bP!","\x1bP$","\x1bP2$","\x1bP2:","\x1bP$2","\x1bPq","\x1bPqab","\x1bP$q","\x1bX","\x1b^","\x1b_","\x1bXab","\x1b_ab","\xc2\x9b","\xc2\x9b""2","\xc2\x90","\xc2\x90""2$","\xc2\x9d","\xc2\x98","\xc2\x9e","\xc2\x9f"}); int n=t.chance(190)?1:2;
  while(n--) cp(s,edgechr(t));
  s+=t.of(std::vector<std::string>{"","","2C","p","q","2J","\x1b\\","\xc2\x9c","\x07","\x18","m","H","5n","F","c","B0",";3H","25h","$p","1$r","[2C","\x1b[2C","\x1b[5n"}); return s; }
inline void dims(Tape&t,int&w,int&h){ switch(t.weighted({20,10,5,3,2,1})){ case 0: w=1+t.u(12); h=1+t.u(7); break; case 1: w=6+t.u(25); h=2+t.u(10); break; case 2: w=1+t.u(4); h=1+t.u(4); break; case 3: w=80; h=24; break; case 4: w=1+t.u(100); h=1+t.u(40); break; default: w=1+t.u(8); h=125+t.u(20); } }
// sizes of at most lim cells, and now and then lines or columns beyond what a byte can count
inline void dims(Tape&t,int&w,int&h,int lim){ if(t.chance(3)){ w=t.chance(128)?t.of(std::vector<int>{127,128,129,255,256,257,258}):100+(int)t.u(230); h=1+t.u(2); return; } if(t.chance(2)){ h=t.chance(128)?t.of(std::vector<int>{127,128,129,255,256,257,258}):100+(int)t.u(200); w=1+t.u(2); return; } do dims(t,w,h); while(w*h>lim); }
}
