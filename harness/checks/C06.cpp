#include "script.h"
#include "ops.h"
const CheckInfo CHECK={"C06","streams of malformed, unknown, over-long, aborted and nested control sequences and strings interleaved with supported ones and text; screen, cursor, modes, mouse modes and every reply are compared with a reference parser after every piece. Non-trivial: at least 4 malformed or unsupported pieces with text behind them",75000,600000};
static std::string aborted(Tape&t,int w,int h){ std::string s=gen::soup(t,w,h,gen::M_OSC|gen::M_CHARSET); size_t n=1+t.u(s.size()); s=s.substr(0,n); s+=t.of(std::vector<std::string>{"\x18","\x1a","\x1b[m","\x1b]0;x\x07","\xc2\x9b""1m","\xc2\x90q\x1b\\","\xc2\x98zz\xc2\x9c","\xc2\x9c","\x1b[3D","\xc2\x84","\x1b\\"}); return s; }
static std::string embedded(Tape&t,int w,int h){ std::string s="\x1b["; std::string body=gen::num(t,w)+";"+gen::num(t,h); for(char ch:body){ if(t.chance(60)) s+=t.of(std::vector<char>{'\n','\r','\b','\t','\x07','\x0e','\x0f','\0','\x7f'}); s+=ch; } if(t.chance(60)) s+=t.of(std::vector<char>{'\n','\r','\b','\t'}); return s+t.of(std::vector<char>{'H','A','B','C','D','m','J','K','G','d','r','X','P','@'}); }
static std::string many(Tape&t){ std::string s="\x1b["; int n=10+t.u(20); for(int i=0;i<n;i++){ if(i) s+=";"; if(t.chance(200)) s+=std::to_string(t.of(std::vector<int>{1,4,7,0,31,42,5,3,6,25})); } return s+t.of(std::vector<std::string>{"m","H","h","l","r","A"}); }
static std::string cut(Tape&t){ // any sequence opened but replaced by a new one
  std::string s=t.of(std::vector<std::string>{"\x1b","\x1b[","\x1b[?","\x1b[1;","\x1b[?2","\x1b[!","\x1b(","\x1b#","\x1b]","\x1bP","\x1bP1;2","\x1bP$q","\x1b_","\xc2\x9b","\xc2\x9d""abc","\x1b[1:2","\x1b[\xc3\xa9","\x1b ","\x1bX"}); return s+t.of(std::vector<std::string>{"\x1b[2C","\x1b""D","\x1b[K","\x18","\xc2\x9b""1;1H","\x1b""c","\x1b\\","\x1a"}); }
void run_case(Case&c){ Tape&t=c.t; World w(c,O_CURSOR|O_PIC|O_FLAGS|O_SFLAGS|O_EV|O_MOUSE); int W,H; gen::dims(t,W,H,300); w.size(W,H); ops::ambient(w); int odd=0;
  auto l=t.loop(3,c.thorough?40:24); while(t.more(l)){
    switch(t.weighted({30,14,14,6,12,6,6,16,30})){
      case 0: w.input(gen::weird(t)); odd++; break; case 1: w.input(aborted(t,w.m.w,w.m.h)); odd++; c.label("aborted"); break; case 2: w.input(embedded(t,w.m.w,w.m.h)); odd++; c.label("embedded controls"); break; case 3: w.input(many(t)); odd++; c.label("many parameters"); break;
      case 4: w.input(cut(t)); odd++; c.label("replaced"); break; case 5: w.input(gen::str(t)); c.label("string"); break; case 6: w.input(gen::osc(t)); break; case 8: w.input(gen::edge(t)); odd++; c.label("state boundaries"); break; default: w.input(gen::soup(t,w.m.w,w.m.h,gen::M_SAVE|gen::M_QUERY)); }
    if(t.chance(120)) w.input(gen::ascii(t,3)); w.check(); }
  if(odd>=4) c.nontrivial(); }
