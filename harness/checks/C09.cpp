#include "ops.h"
const CheckInfo CHECK={"C09","screens with text in random attributes, scrollback, tab stops, margins and alternate-screen content, resized repeatedly in every direction with output in between; picture, cursor, scrollback and reported size are compared with the reference after every operation, zero sizes and (with allocation failures injected) failing resizes must change nothing. Non-trivial: at least 3 resizes of a screen with content",48000,320000};
static int countdown; static int failing(){ return countdown>=0 && countdown--==0; }
void run_case(Case&c){ Tape&t=c.t; World w(c,O_PIC|O_CURSOR|O_SB); int W,H; gen::dims(t,W,H,400); w.size(W,H); ops::ambient(w); w.max_sb(t.u(H+6)); int n=0,line=0;
  auto l=t.loop(4,c.thorough?40:26); while(t.more(l)){
    switch(t.weighted({30,8,8,8,6,8,4,10,5,4,4,4})){
      case 0: { int x=w.m.w,y=w.m.h; switch(t.u(5)){ case 0: gen::dims(t,W,H,900); break; case 1: W=x; H=std::max(1,y+(int)t.range(-4,4)); break; case 2: H=y; W=std::max(1,x+(int)t.range(-6,6)); break; case 3: W=1+t.u(3); H=1+t.u(3); break; default: W=std::max(1,x+(int)t.range(-3,3)); H=std::max(1,y+(int)t.range(-3,3)); } w.size(W,H); n++; if(w.m.alt()) c.label("resized in the alternate screen"); if(H<y) c.label("height shrinks"); if(W<x) c.label("width shrinks"); if(W>x) c.label("width grows"); if(H>y) c.label("height grows"); break; }
      case 1: w.size(t.chance(128)?0:1+t.u(30),0); if(t.chance(128)) w.size(0,1+t.u(20)); break;
      case 2: { int k=1+t.u(w.m.h+1); std::string s; for(int i=0;i<k;i++) s+=fmt("\r\n%d",line++); w.input(s); break; }
      case 3: w.input(gen::sgr(t)); break;
      case 4: w.input(gen::tabs(t,w.m.w)); break;
      case 5: w.input(gen::text(t,w.m.w+3)); break;
      case 6: w.input(gen::margins(t,w.m.h)); break;
      case 7: w.input(gen::move(t,w.m.w,w.m.h)); break;
      case 8: w.input(t.of(std::vector<std::string>{"\x1b[?47h","\x1b[?47l","\x1b[?1049h","\x1b[?1049l"})); break;
      case 9: w.input(gen::edit(t,w.m.w,w.m.h)); break;
      case 10: ops::view(w); break;
      default: { // a resize that runs out of memory
        W=w.m.w+1+t.u(8); H=w.m.h+1+t.u(5); if(t.chance(80)) W=w.m.w; countdown=t.u(H*3+4); vt_failed=0; vt_should_fail=failing; int r=tsm_screen_resize(w.u.s,W,H); vt_should_fail=nullptr; w.u.L("resize with a failing allocation",{W,H,r,vt_failed});
        if(vt_failed){ c.label("failed resize"); if(r>=0) fail("resize returned %d although an allocation failed",r); } else { int b=w.m.resize(W,H); if(r!=b) fail("resize returned %d",r); } } }
    w.check();
    if(t.chance(30)){ // tab stops are where they should be: tab through the line
      w.input("\r"); int g=0; while(w.m.cx<w.m.w-1&&g++<20){ w.input("\t"); w.check(); } } }
  if(n>=3) c.nontrivial(); }
