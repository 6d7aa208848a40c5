#include "ops.h"
const CheckInfo CHECK={"C03","random terminal sizes and histories of cursor-movement, index, tab, margin, origin-mode, autowrap and text operations (byte sequences and direct screen calls); after every operation the reported cursor is compared with the reference rules. Non-trivial: at least 8 operations moved the cursor, with margins or origin mode or changed tab stops in effect at some point",90000,900000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_CURSOR); int W,H; gen::dims(t,W,H,3000); if(t.chance(1)&&t.chance(60)){ W=t.of(std::vector<int>{1000,32767,32768,32769,65535,65536,65537,70000}); H=1+t.u(2); if(t.chance(100)){ H=t.of(std::vector<int>{300,513,1000,4097}); W=1+t.u(2); } c.label("huge screen"); } w.size(W,H); ops::ambient(w,ops::AMB_SEL); w.check(); int moved=0; bool special=false;
  auto l=t.loop(4,c.thorough?90:60); while(t.more(l)){ int px=w.m.cx,py=w.m.cy;
    switch(t.weighted({34,14,12,8,6,14,20,2,3,2,4})){
      case 0: w.input(gen::move(t,w.m.w,w.m.h)); break;
      case 1: w.input(gen::index(t)); break;
      case 2: w.input(gen::tabs(t,w.m.w)); c.label("tab stops"); break;
      case 3: w.input(gen::margins(t,w.m.h)); break;
      case 4: w.input(gen::modes(t,{20},{6,6,7})); break;
      case 5: w.input(gen::text(t,w.m.w+2)); break;
      case 6: ops::cursor(w); break;
      case 7: gen::dims(t,W,H); if(t.chance(128)){ W=std::max(1,w.m.w+(int)t.range(-2,2)); H=std::max(1,w.m.h+(int)t.range(-2,2)); } w.size(W,H); c.label("resize"); break;
      case 8: ops::margins(w); break;
      case 10: { int x=t.chance(128)?w.m.w-(int)t.u(2):1+(int)t.u(w.m.w); w.input(fmt("\x1b[%dG",std::max(1,x))+t.of(std::vector<std::string>{"\x1bH","\x1b[g","\x1b[3g",""})); w.check(); if(t.chance(128)) w.input(gen::ascii(t,2)); else w.input(fmt("\x1b[%dG",1+(int)t.u(w.m.w))); w.check(); w.input(t.chance(128)?gen::csi1(t,2,'Z'):gen::csi1(t,2,'I')); c.label("tab stops at the edge"); break; }
      default: w.input(t.of(std::vector<std::string>{"\x1b[?1048h","\x1b[?1048l","\x1b""7","\x1b""8","\x1b[?1049h","\x1b[?1049l","\x1b[!p","\x1b""c"})); c.label("save/restore"); }
    w.check(); if(w.m.cx!=px||w.m.cy!=py) moved++; if(w.m.mt>0||w.m.mb<w.m.h-1){ special=true; c.label("margins set"); if(w.m.flags&TSM_SCREEN_REL_ORIGIN) c.label("origin mode with margins"); if(w.m.cy<w.m.mt||w.m.cy>w.m.mb) c.label("cursor outside margins"); } if(w.m.cx>=w.m.w) c.label("wrap pending"); }
  if(moved>=8&&special) c.nontrivial(); }
