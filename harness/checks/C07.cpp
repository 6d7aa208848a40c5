#include "ops.h"
const CheckInfo CHECK={"C07","histories of output lines, scroll operations, scrollback limits, view movement, clearing, resizes and alternate-screen scrolling; after every operation the redraw, the line count and the position are compared with a reference list of lines. Non-trivial: the view was scrolled back while lines were added or trimmed",60000,400000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_PIC|O_SB); int W,H; gen::dims(t,W,H,300); w.size(W,H); ops::ambient(w); w.max_sb(t.chance(200)?t.u(2*H+4):t.u(3)); if(t.chance(60)) ops::sflags(w,TSM_SCREEN_FIXED_POS,true); w.check(); int line=0; bool inter=false;
  if(t.chance(1)&&t.chance(24)){ w.size(1+t.u(3),1+t.u(2)); w.max_sb(t.of(std::vector<int>{32768,65535,65536,70000})); std::string s; int n=t.of(std::vector<int>{32760,65530,66000}); for(int i=0;i<n;i++) s+=i%7?"\n":fmt("\r\n%d",i%10); w.input(s); w.check(); c.label("tens of thousands of lines"); }
  auto l=t.loop(4,c.thorough?60:36); while(t.more(l)){ bool back=w.m.view!=nullptr; size_t sb=w.m.sb.size(); LP f=sb?w.m.sb[0]:nullptr;
    switch(t.weighted({34,8,5,40,6,2,4,4,5,3,2,3})){
      case 0: { int n=1+t.u(t.chance(40)?2*w.m.h+2:3); if(t.chance(4)){ n=t.of(std::vector<int>{130,257,300,520}); if(t.chance(150)) w.max_sb(t.of(std::vector<int>{127,128,255,256,257,400,1000})); c.label("hundreds of lines"); } std::string s; for(int i=0;i<n;i++) s+=fmt("\r\n%d",line++); w.input(s); break; }
      case 1: w.input(t.chance(128)?gen::csi1(t,w.m.h,'S'):gen::index(t)); break;
      case 2: w.input(gen::text(t,w.m.w+2)); break;
      case 3: ops::view(w); break;
      case 4: w.max_sb(t.chance(128)?t.u(2*w.m.h+4):t.u(4)); break;
      case 5: ops::clear_sb(w); c.label("cleared"); break;
      case 6: { W=std::max(1,w.m.w+(int)t.range(-2,2)); H=std::max(1,w.m.h+(int)t.range(-2,2)); w.size(W,H); c.label("resized"); break; }
      case 7: ops::sflags(w,TSM_SCREEN_FIXED_POS,t.chance(160)); c.label("fixed position toggled"); break;
      case 8: w.input(t.of(std::vector<std::string>{"\x1b[?47h","\x1b[?47l","\x1b[?1049h","\x1b[?1049l","\x1b[?47l"})); c.label("alternate screen"); break;
      case 9: w.input(gen::margins(t,w.m.h)); break;
      case 10: w.input("\x1b[r"); break;
      default: w.input(gen::move(t,w.m.w,w.m.h)); }
    if(back&&(w.m.sb.size()!=sb||(sb&&w.m.sb.size()&&w.m.sb[0]!=f))) { inter=true; c.label("scrollback changed while viewed"); } if(w.m.view&&(int)w.m.sb.size()==w.m.sbmax) c.label("viewing a full scrollback");
    w.check(); if(t.chance(10)){ // walk the whole scrollback
      ops::sb_up(w,1<<20); w.check(); int g=0; while(w.m.view&&g++<400){ ops::sb_page_down(w,1); w.check(); } } }
  if(inter) c.nontrivial(); }
