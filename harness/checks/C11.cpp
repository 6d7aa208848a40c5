#include "ops.h"
const CheckInfo CHECK={"C11","selections started and extended at random cells in both directions, on screen and in a scrolled-back view, while output scrolls, the scrollback trims, the view moves and the size changes; after every operation every cell of the redraw (including its inversion) is compared with the reference. Non-trivial: the selection spanned several rows and output, trimming or a resize happened while it was active",60000,400000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_PIC); int W,H; gen::dims(t,W,H,300); w.size(W,H); ops::ambient(w,ops::AMB_NOALT); w.max_sb(t.chance(210)?t.u(2*H+6):t.u(2)); w.check(); bool multi=false,moved=false; int line=0;
  auto l=t.loop(4,c.thorough?60:36); while(t.more(l)){ bool act=w.m.sel; size_t sb=w.m.sb.size();
    switch(t.weighted({16,10,14,26,12,2,3,2,3,2,2})){
      case 0: { int n=1+t.u(t.chance(30)?w.m.h+3:3); if(t.chance(3)){ n=t.of(std::vector<int>{130,257,300}); if(t.chance(150)) w.max_sb(t.of(std::vector<int>{128,255,256,257,400})); c.label("hundreds of lines"); } std::string s; for(int i=0;i<n;i++) s+= t.chance(180)?fmt("\r\nline%d",line++):"\r\n"+gen::text(t,w.m.w+2); w.input(s); if(act) moved=true; break; }
      case 1: w.input(gen::text(t,w.m.w+2)); break;
      case 2: { long x=t.u(w.m.w+(t.chance(10)?5:0)),y=t.u(w.m.h+(t.chance(10)&&!w.m.view?5:0)); ops::sel_start(w,x,y); if(w.m.ss.k==Anchor::SB) c.label("started in the scrollback"); break; }
      case 3: { long x=t.u(w.m.w+(t.chance(10)?5:0)),y=t.u(w.m.h+(t.chance(10)&&!w.m.view?5:0)); ops::sel_target(w,x,y); if(w.m.sel){ long a,b,d,e; w.m.sel_range(a,b,d,e); if(d>a){ multi=true; c.label("several rows"); } if(w.m.ss.k==Anchor::SB&&w.m.se.k==Anchor::SCR||w.m.ss.k==Anchor::SCR&&w.m.se.k==Anchor::SB) c.label("scrollback and screen"); } break; }
      case 4: ops::view(w); break;
      case 5: ops::sel_reset(w); break;
      case 6: w.max_sb(t.chance(128)?t.u(2*w.m.h+4):t.u(4)); if(act&&w.m.sb.size()<sb) moved=true; break;
      case 7: if(t.chance(60)) ops::clear_sb(w); break;
      case 8: { int a=std::max(1,w.m.w+(int)t.range(-2,2)),b=std::max(1,w.m.h+(int)t.range(-2,2)); w.size(a,b); if(act) moved=true; c.label("resized"); break; }
      case 9: w.input(gen::move(t,w.m.w,w.m.h)); break;
      default: w.input(fmt("\x1b[%d%c",1+(int)t.u(w.m.h+1),t.of(std::vector<char>{'S','S','T','X','K'}))); }
    if(act&&w.m.sb.size()!=sb) c.label("scrollback changed while selecting"); if(w.m.sel&&(w.m.ss.k==Anchor::TOP||w.m.se.k==Anchor::TOP)) c.label("end fell off the top");
    w.check(); }
  if(multi&&moved) c.nontrivial(); }
