#include "ops.h"
const CheckInfo CHECK={"C04","histories of printed text (widths 0, 1, 2) at random positions, sizes, margins, insert and auto-wrap modes, plus cursor motion and attribute changes; the whole redraw and the cursor are compared with the reference after every operation. Non-trivial: text wrapped or was clamped at the right edge and either insert mode or a wide character was involved",48000,360000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_CURSOR|O_PIC); int W,H; gen::dims(t,W,H,700); w.size(W,H); ops::ambient(w,t.chance(128)?ops::AMB_SEL|ops::AMB_NOALT:0); if(t.chance(60)) w.max_sb(t.u(6)); w.check(); bool edge=false,special=false;
  auto l=t.loop(3,c.thorough?40:26); while(t.more(l)){
    switch(t.weighted({40,14,4,12,10,6,10,3})){
      case 0: { if(t.chance(30)){ // get to the edge first
          w.input(fmt("\x1b[%dG",std::max(1,w.m.w-(int)t.u(3)))); }
        std::string s=gen::text(t,w.m.w+3); if(w.m.cx+2>=w.m.w) edge=true; w.input(s); if(w.m.cx>=w.m.w){ edge=true; c.label("at the right edge"); } for(unsigned char b:s) if(b>=0xe3){ special=true; c.label("wide characters"); break; } break; }
      case 1: w.input(gen::move(t,w.m.w,w.m.h)); break;
      case 2: w.input(gen::margins(t,w.m.h)); break;
      case 3: w.input(gen::modes(t,{4},{7})); if(w.m.flags&TSM_SCREEN_INSERT_MODE){ special=true; c.label("insert mode"); } if(!(w.m.flags&TSM_SCREEN_AUTO_WRAP)) c.label("no auto-wrap"); break;
      case 4: ops::write(w,t.chance(20)?t.of(std::vector<uint32_t>{0,7,0x7f,0x9b,0x10ffff}):gen::chr(t),ops::attr(t,true)); break;
      case 5: w.input(gen::sgr(t)); break;
      case 6: w.input(gen::control(t)); break;
      default: ops::cursor(w); }
    w.check(); }
  if(edge&&special) c.nontrivial(); }
