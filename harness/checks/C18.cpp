#include "script.h"
const CheckInfo CHECK={"C18","a terminal gets a random history (all modes, margins, tabs, charsets, alternate screen, saved state, palettes, half-received characters and sequences), then a reset by call or sequence; from then on it runs next to a newly created terminal of the same size and palette and the complete observable state is compared after every further operation. For soft resets text, scrollback and cursor must survive, and after clearing them the terminal must equal the new one too. Non-trivial: the history had at least 6 operations, changed the state a snapshot shows besides text, and at least 4 operations followed the reset",75000,500000};
void run_case(Case&c){ Tape&t=c.t; Sut a(&c); a.tag="reset terminal: "; if(!a.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,300); std::vector<Op> keep; int mx=t.u(2*H+2); { Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(a,o); o.k=Op::MAXSB; o.a=mx; o.b=0; apply(a,o); }
  std::string flags0=snapshot(a,{false,false,false,false,false,true}); int n=0; std::string last; const unsigned M=gen::M_ALL&~gen::M_SEL;
  std::vector<Op> hist; // operations of before the reset are also repeated after it
  std::vector<Op> burst; if(t.chance(20)){ burst.push_back(gen::input(t.of(std::vector<std::string>{"\x1b[?1003;1016h","\x1b[?1003;1006h"}))); Op o; o.k=Op::MOUSE; o.a=t.chance(128)?0:t.u(W); o.b=t.chance(100)?0:t.u(H); o.c=t.u(3); o.d=4; burst.push_back(o); c.label("pointer in the same place before and after"); }
  auto l=t.loop(1,25); while(t.more(l)){ Op o=gen::op(t,a.w(),a.h(),M); if(t.chance(10)) o=gen::input(t.of(std::vector<std::string>{"\x1b[?1003h","\x1b[?1003;1006h","\x1b[?1002;1016h","\x1b[?9h"})); else if(t.chance(14)) o=gen::mouseop(t,a.w(),a.h()); else if(t.chance(10)){ o=Op(); o.k=Op::WRITE; o.a='A'+t.u(26); o.at=gen::attr(t,false); o.at.protect=true; } c.mix(o.str()); hist.push_back(o); if(o.k==Op::PALETTE||o.k==Op::CUSTOM||o.k==Op::BSDEL) keep.push_back(o); if(o.k==Op::MAXSB) mx=o.a; if(o.k==Op::INPUT) last=o.s; apply(a,o); n++; }
  if(t.chance(110)){ Op o=gen::input(t.of(std::vector<std::string>{"\xe4\xb8","\xf0\x9f\x98","\xc3","\x1b","\x1b[","\x1b[12;3","\x1b[?2","\x1b]0;ab","\x1bPq1","\x1b(","\x1b[31;","\x1bX123","\x1b[!"})); c.mix(o.str()); apply(a,o); last=o.s; c.label("cut off"); }
  for(auto&o:burst){ c.mix(o.str()); apply(a,o); n++; }
  bool dirty=flags0.substr(flags0.find('\n'))!=snapshot(a,{false,false,false,false,false,true}).substr(flags0.find('\n')>0?snapshot(a,{false,false,false,false,false,true}).find('\n'):0);
  bool hard=t.chance(140); bool api=t.chance(128)||last.empty()||(unsigned char)last.back()>=0x80; 
  if(hard){ if(api){ Op o; o.k=Op::HARD; apply(a,o); c.label("hard reset call"); } else { apply(a,gen::input("\x1b""c")); c.label("RIS"); } c.mix(api); }
  else { if(!api) apply(a,gen::input("\x18")); bool alt=tsm_screen_get_flags(a.s)&TSM_SCREEN_ALTERNATE;
    // what the user sees, apart from the cursor mark, screen inversion and padding of unwritten scrollback cells
    auto text=[&](){ std::string r=fmt("cursor %d,%d scrollback %d lines, position %d\n",a.cx(),a.cy(),a.sbcount(),a.sbpos()); Pic p=a.draw(); bool inv=tsm_screen_get_flags(a.s)&TSM_SCREEN_INVERSE, hide=tsm_screen_get_flags(a.s)&TSM_SCREEN_HIDE_CURSOR; (void)hide; for(int y=0;y<p.h;y++){ r+=fmt("row %d:",y); for(int x=0;x<p.w;x++){ const Cell&k=p.at(x,y); r+=fmt(" %x/%d",k.ch,k.w); } r+="\n"; } return r; };
    std::string before; if(!alt) before=text(); a.ev.clear();
    if(api){ Op o; o.k=Op::RESET; apply(a,o); c.label("soft reset call"); } else { apply(a,gen::input("\x1b[!p")); c.label("DECSTR"); } c.mix(api+2);
    if(!alt){ std::string after=text(); if(before!=after) fail("a soft reset changed the displayed text, the scrollback or the cursor: %s",first_diff(before,after).c_str()); }
    apply(a,gen::input("\x1b[?47h\x1b[2J\x1b[?47l\x1b[2J\x1b[H")); Op o; o.k=Op::CLEARSB; apply(a,o); }
  if(a.cx()||a.cy()) fail("cursor is at column %d row %d after the reset",a.cx(),a.cy()); if(a.sbcount()) fail("scrollback holds %d lines after the reset",a.sbcount());
  Sut b(&c); b.tag="new terminal:   "; if(!b.create()) fail("creation failed"); { Op o; o.k=Op::RESIZE; o.a=a.w(); o.b=a.h(); apply(b,o); o.k=Op::MAXSB; o.a=mx; o.b=0; apply(b,o); for(auto&k:keep) apply(b,k); }
  // the unused alternate screen of a new terminal is blank, but in colours from before the palette was set
  apply(b,gen::input("\x1b[?47h\x1b[2J\x1b[?47l"));
  a.ev.clear(); b.ev.clear(); auto cmp=[&](const char*when){ std::string x=snapshot(a),y=snapshot(b); a.ev.clear(); b.ev.clear(); if(x!=y) fail("%s, reset versus new terminal: %s",when,first_diff(x,y).c_str()); };
  cmp("right after the reset"); int m=0;
  // the stops of the new terminal, walked from both sides; a line filled to its end also shows a stop in the last column
  if(t.chance(110)){ auto step=[&](const std::string&x){ apply(a,gen::input(x)); apply(b,gen::input(x)); if(a.cx()!=b.cx()||a.cy()!=b.cy()) fail("\"%s\": cursor at column %d row %d after the reset, %d,%d on a new terminal",esc(x).c_str(),a.cx(),a.cy(),b.cx(),b.cy()); };
    step("\r"); for(int i=0;i<=a.w()/8+2;i++) step("\t"); step("\r"); step(std::string(a.w(),'x')); for(int i=0;i<=a.w()/8+2;i++) step("\x1b[Z"); step(std::string(a.w(),'y')); for(int i=0;i<2;i++) step("\x1b[Z"); step("\r"); cmp("after walking the tab stops"); c.label("tab stops walked"); }
  // cells right of a scrollback line that is narrower than the screen have no defined attributes, so either the width changes or there is a scrollback
  unsigned M2=gen::M_ALL; if(t.chance(100)){ Op o; o.k=Op::MAXSB; apply(a,o); apply(b,o); M2&=~gen::M_SB; c.label("resizes after the reset"); } else M2&=~gen::M_RESIZE;
  for(auto&o:burst){ int x=apply(a,o),y=apply(b,o); if(x!=y) fail("%s returned %d and %d",o.str().c_str(),x,y); m++; cmp("with the pointer where it was"); }
  auto l2=t.loop(2,c.thorough?30:18); while(t.more(l2)){ Op o=gen::op(t,a.w(),a.h(),M2); if(t.chance(50)) o=gen::input(t.of(std::vector<std::string>{"\x1b""8","\x1b[?1048l","\x1b[?1049l","\x1b[?1049h","\x1b[?47h","abc\t\tx","\x0e""abc","\x9b\x82""A","\x82\xac","abcdefghijklmnopqrstuvwxyz0123456789","\n\n\n\n","\x1b[m","\x1b[?1003h","\x1b[?1006h","\x1b[?6h","\xe9","\xc3\xa9"})); if(hist.size()&&t.chance(70)){ Op q=hist[t.u(hist.size())]; if(q.k!=Op::RESIZE&&q.k!=Op::MAXSB&&q.k!=Op::CLEARSB) o=q; } c.mix(o.str()); int x=apply(a,o),y=apply(b,o); if(x!=y) fail("%s returned %d and %d",o.str().c_str(),x,y); m++; cmp("after further operations"); }
  if(n>=6&&dirty&&m>=4) c.nontrivial(); }
