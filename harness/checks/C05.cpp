#include "ops.h"
const CheckInfo CHECK={"C05","a screen filled with text in random attributes (some protected, some wide), then a history of erase, selective erase, insert/delete character/line and scroll operations as byte sequences and direct calls, at random cursor positions, margins and background colours; the whole redraw and the cursor are compared with the reference after every operation. Non-trivial: at least 4 editing operations on a screen with content, in a partial scroll region or with protected cells",40000,300000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_CURSOR|O_PIC); int W,H; gen::dims(t,W,H,600); bool tall=t.chance(6); if(tall){ W=1+t.u(3); H=129+t.u(170); c.label("tall"); } w.size(W,H); ops::ambient(w,t.chance(128)?ops::AMB_SEL|ops::AMB_NOALT:0); if(t.chance(60)) w.max_sb(t.u(8));
  // fill
  bool prot=false; for(int y=0;y<H;y++){ w.input(fmt("\x1b[%dH",y+1)); A a; if(t.chance(110)){ a=ops::attr(t,true); if(a.protect) prot=true; for(int x=0;x<W;){ uint32_t ch=t.chance(20)?0x4e2d:'a'+(x+y*7)%26; if(ref_width(ch)==2&&x+1>=W) ch='z'; ops::write(w,ch,a); x+=ref_width(ch); } } else { std::string s; for(int x=0;x<W;x++) s+=(char)('A'+(x+y*5)%26); w.input(s); } }
  w.check(); int edits=0; bool part=false;
  auto l=t.loop(3,c.thorough?40:25); while(t.more(l)){
    if(tall&&t.chance(100)){ int n=100+t.u(H); if(t.chance(128)) w.input(fmt("\x1b[%d%c",n,t.of(std::vector<char>{'S','T','L','M'}))); else { int k=t.u(4); c.log("lines operation %d of %d",k,n); if(k==0){ tsm_screen_scroll_up(w.u.s,n); w.m.scroll_up(n); } else if(k==1){ tsm_screen_scroll_down(w.u.s,n); w.m.scroll_down(n); } else if(k==2){ tsm_screen_insert_lines(w.u.s,n); w.m.insert_lines(n); } else { tsm_screen_delete_lines(w.u.s,n); w.m.delete_lines(n); } } edits++; }
    else switch(t.weighted({40,30,12,8,5,4,3,5})){
      case 0: w.input(gen::edit(t,w.m.w,w.m.h)); edits++; break;
      case 1: ops::edit(w); edits++; break;
      case 2: w.input(gen::move(t,w.m.w,w.m.h)); break;
      case 3: w.input(gen::margins(t,w.m.h)); break;
      case 4: w.input(gen::sgr(t)); break;
      case 5: w.input(gen::text(t,w.m.w)); break;
      case 6: w.input(gen::index(t)); break;
      default: { A a=ops::attr(t,true); int n=1+t.u(4); if(a.protect) prot=true; for(int i=0;i<n;i++) ops::write(w,gen::chr(t),a); } }
    if(w.m.mt>0||w.m.mb<w.m.h-1){ part=true; c.label("partial region"); if(w.m.cy<w.m.mt||w.m.cy>w.m.mb) c.label("cursor outside region"); } if(prot) c.label("protected cells"); if(w.m.cx>=w.m.w) c.label("wrap pending"); if(w.m.h>128) c.label("more than 128 rows");
    w.check(); }
  if(edits>=4&&(part||prot)) c.nontrivial(); }
