#include "ops.h"
const CheckInfo CHECK={"C33","the width of every code point is queried once per process (in a shuffled order) and random neighbourhoods of code points (most around the borders of the reference's ranges) again in random order, each against the reference table; the same characters are then printed by a program or by the application on small screens, in every wrap and insert mode, next to plain ones, and cursor, cells and widths are compared with the reference screen. Non-trivial: characters of two different widths were printed and one of them was wide or zero-width and beyond U+0300",40000,200000};
static std::vector<uint32_t> borders;
static void q(uint32_t ch){ unsigned r=tsm_ucs4_get_width(ch), e=ref_width(ch); if(r>2) fail("U+%04X is %u columns wide",ch,r); if(ch<=0x10ffff&&r!=e) fail("U+%04X is %u columns wide, expected %u",ch,r,e); }
void run_case(Case&c){ Tape&t=c.t; static bool once=false;
  if(!once){ once=true; uint32_t mul=0x9e3b1; for(uint32_t i=0;i<0x110000;i++) q((uint32_t)(((uint64_t)i*mul+12345)%0x110000)); int last=-1; for(uint32_t i=0;i<0x110000;i++){ int w=ref_width(i); if(w!=last){ borders.push_back(i); last=w; } } }
  World w(c,O_CURSOR|O_PIC); int W,H; do gen::dims(t,W,H,160); while(W<2); w.size(W,H); w.max_sb(t.u(4)); bool seen[3]={}; bool far=false;
  auto pick=[&]()->uint32_t{ switch(t.weighted({50,20,10,3,6})){ case 0: return (borders[t.u(borders.size())]+(uint32_t)t.range(-3,2))%0x110000; case 1: { size_t i=t.u(borders.size()-1); return borders[i]+t.u(borders[i+1]-borders[i]); } case 2: return t.u(0x110000); case 3: return t.chance(128)?0xffffffffu-t.u(0x80):0x110000+t.u(0x7fffffff); default: return 32+t.u(224); } };
  if(t.chance(160)) ops::sflags(w,TSM_SCREEN_AUTO_WRAP,t.chance(190)); if(t.chance(60)) w.input("\x1b[4h");
  auto l=t.loop(3,30); while(t.more(l)){
    uint32_t ch=pick(); c.mix(ch); q(ch); int n=t.u(8); for(int i=0;i<n;i++) q(ch+(uint32_t)t.range(-20,20)); q(ch);
    uint32_t b=ch; if(t.chance(40)) b='a'+t.u(26);
    bool uni=b<=0x10ffff&&(b<0xd800||b>0xdfff)&&ref_utf8(b).size(); int rw=ref_width(b);
    if(uni&&b>=0xa0&&t.chance(150)){ std::string s; if(t.chance(100)) s+='x'; s+=ref_utf8(b); if(t.chance(100)) s+='y'; w.input(s); seen[rw]=true; }
    else if(b<=0x10ffff&&b>=32){ A a; a.fc=t.u(16); a.bc=t.u(16); ops::write(w,b,a); seen[rw]=true; }
    if(b>=0x300&&rw!=1) far=true;
    switch(t.u(8)){ case 0: w.input(fmt("\x1b[%dG",t.chance(128)?w.m.w-(int)t.u(3):1+(int)t.u(w.m.w))); break; case 1: w.input("\r\n"); break; case 2: w.input("z"); break; }
    w.check(); }
  if(seen[0]) c.label("zero width"); if(seen[2]) c.label("wide"); if(far&&seen[0]+seen[1]+seen[2]>=2) c.nontrivial(); }
