#include "ops.h"
#include "world.h"
const CheckInfo CHECK={"C20","operating-system commands with text of every character length class, lengths around the 127-byte limit, embedded and lost control characters, all terminators and interruptions (CAN, SUB, new sequences, resets), several in a row and mixed with ordinary output; the strings delivered and the screen are compared with the reference terminal. Non-trivial: at least two commands were delivered, one with multi-byte text or at the length limit",72000,500000};
static std::string one(Tape&t){ std::string s=t.chance(40)?"\xc2\x9d":"\x1b]"; int target= t.weighted({30,10,14,4})==0? (int)t.u(24): t.chance(150)? 118+(int)t.u(16): (int)t.u(300); bool multi=t.chance(120); uint32_t fav=gen::chr(t);
  while((int)s.size()<target+2){ if(t.chance(6)) s+=(char)t.u(0x20); if(t.chance(3)) s+='\x7f'; if(multi&&t.chance(60)) gen::cp(s,t.chance(128)?fav:gen::chr(t)); else if(t.chance(4)) gen::cp(s,0xa0+t.u(0x60)); else s+=(char)(32+t.u(95)); }
  switch(t.weighted({14,14,10,3,3,3,3,2})){ case 0: s+='\x07'; break; case 1: s+="\x1b\\"; break; case 2: s+="\xc2\x9c"; break; case 3: s+="\x18"; break; case 4: s+="\x1a"; break; case 5: s+="\x1b[3C"; break; case 6: s+="\x1b]"; break; default: gen::cp(s,0x80+t.u(0x20)); } return s; }
void run_case(Case&c){ Tape&t=c.t; World w(c,O_EV|O_PIC|O_CURSOR); int W,H; gen::dims(t,W,H,150); w.size(W,H); ops::ambient(w); int got=0; bool special=false; 
  auto l=t.loop(1,c.thorough?24:12); while(t.more(l)){ std::string s; switch(t.weighted({60,15,6,5,6,3,3})){ case 0: s=one(t); break; case 1: s=gen::ascii(t,6); break; case 2: s=gen::str(t); break; case 3: s=t.of(std::vector<std::string>{"\x1b""c","\x1b[!p","\x1b[62\"p","\x1b[61\"p","\x1b[60\"p"}); break; case 4: s=gen::csi2(t,H,W,'H'); break; case 5: s=gen::control(t); break; default: w.u.L("vte_reset",{}); tsm_vte_reset(w.u.v); w.v->reset(); }
    if(t.chance(60)&&s.size()>1){ size_t k=1+t.u(s.size()-1); w.input(s.substr(0,k)); w.input(s.substr(k)); } else if(s.size()) w.input(s);
    for(auto&e:w.mev) if(e.kind=='o'){ got++; if(e.data.size()>=124) { special=true; c.label("at the limit"); } for(unsigned char q:e.data) if(q>=0x80){ special=true; c.label("multi-byte"); break; } if(e.data.empty()) c.label("empty"); }
    w.check(); }
  if(got>=2&&special) c.nontrivial(); }
