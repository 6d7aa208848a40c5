#include "ops.h"
#include "keys.h"
const CheckInfo CHECK={"C27","mode set and reset requests with one or many known, unknown, empty and overlong mode numbers, with and without the private marker, keypad selections, compatibility levels, C1 selections, cursor save/restore and resets, mixed with other output; reported terminal modes, mouse modes and screen flags after every request, and regularly the picture and cursor, are compared with the reference terminal. Non-trivial: at least 5 requests of which one named several modes, and at least 4 different reported states",80000,500000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_FLAGS|O_SFLAGS|O_MOUSE); int W,H; gen::dims(t,W,H,150); w.size(W,H); ops::ambient(w,ops::AMB_SEL); int req=0; bool multi=false; std::set<std::pair<unsigned,unsigned>> st; 
  auto l=t.loop(4,c.thorough?60:30); while(t.more(l)){ std::string s; switch(t.weighted({60,6,6,4,5,4,10,3,2})){
    case 0: { bool q=t.chance(180); s=q?"\x1b[?":"\x1b["; int n=t.chance(90)?2+(int)t.u(t.chance(60)?18:4):1; if(n>1) multi=true; for(int i=0;i<n;i++){ if(i) s+=";"; switch(t.weighted({50,6,3,2})){ case 0: s+=std::to_string(q?t.of(std::vector<int>{1,5,6,7,8,25,42,9,1002,1003,1006,1016,47,1047,1048,1049}):t.of(std::vector<int>{2,4,12,20})); break; case 1: s+=std::to_string(t.of(std::vector<int>{0,2,3,4,10,11,12,13,18,19,20,21,66,67,69,1000,1001,1005,1015,2004,24,26,41,43})); break; case 2: break; default: s+=t.of(std::vector<std::string>{"65536","99999","4294967297","00007","65543"}); } } s+=t.chance(140)?'h':'l'; req++; break; }
    case 1: s=t.of(std::vector<std::string>{"\x1b=","\x1b>"}); req++; break;
    case 2: s=t.of(std::vector<std::string>{"\x1b F","\x1b G"}); req++; break;
    case 3: s=t.of(std::vector<std::string>{"\x1b[61\"p","\x1b[62\"p","\x1b[62;1\"p","\x1b[63;0\"p","\x1b[64;2\"p","\x1b[60\"p","\x1b[65\"p","\x1b[\"p","\x1b[!p","\x1b""c","\x1b[>p"}); req++; break;
    case 4: s=gen::savres(t); break;
    case 5: s=t.of(std::vector<std::string>{"\x1b[>25h","\x1b[=7l","\x1b[25$h","\x1b[?25$p","\x1b[?7 l","\x1b[!h","\x1b[?7;","\x1b[1;?7h","\x1b[7?h","\x1b[?25s","\x1b[?25r","\x1b[4\x18h","\x1b[?2\x7f""5l"}); break;
    case 6: s=gen::soup(t,w.m.w,w.m.h,gen::M_QUERY|gen::M_ALT|gen::M_CHARSET); break;
    case 7: { int a,b; gen::dims(t,a,b,150); w.size(a,b); break; }
    default: if(t.chance(128)){ w.u.L("vte_reset",{}); tsm_vte_reset(w.u.v); w.v->reset(); } else { w.u.L("vte_hard_reset",{}); tsm_vte_hard_reset(w.u.v); w.v->hard_reset(); } }
    if(s.size()) w.input(s); w.check(); st.insert({w.v->flags,w.m.flags});
    // the behaviours the modes stand for
    if(t.chance(60)){ w.input(t.of(std::vector<std::string>{"ab","x\n","\x1b[Hy","\x1b[2;1Hz","abcdefghijklmnop\x08q"})); w.check(); if(w.u.cx()!=w.m.cx||w.u.cy()!=w.m.cy) fail("in modes %#x/%#x the cursor is at column %d row %d, expected column %d row %d",w.v->flags,w.m.flags,w.u.cx(),w.u.cy(),w.m.cx,w.m.cy); w.obs|=O_ATTRFREE; w.compare_pic(); w.obs&=~O_ATTRFREE; } }
  if(req>=5&&multi&&st.size()>=4) c.nontrivial(); }
