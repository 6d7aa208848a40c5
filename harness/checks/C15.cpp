#include "ops.h"
#include "keys.h"
const CheckInfo CHECK={"C15","key presses (every keysym block, all modifier sets, with and without characters) interleaved with mode switches, compatibility levels, resets, queries and text; the bytes sent, the handled flag and, with local echo, the resulting screen are compared with an independent key table and the reference terminal. Non-trivial: at least 4 handled keys, two encoding modes were active during presses and at least one key had a modifier",80000,600000};
static void press(World&w,const Op&o,bool&hit){ w.c.mix(o.str()); KeyEnc k=ref_key(w.v->flags,w.v->bsdel,o.a,o.b,o.c,o.d); unsigned f0=w.v->flags; if(w.c.verbose) w.c.log("key keysym=%#lx ascii=%#lx mods=%lx unicode=%#lx -> %s \"%s\"",o.a,o.b,o.c,o.d,k.handled?"handled":"unhandled",esc(k.bytes).c_str());
  bool got=tsm_vte_handle_keyboard(w.u.v,o.a,o.b,o.c,o.d); if(got!=k.handled) fail("key keysym=%#lx ascii=%#lx mods=%lx unicode=%#lx in modes %#x is reported %s",o.a,o.b,o.c,o.d,f0,got?"handled":"unhandled"); if(k.handled) w.v->out(k.bytes); hit=k.handled; 
  size_t n=w.u.ev.size(); std::string sent; for(auto&e:w.u.ev) if(e.kind=='w') sent+=e.data; std::string want; for(auto&e:w.mev) if(e.kind=='w') want+=e.data; if(sent!=want) fail("key keysym=%#lx ascii=%#lx mods=%lx unicode=%#lx in modes %#x sent \"%s\", expected \"%s\"",o.a,o.b,o.c,o.d,f0,esc(sent).c_str(),esc(want).c_str()); }
void run_case(Case&c){ Tape&t=c.t; World w(c,O_EV|O_FLAGS); int W,H; gen::dims(t,W,H,200); w.size(W,H); ops::ambient(w,ops::AMB_SEL); int keys=0; std::set<unsigned> modes; bool mod=false;
  auto l=t.loop(3,c.thorough?60:30); while(t.more(l)){ std::string s; switch(t.weighted({60,14,4,3,3,3,2,2,3,4})){
    case 0: { Op o=gen::keyop(t); bool hit; unsigned f=w.v->flags; press(w,o,hit); if(hit){ keys++; if(o.c) mod=true; modes.insert(f); } if(!(f&TSM_VTE_FLAG_SEND_RECEIVE_MODE)){ c.label("local echo"); w.compare_pic("with local echo: "); if(w.u.cx()!=w.m.cx||w.u.cy()!=w.m.cy) fail("with local echo: cursor is at column %d row %d, expected column %d row %d",w.u.cx(),w.u.cy(),w.m.cx,w.m.cy); } break; }
    case 1: s=gen::modes(t,{2,4,12,20,20,12},{1,1,5,6,7,8,9,42}); break;
    case 2: s=t.of(std::vector<std::string>{"\x1b=","\x1b>"}); break;
    case 3: s=t.of(std::vector<std::string>{"\x1b[61\"p","\x1b[62\"p","\x1b[63;1\"p","\x1b[62;0\"p","\x1b[64;2\"p"}); break;
    case 4: s=t.of(std::vector<std::string>{"\x1b[!p","\x1b""c","\x1b[60\"p","\x1b[65\"p"}); break;
    case 5: s=gen::query(t); break;
    case 6: s=t.of(std::vector<std::string>{"\x1b F","\x1b G","\x1b""7","\x1b""8","\x1b(0","\x0e"}); break;
    case 7: s=gen::ascii(t,5); break;
    case 8: { bool d=t.u(2); w.u.L("set_backspace_sends_delete",{d}); tsm_vte_set_backspace_sends_delete(w.u.v,d); w.v->bsdel=d; break; }
    default: if(t.chance(60)){ w.u.L("vte_reset",{}); tsm_vte_reset(w.u.v); w.v->reset(); } else s=gen::control(t); }
    if(s.size()) w.input(s); w.check(); }
  if(keys>=4&&modes.size()>=2&&mod) c.nontrivial(); if(modes.size()>4) c.label("more than 4 modes"); }
