#include "ops.h"
#include "keys.h"
const CheckInfo CHECK={"C16","mouse events (every button, modifier set and event kind, cell and pixel coordinates from 0 past the legacy limits, many of them repeated) interleaved with tracking and encoding switches, resets and other output; the bytes sent, the return value and the tracking notifications given to the application are compared with an independent encoder. Non-trivial: at least 3 events were reported and at least one was suppressed, under two tracking configurations",80000,600000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_EV|O_MOUSE); int W,H; gen::dims(t,W,H,200); w.size(W,H); ops::ambient(w,ops::AMB_SEL); RefMouse r; int rep=0,sup=0; std::set<int> conf; unsigned x=0,y=0,px=0,py=0; 
  auto l=t.loop(3,c.thorough?70:36); while(t.more(l)){ int mode=w.v->mmode,ev=w.v->mevent; std::string s; switch(t.weighted({70,26,2,2,3,1})){
    case 0: { switch(t.weighted({10,20,6,4,2})){ case 0: break; case 1: x=t.u(w.m.w); y=t.u(w.m.h); break; case 2: x+=t.u(2); y+=t.u(2); break; case 3: x=t.of(std::vector<unsigned>{0,90,94,95,200,221,222,223,254,255,256,300,1000}); y=t.of(std::vector<unsigned>{0,1,94,95,200,221,222,223,254,255,256,300,1000}); break; default: x=t.u(1u<<16); y=t.u(1u<<16); }
        if(t.chance(200)){ px=x*8+t.u(8); py=y*16+t.u(16); } unsigned b=t.of(std::vector<unsigned>{0,1,2,4,5}), e=t.of(std::vector<unsigned>{TSM_MOUSE_EVENT_PRESSED,TSM_MOUSE_EVENT_RELEASED,TSM_MOUSE_EVENT_MOVED,TSM_MOUSE_EVENT_MOVED}), m=t.chance(90)?4*t.u(8):0;
        std::string want; bool either; bool rr=r.event(mode,ev,x,y,px,py,b,e,m,want,either); w.u.L("mouse",{(long)x,(long)y,(long)px,(long)py,(long)b,(long)e,(long)m}); size_t n0=w.u.ev.size(); bool got=tsm_vte_handle_mouse(w.u.v,x,y,px,py,b,e,m);
        if(either){ rr=got; if(!got) want=""; }
        if(got!=rr) fail("mouse event at (%u,%u) button %u event %u in mode %d/%d was %s",x,y,b,e,mode,ev,got?"reported":"not reported"); if(rr){ w.v->out(want); rep++; conf.insert(mode*10000+ev); } else sup++; 
        std::string sent,exp; for(auto&q:w.u.ev) if(q.kind=='w') sent+=q.data; for(auto&q:w.mev) if(q.kind=='w') exp+=q.data; if(sent!=exp) fail("mouse event at cell (%u,%u) pixel (%u,%u) button %u event %u modifiers %u in mode %d/%d sent \"%s\", expected \"%s\"",x,y,px,py,b,e,m,mode,ev,esc(sent).c_str(),esc(exp).c_str()); break; }
    case 1: if(t.chance(140)) s=t.of(std::vector<std::string>{"\x1b[?1003;1006h","\x1b[?1003;1016h","\x1b[?1002;1006h","\x1b[?1002;1016h","\x1b[?9h","\x1b[?9l","\x1b[?9l\x1b[?1003h\x1b[?1006h","\x1b[?1003l","\x1b[?1006l"}); else s=gen::modes(t,{},{9,1002,1003,1003,1006,1006,1016,1002,25,1000,1001}); break;
    case 2: s=t.of(std::vector<std::string>{"\x1b[!p","\x1b""c","\x1b[61\"p","\x1b[62\"p"}); break;
    case 3: s=t.of(std::vector<std::string>{"\x1b[12l","\x1b[12h"}); break;
    case 4: s=gen::soup(t,W,H,0); break;
    default: w.u.L("hard_reset",{}); tsm_vte_hard_reset(w.u.v); w.v->hard_reset(); r=RefMouse(); }
    if(s.size()) w.input(s);
    // whether a repeated cell is remembered across a switch is left open
    if(w.v->mmode!=mode||w.v->mevent!=ev) r.uncertain=true;
    w.check(); int m=0,p=0; if(w.v->mmode==9) m=1002; else if((w.v->mmode==1006||w.v->mmode==1016)&&w.v->mevent){ m=w.v->mevent; p=w.v->mmode==1016; } if(w.u.tm!=m||w.u.tp!=(p!=0)) fail("the application was last told tracking %d (%s) but the terminal reports per %d (%s)",w.u.tm,w.u.tp?"pixels":"cells",m,p?"pixels":"cells"); }
  if(rep>=3&&sup>=1&&conf.size()>=2) c.nontrivial(); for(int k:conf) c.label(fmt("reported in %d/%d",k/10000,k%10000).c_str()); }
