#include "keys.h"
const CheckInfo CHECK={"C01","histories mixing every kind of program output (valid, malformed and random bytes) with every public call (on some cases also from inside the notifications), at sizes from 1x1 up; AddressSanitizer and UBSan watch each step, live allocations are counted at the end, a CPU limit bounds each case, and cursor bounds, scrollback limit and the exact grid of a redraw are asserted after every step. Non-trivial: at least 10 operations of 4 or more kinds and the screen was resized or the view scrolled",52000,300000};
void run_case(Case&c){ Tape&t=c.t; long live0=vt_live; { Sut u(&c); u.logs=t.chance(100); if(u.logs) c.label("with log messages"); if(!u.create()) fail("creation failed"); int W,H; gen::dims(t,W,H); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(u,o); long sbmax=0; if(t.chance(150)){ o=Op(); o.k=Op::MAXSB; o.a=t.u(2*H+4); apply(u,o); sbmax=o.a; }
  std::set<int> kinds; int n=0; bool sp=false; unsigned mask=gen::M_ALL; if(t.chance(60)) mask&=~(gen::M_SHARD|gen::M_RESET); 
  // an application may call back into the library when it is notified
  int depth=0; if(t.chance(80)){ c.label("calls from notifications"); u.hook=[&](){ if(depth>=2||!t.chance(90)) return; depth++; Op p=gen::op(t,u.w(),u.h(),mask&~gen::M_RESET); if(p.k==Op::MAXSB) sbmax=p.a; c.mix(p.str()); c.log("from a notification:"); apply(u,p); depth--; }; }
  auto l=t.loop(4,c.thorough?80:45); while(t.more(l)){ Op p; if(t.chance(20)){ std::string s; int k=1+t.u(40); for(int i=0;i<k;i++) s+=(char)t.u(256); p=gen::input(s);} else p=gen::op(t,u.w(),u.h(),mask); c.mix(p.str()); kinds.insert(p.k); n++; if(p.k==Op::RESIZE||(p.k>=Op::SBUP&&p.k<=Op::PGDN)) sp=true; if(p.k==Op::MAXSB) sbmax=p.a; 
    apply(u,p); u.bounds(); if(u.sbcount()>sbmax) fail("scrollback holds %d lines, maximum %ld",u.sbcount(),sbmax); if(u.sbpos()>u.sbcount()) fail("scrollback position %d beyond its %d lines",u.sbpos(),u.sbcount());
    if(t.chance(6)) switch(t.u(4)){ case 0: tsm_vte_set_osc_cb(u.v,t.chance(128)?Sut::ocb:nullptr,&u); break; case 1: tsm_vte_set_mouse_cb(u.v,t.chance(128)?Sut::mcb:nullptr,&u); u.tm=0; u.tp=false; break; case 2: tsm_screen_ref(u.s); tsm_vte_ref(u.v); tsm_vte_unref(u.v); tsm_screen_unref(u.s); break; default: { Op q; q.k=Op::SCR; q.c=27; apply(u,q); } }
    if(t.chance(70)){ u.draw(); } if(t.chance(30)){ char*s=nullptr; int r=tsm_screen_selection_copy(u.s,&s); if(r>=0&&s){ if(strlen(s)>(size_t)r) fail("copied text of length %d has strlen %zu",r,strlen(s)); vt_free(s);} } u.ev.clear(); }
  u.draw(); if(n>=10&&kinds.size()>=4&&sp) c.nontrivial(); for(int k:kinds){ static const char*nm[]={"input","resize","max_sb","clear_sb","sb_up","sb_down","page_up","page_down","sb_reset","sel_start","sel_target","sel_reset","key","mouse","screen call","flags","def_attr","write","reset","hard reset","palette","custom palette","bs del","margins"}; c.label(nm[k]); } }
  if(vt_live!=live0) fail("%ld allocation(s) still live after everything was released",vt_live-live0); }
