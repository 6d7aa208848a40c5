// C39: one case as a transcript. Compiled twice: into the check (with libtsm's
// sources) and into the player (with the shared library of the project's build).
#pragma once
#include "script.h"
inline std::string play(Case&c){ Tape&t=c.t; std::string r; Sut u(&c); if(!u.create()) fail("creation failed"); u.hook=nullptr;
  auto snap=[&](){ SnapOpt so; so.ages=true; std::string x=snapshot(u,so); r+=x; u.ev.clear(); };
  int W,H; gen::dims(t,W,H,200); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; c.mix(o.str()); apply(u,o); o.k=Op::MAXSB; o.a=t.u(2*H+3); o.b=0; c.mix(o.str()); apply(u,o);
  int held=0; auto l=t.loop(3,c.thorough?60:30); while(t.more(l)){
    int k=t.weighted({180,6,5,5});
    if(k==1){ uint32_t g=t.chance(128)?(uint32_t)t.u(0x3000):(uint32_t)t.u(0x110100); char b[4]; size_t n=tsm_ucs4_to_utf8(g,b); c.mix(g); std::string s(b,std::min<size_t>(n,4)); r+=fmt("U+%x: %zu bytes \"%s\", width %u\n",g,n,esc(s).c_str(),tsm_ucs4_get_width(g)); continue; }
    if(k==2){ uint32_t g[3]; for(auto&x:g) x=t.u(0x3000); size_t n=0,m=1+t.u(3); char*p=tsm_ucs4_to_utf8_alloc(g,m,&n); r+= p? "utf8 \""+esc(std::string(p,n))+"\"\n":std::string("no utf8\n"); vt_free(p); c.mix(g[0]); continue; }
    if(k==3){ if(held&&t.chance(128)){ held--; tsm_vte_unref(u.v); tsm_screen_unref(u.s); } else { held++; tsm_vte_ref(u.v); tsm_screen_ref(u.s); } continue; }
    Op p=gen::op(t,u.w(),u.h(),gen::M_ALL); c.mix(p.str()); int q=apply(u,p); r+=fmt("%s = %d\n",p.str().c_str(),q); if(t.chance(80)) snap(); }
  while(held--){ tsm_vte_unref(u.v); tsm_screen_unref(u.s); }
  snap(); return r; }
