#include "script.h"
const CheckInfo CHECK={"C12","histories of every kind of operation with redraws at random moments; a renderer that repaints only cells reported with age zero or newer than the previous redraw's returned age must hold the same picture as one that repaints everything. The library is built with an 8-bit age type so that the counter overflows within a case (the code is the same for any width). Non-trivial: at least 4 redraws, one of which skipped cells and one repainted some",48000,300000};
// what ends up on the display
static bool same(const Cell&a,const Cell&b){ return a.id==b.id&&a.w==b.w&&a.a==b.a&&a.sym==b.sym; }
void run_case(Case&c){ Tape&t=c.t; Sut u(&c); if(!u.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,300); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(u,o); o.k=Op::MAXSB; o.a=t.u(2*H+4); apply(u,o);
  Pic shown; uint64_t last=0; int draws=0; bool skipped=false,partial=false,over=false; bool lots=t.chance(90); // many operations between redraws reach the overflow
  auto redraw=[&](){ Pic p=u.draw(); draws++; long painted=0; Pic now; now.w=p.w; now.h=p.h; now.c.resize(p.c.size());
    for(int y=0;y<p.h;y++) for(int x=0;x<p.w;x++){ const Cell&k=p.at(x,y); bool paint=k.age==0||k.age>last; Cell&d=now.c[y*p.w+x]; if(paint){ d=k; painted++; } else if(x<shown.w&&y<shown.h) d=shown.at(x,y); else fail("new cell (%d,%d) was never painted: reported age %llu, previous redraw returned %llu",x,y,(unsigned long long)k.age,(unsigned long long)last);
      if(!same(d,k)) fail("redraw %d: cell (%d,%d) has changed to [%s] but its reported age is %llu, the previous redraw returned %llu; the display still shows [%s]",draws,x,y,fmt("U+%04X w=%d %s",k.ch,k.w,k.a.str().c_str()).c_str(),(unsigned long long)k.age,(unsigned long long)last,fmt("U+%04X w=%d %s",d.ch,d.w,d.a.str().c_str()).c_str()); }
    if(p.ret==0){ over=true; c.label("age overflow"); for(auto&k:p.c) if(k.age!=0) fail("redraw returned age 0 but reports a cell with age %llu",(unsigned long long)k.age); }
    if(painted<(long)p.c.size()) skipped=true; if(painted>0&&painted<(long)p.c.size()) partial=true; shown=now; last=p.ret; };
  redraw(); auto l=t.loop(4,c.thorough?70:40); while(t.more(l)){ 
    if(t.chance(16)){ Op p; p.k=Op::SFLAG; p.a=TSM_SCREEN_INVERSE; if(t.chance(128)) p.a|=t.u(128); p.b=t.chance(128); c.mix(p.str()); apply(u,p); c.label("inverse screen by call"); }
    else if(lots&&t.chance(40)){ std::string s; int n=t.of(std::vector<int>{10,40,100,200,250,253,254,255,256,257,260,300,500,510}); int k=t.u(3); Op p; if(k==0){ p=gen::input(std::string(n,'\r')); } else if(k==1){ p=gen::input(std::string(n,'a'+t.u(26))); } else { for(int i=0;i<n;i++){ p=Op(); p.k=Op::SFLAG; p.a=4; p.b=i&1; apply(u,p);} c.mix(n); p=gen::input(""); } c.mix(p.str()); apply(u,p); }
    else { Op p=gen::op(t,u.w(),u.h(),gen::M_ALL); c.mix(p.str()); apply(u,p); }
    if(t.chance(lots?70:140)) redraw(); u.ev.clear(); }
  redraw(); if(draws>=4&&skipped&&partial) c.nontrivial(); if(over) c.label("overflow"); }
