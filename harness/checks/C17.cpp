#include "ops.h"
#include "keys.h"
const CheckInfo CHECK={"C17","mixed program output with queries of every kind at random points, including between the pieces of other sequences and at the last column; what the terminal sends is compared with the reference terminal's replies, and an explicit cursor query is checked against the cursor the library itself reports. The application's calls (resize, view, selection, screen operations, palette) run in between and must never make the terminal send. Non-trivial: at least 3 queries and a cursor report away from home",105000,600000};
static std::string sent(std::vector<Ev>&v){ std::string o; for(auto&e:v) if(e.kind=='w') o+=e.data; v.clear(); return o; }
// cursor reports carry a position that other checks decide
static std::string norm(const std::string&s){ std::string o; for(size_t i=0;i<s.size();i++){ size_t j=i+2; if(s.compare(i,2,"\x1b[")==0){ while(j<s.size()&&(isdigit((unsigned char)s[j])||s[j]==';')) j++; if(j<s.size()&&s[j]=='R'){ o+="<CPR>"; i=j; continue; } } o+=s[i]; } return o; }
void run_case(Case&c){ Tape&t=c.t; World w(c,0); int W,H; gen::dims(t,W,H,200); bool big=t.chance(4); if(big){ W=95+t.u(40); H=95+t.u(40); c.label("large screen"); } w.size(W,H); ops::ambient(w,ops::AMB_SEL); int nq=0; bool away=false;
  if(t.chance(128)){ unsigned n=1+t.u(20); tsm_screen_set_max_sb(w.u.s,n); w.m.set_max_sb(n); std::string nl(1+t.u(H+8),'\n'); w.input(nl); w.u.ev.clear(); w.mev.clear(); if(t.chance(160)){ tsm_screen_sb_up(w.u.s,1+t.u(4)); c.label("scrolled back"); } }
  auto silent=[&](const char*what){ if(w.u.ev.size()) for(auto&e:w.u.ev) if(e.kind=='w') fail("%s made the terminal send \"%s\"",what,esc(e.data).c_str()); };
  auto l=t.loop(3,c.thorough?60:30); while(t.more(l)){ std::string s; switch(t.weighted({30,26,22,4,8})){
    case 0: s=gen::soup(t,w.u.w(),w.u.h(),gen::M_ALL&~gen::M_SHARD); if(t.chance(80)) s+=gen::soup(t,w.u.w(),w.u.h()); break;
    case 1: s=gen::query(t); nq++; break;
    case 2: { // a well-defined query: ends whatever is open, then asks
      if(big) w.input(fmt("\x18\x1b[%d;%dH",1+(int)t.u(w.u.h()),1+(int)t.u(w.u.w())));
      w.input("\x18"); if(w.v->flags&TSM_VTE_FLAG_7BIT_MODE||!(w.v->flags&TSM_VTE_FLAG_SEND_RECEIVE_MODE)) break; sent(w.u.ev); w.mev.clear(); static const struct { const char*q,*r; } Q[]={{"\x1b[c","\x1b[?60;1;6;9;15c"},{"\x1b[0c","\x1b[?60;1;6;9;15c"},{"\x1bZ","\x1b[?60;1;6;9;15c"},{"\x1b[>c","\x1b[>1;1;0c"},{"\x1b[5n","\x1b[0n"},{"\x05","\x06"},{"\x1b[6n",nullptr}}; int k=t.u(9); auto&q=Q[k>6?6:k]; int x=std::min(w.u.cx(),w.u.w()-1)+1,y=w.u.cy()+1; w.input(q.q); std::string want=q.r?q.r:fmt("\x1b[%d;%dR",y,x), got=sent(w.u.ev); w.mev.clear(); if(got!=want) fail("query \"%s\" was answered \"%s\", expected \"%s\"",esc(q.q).c_str(),esc(got).c_str(),esc(want).c_str()); nq++; if(!q.r&&x>1&&y>1) away=true; c.label(esc(q.q).c_str()); break; }
    case 3: { int a,b; gen::dims(t,a,b,200); w.size(a,b); silent("a resize"); break; }
    default: { Op o=gen::op(t,w.u.w(),w.u.h(),gen::M_VIEW|gen::M_SEL|gen::M_SB); if(o.k==Op::INPUT) break; c.mix(o.str()); apply(w.u,o); if(o.k==Op::MAXSB) w.m.set_max_sb(o.a); if(o.k==Op::CLEARSB) w.m.clear_sb(); silent(o.str().c_str()); } }
    if(s.size()){ w.input(s); w.u.bounds(); std::string a=norm(sent(w.u.ev)), b=norm(sent(w.mev)); if(a!=b) fail("sent \"%s\", expected \"%s\"",esc(a).c_str(),esc(b).c_str()); } }
  if(nq>=3&&away) c.nontrivial(); }
