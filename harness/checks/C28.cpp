#include "script.h"
const CheckInfo CHECK={"C28","two terminals receive the same random history; between its steps one of them is drawn, copied from and queried at random, the other is not; return values, notifications and, at checkpoints, the complete observable state including cell ages of both must agree, and two redraws in a row must be identical. Non-trivial: at least 8 observations between at least 8 operations, among them a redraw and a copy",32000,220000};
static void look(Tape&t,Sut&a,bool&drew,bool&copied,int what=-1){ switch(what>=0?what:(int)t.u(6)){ case 0: { Pic p=a.draw(); drew=true; Pic q=a.draw(); if(p.ret!=q.ret) fail("two redraws in a row return ages %llu and %llu",(unsigned long long)p.ret,(unsigned long long)q.ret); for(size_t i=0;i<p.c.size();i++){ const Cell&x=p.c[i],&y=q.c[i]; if(x.id!=y.id||x.w!=y.w||x.a!=y.a||x.age!=y.age||x.sym!=y.sym) fail("two redraws in a row differ in cell (%d,%d): age %llu and %llu",(int)(i%p.w),(int)(i/p.w),(unsigned long long)x.age,(unsigned long long)y.age); } break; }
    case 1: a.draw(); drew=true; break;
    case 2: { char*s=nullptr; int n=tsm_screen_selection_copy(a.s,&s); if(n>=0&&s){ char*s2=nullptr; int n2=tsm_screen_selection_copy(a.s,&s2); std::string x(s,n), y(n2>=0&&s2?s2:"",n2>=0&&s2?n2:0); vt_free(s); if(n2>=0&&s2) vt_free(s2); if(n2!=n||x!=y) fail("two copies in a row differ: \"%s\" and \"%s\"",esc(x).c_str(),esc(y).c_str()); } copied=true; break; }
    case 3: a.w(); a.h(); a.cx(); a.cy(); tsm_screen_get_flags(a.s); a.sbcount(); a.sbpos(); break;
    case 4: { struct tsm_screen_attr x; tsm_vte_get_def_attr(a.v,&x); tsm_vte_get_flags(a.v); tsm_vte_get_mouse_mode(a.v); tsm_vte_get_mouse_event(a.v); break; }
    default: { tsm_screen_draw(a.s,[](struct tsm_screen*,uint64_t,const uint32_t*,size_t,unsigned,unsigned,unsigned y,const struct tsm_screen_attr*,tsm_age_t,void*d)->int{ return y&1?-5:0; },nullptr); drew=true; } } }
void run_case(Case&c){ Tape&t=c.t; Sut a(&c),b(&c); a.tag="observed: "; a.logs=t.chance(100); b.tag="unobserved: "; if(!a.create()||!b.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,300); auto both=[&](const Op&o){ c.mix(o.str()); int x=apply(a,o),y=apply(b,o); if(x!=y) fail("%s returned %d after observation, %d without",o.str().c_str(),x,y); }; { Op o; o.k=Op::RESIZE; o.a=W; o.b=H; both(o); o.k=Op::MAXSB; o.a=t.u(2*H+3); both(o); }
  int n=0,obs=0; bool drew=false,copied=false; SnapOpt so; so.ages=true; auto cmp=[&](){ std::string x=snapshot(a,so),y=snapshot(b,so); a.ev.clear(); b.ev.clear(); if(x!=y) fail("after observation versus without: %s",first_diff(x,y).c_str()); };
  auto l=t.loop(5,c.thorough?60:30); while(t.more(l)){
    if(t.chance(24)){ // a selection dragged over a scrolled-back view, looked at on the way
      c.label("drag"); Op o; if(t.chance(180)){ o.k=Op::SBUP; o.a=1+t.u(a.h()+2); both(o); } auto pt=[&](Op::K k){ Op q; q.k=k; q.a=t.u(a.w()+1); q.b=t.u(a.h()+(t.chance(30)?2:0)); both(q); }; pt(Op::SELSTART); int k=2+t.u(4); while(k--){ pt(Op::SELTARGET); if(t.chance(200)){ look(t,a,drew,copied,t.chance(150)?2:-1); obs++; } if(t.chance(30)) cmp(); } if(t.chance(200)) cmp(); }
    both(gen::op(t,a.w(),a.h(),gen::M_ALL)); n++; int k=t.u(3); while(k--){ look(t,a,drew,copied); obs++; } if(a.ev!=b.ev) fail("notifications differ"); if(t.chance(20)) cmp(); }
  cmp(); if(n>=8&&obs>=8&&drew&&copied) c.nontrivial(); }
