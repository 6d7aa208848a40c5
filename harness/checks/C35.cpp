#include "script.h"
const CheckInfo CHECK={"C35","random histories of every kind of operation, rich in malformed and unsupported sequences, odd keys and renderers that fail, on two terminals of which one has a log receiver that formats every message (and, on some cases, only its screen or only its terminal has one); after every few operations everything observable, including ages and return values, must be equal, and every message must name its origin and format within bounds. Non-trivial: at least 5 messages were logged",32000,200000};
static int badcb(struct tsm_screen*,uint64_t,const uint32_t*,size_t,unsigned,unsigned x,unsigned y,const struct tsm_screen_attr*,tsm_age_t,void*d){ (*(long*)d)++; return (x+y)%3?-1:0; }
static long nlog; static std::string lerr;
static void lcb(void*d,const char*file,int line,const char*func,const char*subs,unsigned sev,const char*format,va_list args){ nlog++; char buf[400]; int n=vsnprintf(buf,sizeof buf,format,args); if(d!=(void*)&nlog) lerr="message with foreign data"; else if(!file||!*file||line<=0||!func||!*func||!subs||!*subs) lerr="message without origin"; else if(sev>7) lerr=fmt("message of severity %u",sev); else if(n<=0||n>=(int)sizeof buf) lerr=fmt("message of %d bytes",n); else if(strchr(buf,'\n')) lerr="message with a line break"; }
void run_case(Case&c){ Tape&t=c.t; nlog=0; lerr=""; Sut a(&c),b(&c); a.tag="A: "; b.tag="B: "; int which=t.weighted({60,20,20}); 
  if(tsm_screen_new(&a.s,which!=1?lcb:nullptr,&nlog)) fail("creation failed"); if(tsm_vte_new(&a.v,a.s,Sut::wcb,&a,which!=2?lcb:nullptr,&nlog)) fail("creation failed"); tsm_vte_set_osc_cb(a.v,Sut::ocb,&a); tsm_vte_set_mouse_cb(a.v,Sut::mcb,&a); if(!b.create()) fail("creation failed");
  int W,H; gen::dims(t,W,H,200); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; c.mix(o.str()); apply(a,o); apply(b,o); o.k=Op::MAXSB; o.a=t.u(2*H+3); o.b=0; c.mix(o.str()); apply(a,o); apply(b,o);
  auto same=[&](){ SnapOpt so; so.ages=true; std::string x=snapshot(a,so),y=snapshot(b,so); if(x!=y) fail("with and without a log receiver: %s",first_diff(x,y).c_str()); a.ev.clear(); b.ev.clear(); if(lerr.size()) fail("%s",lerr.c_str()); };
  auto l=t.loop(3,c.thorough?70:36); while(t.more(l)){ Op p;
    if(t.chance(24)){ long x=0,y=0; c.log("draw with a failing renderer"); c.mix(1); auto r=tsm_screen_draw(a.s,badcb,&x),q=tsm_screen_draw(b.s,badcb,&y); if(r!=q||x!=y) fail("redraw of %ld cells returned %llu, without log receiver %ld and %llu",x,(unsigned long long)r,y,(unsigned long long)q); continue; }
    if(t.chance(100)) switch(t.u(6)){ case 0: case 1: p=gen::input(gen::weird(t)); break; case 2: p=gen::input(fmt("\x1b[%s%d%c",t.chance(90)?"?":"",(int)t.u(2100),"hlJKgncmp"[t.u(9)])); break; case 3: p=gen::input(fmt("\x1b[%d;%d;%d;%d;%dm",t.chance(128)?38:48,(int)t.of(std::vector<int>{5,2,0,7}),(int)t.u(300),(int)t.u(300),(int)t.u(300))); break; case 4: p=gen::input(t.of(std::vector<std::string>{"\x1b[38m","\x1b[38;5m","\x1b[48;2;1;2m","\x1b[38;9;1m","\x01\x02\x10","\xc2\x80\xc2\x81","\x1b%@","\x1b#3","\x1b[61\"p","\x1b[62\"p","\x1b[60\"p"})); break; default: p=gen::input(gen::badutf8(t)); }
    else p=gen::op(t,a.w(),a.h(),gen::M_ALL);
    c.mix(p.str()); int r=apply(a,p),q=apply(b,p); if(r!=q) fail("%s returned %d and %d",p.str().c_str(),r,q); if(t.chance(100)) same(); }
  same(); if(nlog>=5) c.nontrivial(); if(nlog>30) c.label("many messages"); }
