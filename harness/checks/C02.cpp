#include "script.h"
const CheckInfo CHECK={"C02","a byte stream of mixed program output is fed to one terminal in single calls and to a second one cut at random points (including every byte and empty calls); after every stream the complete observable state, the replies and the notifications are compared. Resizes, key presses and view changes happen between streams on both. Non-trivial: a cut fell inside an escape sequence, string or multi-byte character",48000,260000};
void run_case(Case&c){ Tape&t=c.t; Sut a(&c),b(&c); a.tag="whole: "; b.tag="cut: "; if(!a.create()||!b.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,500); for(Sut*u:{&a,&b}){ tsm_screen_resize(u->s,W,H); tsm_screen_set_max_sb(u->s,10); }
  bool inside=false; auto l=t.loop(1,c.thorough?12:7); while(t.more(l)){
    if(t.chance(40)){ Op o=gen::op(t,a.w(),a.h(),gen::M_RESIZE|gen::M_VIEW|gen::M_KEY|gen::M_SB|gen::M_RESET|gen::M_SEL); c.mix(o.str()); int x=apply(a,o),y=apply(b,o); if(x!=y) fail("%s returned %d and %d",o.str().c_str(),x,y); }
    std::string s; auto m=t.loop(1,8); while(t.more(m)) s+=gen::soup(t,a.w(),a.h()); if(t.chance(1)&&t.chance(80)&&s.size()){ size_t n=66000/s.size(); std::string one=s; while(n--) s+=one; c.label("very long input"); } else if(t.chance(5)&&s.size()){ size_t n=(size_t[]){260,520,1030,2060,4100,8200}[t.u(6)]; std::string one=s; while(s.size()<n) s+=one; s.resize(n-t.u(8)); c.label("long input"); } a.input(s);
    int style=t.u(3); size_t i=0; while(i<s.size()){ size_t n= style==0?1: style==1? 1+t.u(4): 1+t.u(s.size()-i); if(i+n>s.size()) n=s.size()-i; if(i>0){ unsigned char q=s[i]; if((q&0xc0)==0x80) { inside=true; c.label("cut inside a character"); } size_t k=i; for(int z=0;z<6&&k>0;z++){ k--; if(s[k]=='\x1b'){ inside=true; c.label("cut near an introducer"); break; } } } b.input(s.substr(i,n)); if(t.chance(12)) b.input(""); i+=n; }
    std::string x=snapshot(a),y=snapshot(b); a.ev.clear(); b.ev.clear(); if(x!=y) fail("fed whole versus in pieces: %s",first_diff(x,y).c_str()); }
  if(inside) c.nontrivial(); }
