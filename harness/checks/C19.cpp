#include "script.h"
const CheckInfo CHECK={"C19","a terminal with a random history saves its cursor, is disturbed by random output, resizes, modes, locking shifts and screen switches, and restores; position, wrap and origin modes and the attributes and character translation of the next printed characters must be those of a second terminal that stopped at the save. Also repeated restores and restores without a save. Non-trivial: the disturbance changed at least two of position, attributes, translation, wrap and origin",120000,500000};
struct Probe { int x,y; unsigned f; std::string er,gl,gr; };
static Probe probe(Sut&u,bool erase){ Probe p; p.x=u.cx(); p.y=u.cy(); p.f=tsm_vte_get_flags(u.v)&(TSM_VTE_FLAG_AUTO_WRAP_MODE|TSM_VTE_FLAG_ORIGIN_MODE); unsigned sf=tsm_screen_get_flags(u.s); if(sf&TSM_SCREEN_AUTO_WRAP) p.f|=1u<<30; if(sf&TSM_SCREEN_REL_ORIGIN) p.f|=1u<<29; 
  tsm_screen_set_flags(u.s,TSM_SCREEN_HIDE_CURSOR); tsm_screen_reset_flags(u.s,TSM_SCREEN_INVERSE); tsm_screen_sb_reset(u.s);
  auto put=[&](const char*s){ int x=u.cx(),y=u.cy(); apply(u,gen::input(s)); Pic q=u.draw(); if(x>=q.w||y>=q.h) return std::string("cursor outside"); const Cell&k=q.at(x,y); return fmt("U+%04X %s",k.ch,k.a.str().c_str()); };
  if(erase) p.er=put("\x1b[X"); p.gl=put("q"); apply(u,gen::input("\x1b[H")); unsigned vf=tsm_vte_get_flags(u.v); p.gr=vf&TSM_VTE_FLAG_7BIT_MODE?"":put(vf&TSM_VTE_FLAG_8BIT_MODE?"\xf1":"\xc3\xb1"); return p; }
static void compare(const Probe&a,const Probe&b,const char*when){ if(a.x!=b.x||a.y!=b.y) fail("%s the cursor is at column %d row %d, expected column %d row %d",when,a.x,a.y,b.x,b.y); if(a.f!=b.f) fail("%s wrap/origin modes are %#x, expected %#x",when,a.f,b.f); if(a.er!=b.er) fail("%s an erased cell is drawn as [%s], expected [%s]",when,a.er.c_str(),b.er.c_str()); if(a.gl!=b.gl) fail("%s the next character \"q\" is drawn as [%s], expected [%s]",when,a.gl.c_str(),b.gl.c_str()); if(a.gr!=b.gr) fail("%s the upper-half character is drawn as [%s], expected [%s]",when,a.gr.c_str(),b.gr.c_str()); }
static std::string shift(Tape&t){ return t.of(std::vector<std::string>{"\x0e","\x0f","\x1bn","\x1bo","\x1b~","\x1b}","\x1b|"}); }
static std::string desig(Tape&t){ return std::string("\x1b")+"()*+"[t.u(4)]+t.of(std::vector<char>{'B','0','<','0','<','A'}); }
static Op disturb1(Tape&t,Sut&a){ switch(t.weighted({50,14,10,10,8,8})){ case 0: return gen::op(t,a.w(),a.h(),gen::M_VIEW|gen::M_SCR|gen::M_SB|gen::M_ALT|gen::M_QUERY|gen::M_OSC); case 1: return gen::input(shift(t)); case 2: return gen::input(gen::sgr(t)); case 3: return gen::input(gen::modes(t,{4,20},{6,7,5,25,6,7})); case 4: return gen::input(gen::margins(t,a.h())); default: { Op o; o.k=Op::RESIZE; int W,H; gen::dims(t,W,H,300); if(t.chance(120)){ W=a.w(); H=a.h(); } o.a=W; o.b=H; return o; } } }
// outside of UTF-8 mode the bytes of other characters would spell single shifts and introducers
static Op disturb(Tape&t,Sut&a){ Op o=disturb1(t,a); if(tsm_vte_get_flags(a.v)&(TSM_VTE_FLAG_7BIT_MODE|TSM_VTE_FLAG_8BIT_MODE)){ std::string s; for(char ch:o.s) if(!(ch&0x80)) s+=ch; o.s=s; } return o; }
void run_case(Case&c){ Tape&t=c.t; Sut a(&c),b(&c); a.tag="disturbed: "; b.tag="reference: "; if(!a.create()||!b.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,300); bool er=true; auto both=[&](const Op&o){ if(o.k==Op::DEFATTR) er=false; c.mix(o.str()); apply(a,o); apply(b,o); }; { Op o; o.k=Op::RESIZE; o.a=W; o.b=H; both(o); o.k=Op::MAXSB; o.a=t.u(5); both(o); }
  bool nosave=t.chance(50); const unsigned HM=gen::M_VIEW|gen::M_SCR|gen::M_SB|gen::M_ALT|gen::M_QUERY|gen::M_OSC|gen::M_RESIZE; 
  if(!nosave){ auto l=t.loop(1,14); while(t.more(l)) switch(t.weighted({40,10,10,12,12})){ case 0: both(gen::op(t,a.w(),a.h(),HM|gen::M_SHARD|gen::M_SAVE|gen::M_WEIRD|gen::M_CHARSET)); break; case 1: both(gen::input(shift(t))); break; case 2: both(gen::input(desig(t))); break; case 3: both(gen::input(gen::sgr(t))); break; default: both(gen::input(gen::modes(t,{4},{6,7,6,7}))); }
    both(gen::input("\x18Z")); if(t.chance(200)) both(gen::input(t.chance(200)?gen::csi2(t,a.h(),a.w(),'H'):std::string(a.w(),'w'))); }
  auto l2=t.loop(0,14); int x0=a.cx(),y0=a.cy(); if(!nosave) apply(a,gen::input("\x1b""7"));
  auto before=[&](){ return fmt("%d,%d,%x",a.cx(),a.cy(),tsm_vte_get_flags(a.v)&(TSM_VTE_FLAG_AUTO_WRAP_MODE|TSM_VTE_FLAG_ORIGIN_MODE)); }; std::string s0=before(); bool attr=false,shifted=false;
  while(t.more(l2)){ Op o=disturb(t,a); c.mix(o.str()); if(o.k==Op::INPUT&&o.s.size()&&o.s.back()=='m') attr=true; if(o.k==Op::INPUT&&(o.s=="\x0e"||o.s=="\x1bn"||o.s=="\x1b~")) shifted=true; apply(a,o); }
  apply(a,gen::input("\x18")); std::string s1=before(); int moved=(s0.substr(0,s0.rfind(','))!=s1.substr(0,s1.rfind(',')))+(s0.substr(s0.rfind(','))!=s1.substr(s1.rfind(',')))+attr+shifted;
  W=a.w(); H=a.h(); apply(a,gen::input("\x1b""8")); 
  if(nosave){ c.label("without a save"); if(a.cx()||a.cy()) fail("restoring without a save leaves the cursor at column %d row %d",a.cx(),a.cy()); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(b,o); }
  else { int ex=std::min(x0,W-1),ey=std::min(y0,H-1); if(a.cx()!=ex||a.cy()!=ey) fail("restored cursor is at column %d row %d, saved at column %d row %d, size %dx%d",a.cx(),a.cy(),x0,y0,W,H);
    if(b.w()!=W||b.h()!=H||x0>=b.w()){ apply(b,gen::input("\x1b""7")); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(b,o); apply(b,gen::input("\x1b""8")); c.label("clamped"); } }
  Probe pa=probe(a,er),pb=probe(b,er); compare(pa,pb,"after restoring"); if(moved>=2) c.nontrivial();
  if(t.chance(100)){ auto l3=t.loop(0,6); while(t.more(l3)){ Op o=disturb(t,a); if(o.k==Op::RESIZE) continue; c.mix(o.str()); apply(a,o); } apply(a,gen::input("\x18\x1b""8")); Probe p2=probe(a,er); compare(p2,pa,"after restoring again"); c.label("restored twice"); } }
