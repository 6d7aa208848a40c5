#include "ops.h"
#include "script.h"
const CheckInfo CHECK={"C08","(a) two terminals share a random prefix; one then enters the alternate screen by a random variant, runs random output there (nested switches, scrolling, resets of modes, scrollback viewing) and leaves again; main cells, scrollback and, for the saving variants, the cursor must equal those of the terminal that never left. (b) the switching variants run against the reference terminal. Non-trivial: the alternate screen was drawn on or scrolled while the main screen held text",48000,300000};
static void twins(Case&c){ Tape&t=c.t; Sut a(&c),b(&c); a.tag="with alternate: "; b.tag="without: "; if(!a.create()||!b.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,400); int mx=t.u(2*H+2);
  for(Sut*u:{&a,&b}){ Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(*u,o); o.k=Op::MAXSB; o.a=mx; apply(*u,o); }
  const unsigned PM=gen::M_VIEW|gen::M_SCR|gen::M_SB|gen::M_QUERY|gen::M_OSC|gen::M_SAVE|gen::M_WEIRD|gen::M_CHARSET|gen::M_RESIZE|gen::M_PAL|gen::M_ALT;
  auto l=t.loop(1,14); while(t.more(l)){ Op o=gen::op(t,W,H,PM); c.mix(o.str()); apply(a,o); apply(b,o); W=a.w(); H=a.h(); }
  // leave the alternate screen and end any open sequence on both
  auto both=[&](const std::string&s){ Op o=gen::input(s); c.mix(s); apply(a,o); apply(b,o); };
  both("\x18\x1b[?1049l"); bool text=false; { Pic p=a.draw(); for(auto&k:p.c) if(k.ch&&k.ch!=' ') text=true; }
  int kind=t.u(3); const char*on[]={"\x1b[?47h","\x1b[?1047h","\x1b[?1049h"},*off[]={"\x1b[?47l","\x1b[?1047l","\x1b[?1049l"};
  bool sv=kind==2||t.chance(80); int x0=b.cx(),y0=b.cy(); std::string e=on[kind]; if(sv&&kind!=2) e="\x1b[?1048h"+e; apply(a,gen::input(e)); c.mix(e); c.label(on[kind]+2);
  bool drew=false; const unsigned XM=gen::M_VIEW|gen::M_SCR|gen::M_QUERY|gen::M_OSC|gen::M_SAVE|gen::M_WEIRD|gen::M_CHARSET;
  auto m=t.loop(1,20); while(t.more(m)){ if(t.chance(12)){ Op o; o.k=Op::RESIZE; o.a=W+=t.u(4); o.b=H+=t.u(4); c.mix(o.str()); apply(a,o); apply(b,o); c.label("grown on the alternate screen"); continue; }
    Op o=gen::op(t,W,H,XM); // weird input may spell anything, so it must not spell a switch, a save or a reset
    if(o.k==Op::SCR&&o.c==27) continue;
    if(o.k==Op::INPUT){ if(t.chance(30)) o.s=t.of(std::vector<std::string>{"\x1b[?47h","\x1b[?1047h","\x1b[?47h\x1b[2J"}); else { bool bad=false; const std::string&s=o.s; for(size_t i=0;i<s.size();i++) if(s[i]=='c'||s[i]=='p'||s[i]=='l') { for(size_t k=0;k<i;k++) if(s[k]=='\x1b'||s[k]=='\x9b') bad=true; } if(bad&&s.find("l")!=std::string::npos&&s.substr(0,2)=="\x1b["&&s.find("47")==std::string::npos&&s.find("104")==std::string::npos&&s.find_first_of("cp")==std::string::npos) bad=false; if(bad) continue; if(s.find_first_of("cpl")!=std::string::npos) o.s="\x18"+o.s; } }
    c.mix(o.str()); apply(a,o); drew=true; }
  // the interrupted sequence, if any, is cancelled; SUB would print
  std::string q="\x18"; if(t.chance(60)&&kind==1) q+="\x1b[2J"; q+=off[kind]; if(sv&&kind!=2) q+="\x1b[?1048l"; 
  if(!(tsm_screen_get_flags(a.s)&TSM_SCREEN_ALTERNATE)) fail("alternate screen was left by something else");
  apply(a,gen::input(q)); if(tsm_screen_get_flags(a.s)&TSM_SCREEN_ALTERNATE) fail("still on the alternate screen");
  if(sv){ int ex=std::min(x0,W-1); if(a.cx()!=ex||a.cy()!=y0) { fail("cursor is at column %d row %d after leaving, it was saved at column %d row %d",a.cx(),a.cy(),ex,y0);} }
  for(Sut*u:{&a,&b}){ tsm_screen_reset_flags(u->s,TSM_SCREEN_INVERSE); tsm_screen_set_flags(u->s,TSM_SCREEN_HIDE_CURSOR); }
  // padding of scrollback rows uses the current attributes, so make those equal
  struct tsm_screen_attr da=to_attr(A()); for(Sut*u:{&a,&b}) tsm_screen_set_def_attr(u->s,&da);
  if(a.sbcount()!=b.sbcount()) fail("scrollback holds %d lines, %d without the alternate screen",a.sbcount(),b.sbcount());
  for(int page=0;page<60;page++){ if(page==0) for(Sut*u:{&a,&b}) tsm_screen_sb_reset(u->s); else { if(a.sbpos()==0) break; for(Sut*u:{&a,&b}) tsm_screen_sb_page_up(u->s,1); }
    SnapOpt so; so.copy=so.ev=so.flags=so.sb=false; std::string x=snapshot(a,so),y=snapshot(b,so); x=x.substr(x.find('\n')); y=y.substr(y.find('\n')); if(x!=y) fail("main screen after leaving the alternate screen, %d page(s) up: %s",page,first_diff(x,y).c_str()); }
  if(text&&drew) c.nontrivial(); }
static void model(Case&c){ Tape&t=c.t; World w(c,O_CURSOR|O_PIC|O_SB|O_SFLAGS); int W,H; gen::dims(t,W,H,200); w.size(W,H); ops::ambient(w); w.max_sb(t.u(H+3)); bool sw=false,pr=false; w.check();
  auto l=t.loop(4,26); while(t.more(l)){ switch(t.weighted({14,10,4,4,2,2,1,2})){ case 0: w.input(gen::ascii(t,w.m.w+2)); pr=true; break;
      case 1: { std::string s=fmt("\x1b[?%d",t.of(std::vector<int>{47,1047,1048,1049})); if(t.chance(30)) s+=fmt(";%d",t.of(std::vector<int>{47,1047,1048,1049,1048})); s+=t.chance(140)?'h':'l'; w.input(s); c.label(s.c_str()+2); if(w.m.alt()) sw=true; break; }
      case 2: w.input(gen::move(t,w.m.w,w.m.h)); break; case 3: w.input(gen::sgr(t)); break; case 4: w.input(gen::edit(t,w.m.w,w.m.h)); break; case 5: w.input(gen::margins(t,w.m.h)+(t.chance(80)?"\x1b[?6h":"")); break; case 6: w.input("\x1b[?6l"); break; default: w.input("\n"); } w.check(); }
  if(sw&&pr) c.nontrivial(); }
void run_case(Case&c){ if(c.t.chance(100)) { c.label("reference"); model(c);} else { c.label("twins"); twins(c);} }
