#include "script.h"
#include "widget.h"
extern "C" uint32_t xkb_keysym_to_utf32(uint32_t);
const CheckInfo CHECK={"C37","histories of keys with all modifier states (also consumed and unrelated ones), pointer presses, drags (also outside of the widget), double clicks and releases, sizes, fonts, child output with titles and queries, ends and restarts of the child, on the example widget (a stand-in replaces the GTK base class, the pty is simulated, the main loop is real), next to a plain terminal that is driven with what these events stand for; screen, view, selection, bytes for the child, titles and requested redraws are compared after every event. Non-trivial: keys reached the child, the view moved and text was selected or the size changed",12000,120000};
enum { SHIFT=1,LOCK=2,CTRL=4,MOD1=8,MOD2=16,MOD4=64,MOD5=128,B1=256 };
struct Geo { int cw=0,ch=0; };
static std::map<std::string,Geo> geos;
static Geo geo(const std::string&desc){ auto f=geos.find(desc); if(f!=geos.end()) return f->second; Geo g; struct W*w=w_new(); w_set_str(w,"font",desc.c_str()); w_set_str(w,"anti-aliasing","gray"); if(w_fork(w)<=0) fail("the widget does not start its child"); struct WPty*p=w_pty(w); for(int d=1;d<80&&!(g.cw&&g.ch);d++){ w_configure(w,d,d); if(p->cols>=2&&!g.cw) g.cw=d/2; if(p->rows>=2&&!g.ch) g.ch=d/2; } if(!g.cw||!g.ch) fail("font %s: no cell size: %d,%d columns,rows fit in 79 pixels",desc.c_str(),p->cols,p->rows); w_free(w); w_ptys_clear(); return geos[desc]=g; }
static const std::vector<std::string> FONTS={"Monospace 7","Monospace 5","Monospace 11"};

void run_case(Case&c){ Tape&t=c.t; for(auto&f:FONTS) geo(f); std::string desc=FONTS[t.u(3)]; Geo g=geo(desc); long live=vt_live; struct W*w=w_new(); struct G{ struct W*w; ~G(){ if(w){ w_free(w); w_ptys_clear(); } } } guard{w};
  Sut sh(&c); if(!sh.create()) fail("no terminal"); Sut wi(&c); wi.s=w->screen; wi.v=w->vte; struct K{ Sut&u; ~K(){ u.s=nullptr; u.v=nullptr; } } keep{wi};
  auto log=[&](const std::string&s){ c.mix(s); c.log("%s",s.c_str()); };
  unsigned sb=t.chance(40)?2000:t.u(14); if(w_get_uint(w,"sb-size")!=2000) fail("the scrollback has %u lines by default",w_get_uint(w,"sb-size")); w_set_str(w,"font",desc.c_str()); w_set_str(w,"anti-aliasing","gray"); w_set_uint(w,"sb-size",sb); log(fmt("font %s, %u scrollback lines",desc.c_str(),sb)); tsm_screen_set_max_sb(sh.s,sb);
  int W=0,H=0; bool sized=false,face=false,run=false; int stops=0; std::string out; size_t titles=0,seen=0; int keys=0,views=0,sels=0,resizes=0; int sel=0; double sx=0,sy=0; unsigned st=0,now=1000; int pid=0,cols=1,rows=1;
  auto calc=[&](){ cols=face?std::max(1,W/g.cw):1; rows=face?std::max(1,H/g.ch):1; };
  // what the plain terminal reported since the last look goes to the child or makes a title
  std::vector<std::string> ti;
  auto drain=[&](){ for(;seen<sh.ev.size();seen++){ Ev&e=sh.ev[seen]; if(e.kind=='w'){ if(run) out+=e.data; } else if(e.kind=='o'&&e.data.size()>=2&&e.data[0]=='2'&&e.data[1]==';') ti.push_back(e.data.substr(2)); } sh.ev.clear(); seen=0; };
  SnapOpt so; so.ev=false; std::string last=snapshot(wi,so);
  long rd=w_redraws();
  auto check=[&](const char*what){ if(w_err) fail("%s: %s",what,w_errmsg); drain(); std::string a=snapshot(sh,so),b=snapshot(wi,so); if(a!=b) fail("%s: the plain terminal and the widget differ:\n      %s",what,first_diff(a,b).c_str()); 
    if(b!=last){ SnapOpt po; po.ev=po.flags=po.sb=po.copy=false; if(w_redraws()==rd){ /* only what is seen counts */ std::string x=last,y=b; auto cut=[](std::string&s){ size_t k=s.find("row 0:"); s=k==std::string::npos?"":s.substr(k); }; cut(x); cut(y); if(x!=y) fail("%s: the view changed without requesting a redraw:\n      %s",what,first_diff(x,y).c_str()); } } last=b; rd=w_redraws();
    struct WPty*p=w_pty(w); if(run){ std::string o(p->out?p->out:"",p->outn); if(o!=out) fail("%s: the child was sent \"%s\", expected \"%s\"",what,esc(o.substr(std::min(o.size(),out.size()>60?out.size()-60:0))).c_str(),esc(out.substr(out.size()>60?out.size()-60:0)).c_str()); if(!p->open||!p->bridged||p->refs!=1) fail("%s: the running child's pty is open %d, bridged %d, referenced %d times",what,p->open,p->bridged,p->refs); if(sized&&(p->cols!=cols||p->rows!=rows)) fail("%s: the child sees %dx%d cells, expected %dx%d (%dx%d pixels, cells of %dx%d)",what,p->cols,p->rows,cols,rows,W,H,g.cw,g.ch); }
    else if(p&&(p->refs>0||p->bridged)) fail("%s: the ended child's pty is still referenced (%d) or bridged (%d)",what,p->refs,p->bridged);
    char**tp; int n=w_titles(w,&tp); if((size_t)n!=ti.size()) fail("%s: %d titles announced, expected %zu",what,n,ti.size()); for(;titles<ti.size();titles++) if(ti[titles]!=tp[titles]) fail("%s: title \"%s\" announced, expected \"%s\"",what,esc(tp[titles]).c_str(),esc(ti[titles]).c_str());
    if(w_stops(w)!=stops) fail("%s: %d ends of the child announced, expected %d",what,w_stops(w),stops); };
  auto shresize=[&](){ if(tsm_screen_resize(sh.s,cols,rows)) fail("resize"); };
  auto dofork=[&](){ log("fork"); int r=w_fork(w); if(run){ if(r!=-114/*EALREADY*/) fail("a second child is started: %d",r); return; } if(r<=0) fail("the widget does not start its child: %d",r); pid=r; bool had=face; face=true; run=true; out.clear(); calc(); if(!had&&sized) shresize(); check("fork"); };
  auto conf=[&](int x,int y){ log(fmt("configure %dx%d (cells of %dx%d)",x,y,g.cw,g.ch)); W=x; H=y; sized=true; calc(); shresize(); w_configure(w,x,y); resizes++; check("configure"); unsigned need=(1u<<10)|(1u<<8)|(1u<<9)|(1u<<4); if((w_events()&need)!=need&&(w_events()&(need|0x4))!=need) fail("the widget asks for events %x only",w_events()); };
  auto feed=[&](const std::string&s){ log("child writes \""+esc(s)+"\""); if(!run) return; sh.input(s); w_feed(w,s.data(),s.size()); w_spin(w); check("output of the child"); if(w_pty(w)->undispatched) fail("an answer stays queued"); };
  auto cell=[&](double v,int d){ return v<0?0u:(unsigned)(v/d); };
  auto pixels=[&](int&x,int&y){ if(t.chance(40)){ x=1+t.u(3*g.cw); y=1+t.u(2*g.ch); } else { x=1+t.u(14*g.cw); y=1+t.u(6*g.ch); } if(t.chance(8)) x=1+t.u(900); };
  auto press_key=[&](unsigned kv,unsigned s,bool tr,unsigned cons,bool rel,bool idle=true){ log(fmt("%s key %x, state %x, consumed %x%s",rel?"release":"press",kv,s,cons,tr?"":", not in the key map")); long disp=run?w_pty(w)->dispatches:0; int r=w_key(w,kv,s,tr,kv,cons,rel),e=0; int p0=sh.sbpos();
    bool arrow=kv==0xff52||kv==0xff54||kv==0xff55||kv==0xff56; if(!rel){ if(tr&&arrow&&(s&~cons&(SHIFT|LOCK|CTRL|MOD1|MOD4))==SHIFT){ e=1; if(kv==0xff52) tsm_screen_sb_up(sh.s,1); else if(kv==0xff54) tsm_screen_sb_down(sh.s,1); else if(kv==0xff55) tsm_screen_sb_page_up(sh.s,1); else tsm_screen_sb_page_down(sh.s,1); if(sh.sbpos()!=p0) views++; }
      else { unsigned m=(s&SHIFT?TSM_SHIFT_MASK:0)|(s&LOCK?TSM_LOCK_MASK:0)|(s&CTRL?TSM_CONTROL_MASK:0)|(s&MOD1?TSM_ALT_MASK:0)|(s&MOD4?TSM_LOGO_MASK:0); uint32_t u=xkb_keysym_to_utf32(kv); e=tsm_vte_handle_keyboard(sh.v,kv,0,m,u?u:TSM_VTE_INVALID); if(e){ tsm_screen_sb_reset(sh.s); keys++; } } }
    if(!!r!=!!e) fail("key %x, state %x: the widget %s it",kv,s,r?"takes":"passes on"); if(run&&w_pty(w)->dispatches!=disp) fail("a key is written to the pty from inside of its event"); check("key"); if(!idle) return; w_spin(w); if(run&&w_pty(w)->undispatched) fail("what a key sends stays queued"); check("idle"); };
  { int x,y; pixels(x,y); switch(t.weighted({30,12,4})){ case 0: dofork(); conf(x,y); break; case 1: conf(x,y); dofork(); break; default: break; } }
  auto l=t.loop(5,c.thorough?90:50); const unsigned M=gen::M_ALL&~gen::M_PAL;
  while(t.more(l)) switch(t.weighted({46,40,24,26,10,4,5,3,3,4,10})){
    case 0: feed(gen::soup(t,cols,rows,M)); break;
    case 1: { // a key
      Op k=gen::keyop(t); unsigned s=0; if(t.chance(150)) for(int i=0;i<1+(int)t.u(3);i++) s|=t.of(std::vector<unsigned>{SHIFT,SHIFT,LOCK,CTRL,MOD1,MOD2,MOD4,MOD5,B1}); press_key(k.a,s,t.chance(220),t.chance(40)?SHIFT:0,t.chance(10)); break; }
    case 2: { // keys that move the view
      unsigned kv=t.of(std::vector<unsigned>{0xff52,0xff54,0xff55,0xff56}),s=SHIFT|(t.chance(60)?MOD2:0)|(t.chance(20)?MOD5:0),cons=0; int extra=t.weighted({70,8,8,8,8,10,6}); static const unsigned ex[]={0,LOCK,CTRL,MOD1,MOD4}; if(extra>=1&&extra<=4){ s|=ex[extra]; if(t.chance(100)) cons=ex[extra]; } if(extra==5) s&=~(unsigned)SHIFT; if(extra==6) cons=SHIFT; press_key(kv,s,!t.chance(10),cons,false); break; }
    case 3: { // the pointer
      auto pos=[&](double&x,double&y){ x=t.u(std::max(1,W)); y=t.u(std::max(1,H)); if(t.chance(60)) x+=t.u(4)*.25; }; double x,y; pos(x,y); int n=t.u(5); unsigned b=t.chance(20)?2+t.u(3):1; now+=200+t.u(500); int kind=t.weighted({60,10,6});
      auto press=[&](int ty){ log(fmt("%s of button %u at %g,%g",ty==1?"press":ty==2?"double click":"triple click",b,x,y)); w_button(w,ty,b,x,y,now); if(b==1&&face){ if(ty==1){ sel=1; st=now; sx=x; sy=y; } else { sel=2; tsm_screen_selection_start(sh.s,cell(x,g.cw),cell(y,g.ch)); } } check("button"); };
      press(1); for(int i=0;i<kind;i++){ now+=50; press(2+i); }
      while(n--){ if(t.chance(70)){ x+=t.range(-3,3); y+=t.range(-3,3); } else { pos(x,y); if(t.chance(40)) x=-1-(double)t.u(60); if(t.chance(40)) y=-1-(double)t.u(60); if(t.chance(20)) x=W+t.u(90); if(t.chance(20)) y=H+t.u(90); } log(fmt("pointer at %g,%g",x,y)); w_motion(w,x,y); if(sel==1&&face){ double dx=x-sx,dy=y-sy; if(dx<0) dx=-dx; if(dy<0) dy=-dy; if(dx>3||dy>3){ sel=2; tsm_screen_selection_start(sh.s,cell(sx,g.cw),cell(sy,g.ch)); sels++; } } else if(sel==2){ tsm_screen_selection_target(sh.s,cell(x,g.cw),cell(y,g.ch)); sels++; } check("pointer"); if(t.chance(16)) feed(gen::text(t,cols)); }
      if(t.chance(230)){ now+=t.chance(90)?t.u(60):150+t.u(400); log(fmt("release of button %u at %u ms",b,now)); w_button(w,0,b,x,y,now); if(b==1&&face){ if(sel==1&&now-st<100) tsm_screen_selection_reset(sh.s); sel=0; } check("release"); } break; }
    case 4: { int x,y; pixels(x,y); conf(x,y); break; }
    case 5: { desc=FONTS[t.u(3)]; g=geo(desc); log("font "+desc); w_set_str(w,"font",desc.c_str()); if(face){ calc(); if(sized) shresize(); } char*v=w_get_str(w,"font"); bool ok=v&&desc==v; free(v); if(!ok) fail("the font reads back differently"); check("font"); break; }
    case 6: { unsigned n=t.u(14); log(fmt("sb-size %u",n)); w_set_uint(w,"sb-size",n); tsm_screen_set_max_sb(sh.s,n); if(w_get_uint(w,"sb-size")!=n) fail("the scrollback size reads back as %u",w_get_uint(w,"sb-size")); check("scrollback size"); break; }
    case 7: { static const char*aa[]={"none","gray","subpixel","default","x"},*su[]={"rgb","bgr","vrgb","vbgr","default","x"}; bool a=t.u(2); int i=t.u(a?5:6); const char*pn=a?"anti-aliasing":"subpixel-order",*pv=a?aa[i]:su[i]; log(fmt("%s = %s",pn,pv)); w_set_str(w,pn,pv); char*v=w_get_str(w,pn); std::string got=v?v:"(none)",want=*pv=='x'?"default":pv; free(v); if(got!=want) fail("%s %s reads back as %s",pn,pv,got.c_str()); w_set_str(w,"anti-aliasing","gray"); check(pn); break; }
    case 8: { if(!run||t.chance(100)){ dofork(); break; } if(t.chance(110)){ log("with a key on its way"); press_key('a'+t.u(26),0,true,0,false,false); } log("the child ends"); w_child_exit(w); run=false; stops++; check("end of the child"); if(t.chance(60)){ feed("x"); Op k=gen::keyop(t); (void)k; } break; }
    case 9: { int sg=(int)t.u(4)-1; log(fmt("kill %d",sg)); if(run) w_pty(w)->lastsig=0; w_kill(w,sg); if(run&&w_pty(w)->lastsig!=std::max(0,sg)) fail("signal %d reaches the child as %d",sg,w_pty(w)->lastsig); check("kill"); break; }
    default: { std::string s; int k=t.u(6); std::string x; int n=t.chance(20)?5000:t.u(20); for(int i=0;i<n;i++) x+=(char)('!'+t.u(90)); if(k<3) s="\x1b]2;"+x+(t.u(2)?"\a":"\x1b\\"); else if(k==3) s="\x1b]"+t.of(std::vector<std::string>{"0;","1;","22;","2","","2:",";2;","12;"})+x+"\a"; else if(k==4) s="\x1b[c"+x+"\x1b[6n\x1b[5n"; else for(int i=0;i<n;i++) s+=fmt("%d\r\n",i); feed(s); } }
  if(keys&&views&&(sels||resizes>1)) c.nontrivial(); if(keys) c.label("keys"); if(views) c.label("view moved"); if(sels) c.label("selection by pointer"); if(resizes>1) c.label("resized"); if(stops) c.label("child ended"); if(ti.size()) c.label("titles");
  w_spin(w); guard.w=nullptr; bool left=t.chance(60)&&run; if(left) w_key(w,'x',0,0,0,0,0); /* with an answer still queued */ wi.s=nullptr; wi.v=nullptr; w_free(w); if(w_alive(w)) fail("the widget survives its last reference"); w_spin(w); if(w_err) fail("at the end: %s",w_errmsg); if(w_ptys_left()) fail("the widget leaves its pty behind"); w_ptys_clear(); sh.destroy(); if(vt_live!=live) fail("%ld allocation(s) left behind",vt_live-live); }
