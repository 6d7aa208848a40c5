#include "script.h"
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
extern "C" { struct shl_pty; typedef void (*shl_pty_input_fn)(struct shl_pty*,void*,char*,size_t);
pid_t shl_pty_open(struct shl_pty**,shl_pty_input_fn,void*,unsigned short,unsigned short); void shl_pty_ref(struct shl_pty*); void shl_pty_unref(struct shl_pty*); void shl_pty_close(struct shl_pty*); bool shl_pty_is_open(struct shl_pty*); int shl_pty_get_fd(struct shl_pty*); pid_t shl_pty_get_child(struct shl_pty*); int shl_pty_dispatch(struct shl_pty*); int shl_pty_write(struct shl_pty*,const char*,size_t); int shl_pty_signal(struct shl_pty*,int); int shl_pty_resize(struct shl_pty*,unsigned short,unsigned short); int shl_pty_bridge_new(void); void shl_pty_bridge_free(int); int shl_pty_bridge_add(int,struct shl_pty*); void shl_pty_bridge_remove(int,struct shl_pty*); int shl_pty_bridge_dispatch_pty(int,struct shl_pty*); int shl_pty_bridge_dispatch(int,int);
void tsm_vte_set_backspace_sends_delete(struct tsm_vte*,bool); }
const CheckInfo CHECK={"C30","up to three screens and five terminals (several may share a screen) are created, referenced, dropped and used in any order; objects are used after every step through whatever references remain (a dropped screen through a terminal that still holds it), each group of a screen and its terminals must give back exactly what it allocated when the last reference to any of them goes and nothing before; in between functions are called without an object. Pseudo-terminals in the same way, with unwritten output, closed early and on a bridge; their descriptors must live exactly as long. Non-trivial: a screen was dropped before one of its terminals or an object outlived a dropped reference",120000,600000};
struct Scr { struct tsm_screen*p; int refs; int vts=0; long mem=0; int id; };
struct Vt { struct tsm_vte*p; int refs; Scr*s; std::string out; int id; };
static void wcb(struct tsm_vte*v,const char*u,size_t n,void*d){ Vt*x=(Vt*)d; if(x->p&&x->p!=v) fail("terminal %d: write callback with a foreign terminal",x->id); x->out.append(u,n); }
static int dcb(struct tsm_screen*con,uint64_t id,const uint32_t*ch,size_t len,unsigned w,unsigned x,unsigned y,const struct tsm_screen_attr*a,tsm_age_t age,void*data){ auto*r=(std::string*)data; if(y==0) *r+=len?(char)ch[0]:' '; return 0; }
static std::string row0(struct tsm_screen*s){ std::string r; tsm_screen_draw(s,dcb,&r); while(r.size()&&r.back()==' ') r.pop_back(); return r; }
static void nothing(Tape&t,Case&c){ struct tsm_screen_attr at; memset(&at,7,sizeof at); struct tsm_screen_attr at0=at; char*o=(char*)1; uint8_t pal[18][3]={}; struct tsm_vte*nv=nullptr; int k=t.u(58); c.label("without an object"); c.mix(k); c.log("call %d without an object",k);
#define Z(n,e) case n: if((e)!=0) fail("call without an object: " #e " is not 0"); break;
#define N(n,e) case n: if((e)>=0) fail("call without an object: " #e " reports no error"); break;
#define V(n,e) case n: e; break;
  switch(k){ N(0,tsm_screen_new(nullptr,nullptr,nullptr)) V(1,tsm_screen_ref(nullptr)) V(2,tsm_screen_unref(nullptr)) Z(3,tsm_screen_get_width(nullptr)) Z(4,tsm_screen_get_height(nullptr)) N(5,tsm_screen_resize(nullptr,3,4)) N(6,tsm_screen_set_margins(nullptr,1,2)) V(7,tsm_screen_set_max_sb(nullptr,4)) V(8,tsm_screen_clear_sb(nullptr)) V(9,tsm_screen_sb_up(nullptr,1)) V(10,tsm_screen_sb_down(nullptr,1)) V(11,tsm_screen_sb_page_up(nullptr,1)) V(12,tsm_screen_sb_page_down(nullptr,1)) V(13,tsm_screen_sb_reset(nullptr)) Z(14,tsm_screen_sb_get_line_count(nullptr)) Z(15,tsm_screen_sb_get_line_pos(nullptr))
   V(16,tsm_screen_set_def_attr(nullptr,&at)) V(17,tsm_screen_reset(nullptr)) V(18,tsm_screen_set_flags(nullptr,63)) V(19,tsm_screen_reset_flags(nullptr,63)) Z(20,tsm_screen_get_flags(nullptr)) Z(21,tsm_screen_get_cursor_x(nullptr)) Z(22,tsm_screen_get_cursor_y(nullptr)) V(23,tsm_screen_set_tabstop(nullptr)) V(24,tsm_screen_reset_tabstop(nullptr)) V(25,tsm_screen_reset_all_tabstops(nullptr)) V(26,tsm_screen_write(nullptr,'a',&at)) V(27,tsm_screen_newline(nullptr)) V(28,tsm_screen_scroll_up(nullptr,1)) V(29,tsm_screen_scroll_down(nullptr,1)) V(30,tsm_screen_move_to(nullptr,1,1)) V(31,(tsm_screen_move_up(nullptr,1,true),tsm_screen_move_down(nullptr,1,true))) V(32,(tsm_screen_move_left(nullptr,1),tsm_screen_move_right(nullptr,1))) V(33,(tsm_screen_move_line_end(nullptr),tsm_screen_move_line_home(nullptr))) V(34,(tsm_screen_tab_right(nullptr,1),tsm_screen_tab_left(nullptr,1))) V(35,(tsm_screen_insert_lines(nullptr,1),tsm_screen_delete_lines(nullptr,1))) V(36,(tsm_screen_insert_chars(nullptr,1),tsm_screen_delete_chars(nullptr,1))) V(37,(tsm_screen_erase_cursor(nullptr),tsm_screen_erase_chars(nullptr,1))) V(38,(tsm_screen_erase_cursor_to_end(nullptr,true),tsm_screen_erase_home_to_cursor(nullptr,true),tsm_screen_erase_current_line(nullptr,true))) V(39,(tsm_screen_erase_screen_to_cursor(nullptr,false),tsm_screen_erase_cursor_to_screen(nullptr,false),tsm_screen_erase_screen(nullptr,false)))
   V(40,tsm_screen_selection_reset(nullptr)) V(41,tsm_screen_selection_start(nullptr,0,0)) V(42,tsm_screen_selection_target(nullptr,0,0)) N(43,tsm_screen_selection_copy(nullptr,&o)) case 44: { std::string r; if(tsm_screen_draw(nullptr,dcb,&r)!=0||r.size()) fail("a redraw without a screen draws"); break; } N(45,tsm_vte_new(&nv,nullptr,wcb,nullptr,nullptr,nullptr)) V(46,tsm_vte_ref(nullptr)) V(47,tsm_vte_unref(nullptr)) V(48,(tsm_vte_set_osc_cb(nullptr,nullptr,nullptr),tsm_vte_set_mouse_cb(nullptr,nullptr,nullptr))) N(49,tsm_vte_set_palette(nullptr,"vga")) N(50,tsm_vte_set_custom_palette(nullptr,pal)) V(51,tsm_vte_get_def_attr(nullptr,&at)) Z(52,tsm_vte_get_flags(nullptr)) Z(53,tsm_vte_get_mouse_mode(nullptr)) Z(54,tsm_vte_get_mouse_event(nullptr)) V(55,(tsm_vte_reset(nullptr),tsm_vte_hard_reset(nullptr))) V(56,(tsm_vte_input(nullptr,"abc",3),tsm_vte_set_backspace_sends_delete(nullptr,true))) case 57: if(tsm_vte_handle_keyboard(nullptr,'a','a',0,'a')||tsm_vte_handle_mouse(nullptr,1,1,1,1,0,1,0)) fail("keyboard or mouse input without a terminal is reported as handled"); break; }
  if(memcmp(&at,&at0,sizeof at)||nv||o!=(char*)1) fail("call %d without an object has an effect",k); }
static void ptys(Case&c){ Tape&t=c.t; c.label("ptys"); long live=vt_live; struct P{ struct shl_pty*p; pid_t pid; int refs; bool open; int fd; bool br; size_t pend; }; std::vector<P> v; struct Kill{ std::vector<P>&v; ~Kill(){ for(auto&p:v) if(p.pid>0){ kill(p.pid,SIGKILL); waitpid(p.pid,nullptr,0); } } } killer{v}; int br=-1; bool nt=false;
  auto drop=[&](P&p){ c.log("unref pty %d (%d)",(int)(&p-&v[0]),p.refs-1); long b=vt_live; shl_pty_unref(p.p); p.refs--; if(p.refs&&vt_live!=b) fail("dropping one of several references of a pty releases %ld allocation(s)",b-vt_live); if(!p.refs){ if(vt_live>=b) fail("dropping the last reference of a pty releases nothing"); if(p.pend) { c.label("unwritten output"); nt=true; } if(p.open&&fcntl(p.fd,F_GETFD)!=-1) fail("the last reference of a pty was dropped but its file descriptor is still open"); p.p=nullptr; } else nt=true; };
  auto l=t.loop(3,22); while(t.more(l)){ std::vector<int> a; for(size_t i=0;i<v.size();i++) if(v[i].refs>0) a.push_back(i); int k=t.weighted({8,10,16,14,6,10,6,4}); c.mix(k); if(k==0){ if(a.size()>=3||v.size()>=5) continue; P p{}; p.refs=1; p.open=true; pid_t me=getpid(); long b=vt_live; p.pid=shl_pty_open(&p.p,nullptr,nullptr,80,24); if(p.pid==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); if(getppid()!=me) _exit(0); for(;;) pause(); } if(p.pid<0) fail("shl_pty_open returned %d",(int)p.pid); if(vt_live<=b) fail("no pty"); p.fd=shl_pty_get_fd(p.p); v.push_back(p); c.log("open pty %d",(int)v.size()-1); continue; }
    if(k==7){ switch(t.u(3)){ case 0: { struct shl_pty*n=nullptr; shl_pty_ref(n); shl_pty_unref(n); shl_pty_close(n); if(shl_pty_is_open(n)||shl_pty_get_fd(n)>=0||shl_pty_get_child(n)>=0) fail("no pty is open"); break; } case 1: if(shl_pty_dispatch(nullptr)>=0||shl_pty_write(nullptr,"x",1)>=0||shl_pty_signal(nullptr,SIGINT)>=0||shl_pty_resize(nullptr,1,1)>=0) fail("an operation without a pty reports no error"); break; default: if(shl_pty_open(nullptr,nullptr,nullptr,1,1)>=0) fail("opening without a place for the pty reports no error"); } continue; }
    if(a.empty()) continue; P&p=v[a[t.u(a.size())]]; int id=&p-&v[0];
    switch(k){ case 1: { long b=vt_live; c.log("ref pty %d",id); int n=t.chance(10)?t.of(std::vector<int>{255,256,65536}):1; for(int i=0;i<n;i++) shl_pty_ref(p.p); p.refs+=n; for(n-=1+t.u(2);n>0;n--){ shl_pty_unref(p.p); p.refs--; } if(vt_live!=b) fail("taking a reference allocates"); break; }
      case 2: if(p.br&&p.refs==1){ c.log("remove pty %d from the bridge",id); shl_pty_bridge_remove(br,p.p); p.br=false; } drop(p); break;
      case 3: { std::string s(1+t.u(t.chance(60)?9000:100),'x'); c.log("write %d bytes to pty %d",(int)s.size(),id); int r=shl_pty_write(p.p,s.data(),s.size()); if((r==0)!=p.open) fail("writing to %s pty returned %d",p.open?"an open":"a closed",r); if(!r) p.pend+=s.size(); break; }
      case 4: { c.log("close pty %d",id); if(p.br){ shl_pty_bridge_remove(br,p.p); p.br=false; } shl_pty_close(p.p); if(p.open&&fcntl(p.fd,F_GETFD)!=-1) fail("closing a pty leaves its file descriptor open"); p.open=false; break; }
      case 5: if(p.open){ c.log("dispatch pty %d",id); int r=shl_pty_dispatch(p.p); if(r<0&&r!=-EAGAIN) fail("dispatch returned %d",r); } else if(shl_pty_dispatch(p.p)>=0) fail("dispatching a closed pty reports no error"); break;
      case 6: if(!p.open){ if(br>=0&&shl_pty_bridge_add(br,p.p)>=0) fail("adding a closed pty to a bridge reports no error"); break; } if(br<0) br=shl_pty_bridge_new(); if(!p.br){ c.log("add pty %d to the bridge",id); if(shl_pty_bridge_add(br,p.p)) fail("adding to the bridge failed"); p.br=true; } else if(t.chance(60)){ if(shl_pty_bridge_add(br,p.p)>=0) fail("adding a pty to a bridge twice reports no error"); } else { int r=shl_pty_bridge_dispatch(br,0); if(r<0) fail("dispatching the bridge returned %d",r); } break; }
    for(auto&q:v) if(q.refs>0){ if(shl_pty_is_open(q.p)!=q.open||(q.open?shl_pty_get_fd(q.p)!=q.fd:shl_pty_get_fd(q.p)>=0)) fail("a referenced pty is %s",q.open?"not open":"open after it was closed"); if(shl_pty_get_child(q.p)!=q.pid) fail("child of a pty is %d, expected %d",(int)shl_pty_get_child(q.p),(int)q.pid); if(q.open&&fcntl(q.fd,F_GETFD)==-1) fail("the file descriptor of a referenced pty is closed"); } }
  for(auto&p:v) while(p.refs>0){ if(p.br){ shl_pty_bridge_remove(br,p.p); p.br=false; } drop(p); } if(br>=0) shl_pty_bridge_free(br); if(nt) c.nontrivial(); if(vt_live!=live) fail("%ld allocation(s) live after releasing the ptys",vt_live-live); }
void run_case(Case&c){ if(c.t.chance(6)) return ptys(c);
  Tape&t=c.t; long live=vt_live; std::vector<Scr*> ss; std::vector<Vt*> vs; int nid=0; struct Del{ std::vector<Scr*>&s; std::vector<Vt*>&v; ~Del(){ for(auto x:s) delete x; for(auto x:v) delete x; } } del{ss,vs};
  auto group=[&](Scr*s){ if(s->refs==0&&s->vts==0){ if(s->mem!=0) fail("screen %d and its terminals are unreferenced but hold %ld allocation(s)",s->id,s->mem); s->p=nullptr; } };
  auto probe=[&](Scr*s,Vt*v){ long b=vt_live; if(v){ std::string m=fmt("t%d.%d",v->id,(int)t.u(100)); std::string in="\x18\x1b[!p\x1b[H\x1b[2J"+m+"\x1b[5n"; v->out.clear(); c.log("use terminal %d",v->id); unsigned W=tsm_screen_get_width(s->p); tsm_vte_input(v->p,in.data(),in.size()); std::string r=row0(s->p); s->mem+=vt_live-b; if(W>m.size()&&(tsm_screen_get_flags(s->p)&0)==0&&r!=m) fail("terminal %d on screen %d shows \"%s\" instead of \"%s\"",v->id,s->id,esc(r).c_str(),m.c_str()); if(v->out.find("[0n")==std::string::npos) fail("terminal %d does not answer a status request: \"%s\"",v->id,esc(v->out).c_str()); }
    else { c.log("use screen %d",s->id); unsigned W=1+t.u(30),H=1+t.u(6); if(tsm_screen_resize(s->p,W,H)) fail("resize failed"); if(tsm_screen_get_width(s->p)!=W||tsm_screen_get_height(s->p)!=H) fail("screen %d: size after resize is wrong",s->id); row0(s->p); tsm_screen_set_max_sb(s->p,t.u(6)); tsm_screen_scroll_up(s->p,t.u(5)); s->mem+=vt_live-b; } };
  bool nt=false; auto l=t.loop(4,40); while(t.more(l)){ std::vector<Scr*> as; for(auto s:ss) if(s->p) as.push_back(s); std::vector<Vt*> av; for(auto v:vs) if(v->refs>0) av.push_back(v); std::vector<Scr*> us; for(auto s:as) if(s->refs>0) us.push_back(s); int k=t.weighted({10,14,10,16,10,16,16,10,4,8,6}); c.mix(k); 
    switch(k){
      case 0: { if(as.size()>=3) break; Scr*s=new Scr{nullptr,1}; s->id=nid++; long b=vt_live; if(tsm_screen_new(&s->p,nullptr,nullptr)) { delete s; fail("screen creation failed"); } s->mem=vt_live-b; ss.push_back(s); c.log("new screen %d",s->id); break; }
      case 1: { if(as.empty()||av.size()>=5) break; auto&from=us.size()&&t.chance(230)?us:as; Scr*s=from[t.u(from.size())]; Vt*v=new Vt{nullptr,1,s}; v->id=nid++; vs.push_back(v); long b=vt_live; c.log("new terminal %d on screen %d",v->id,s->id); int r=tsm_vte_new(&v->p,s->p,wcb,v,nullptr,nullptr); if(r){ v->refs=0; fail("terminal creation failed"); } s->mem+=vt_live-b; s->vts++; break; }
      case 2: { if(us.empty()) break; Scr*s=us[t.u(us.size())]; long b=vt_live; int n=t.chance(3)?t.of(std::vector<int>{255,256,300,65536}):1; if(n>1) c.label("hundreds of references"); for(int i=0;i<n;i++) tsm_screen_ref(s->p); if(vt_live!=b) fail("taking a reference allocates"); s->refs+=n; for(n-=1+t.u(2);n>0;n--){ tsm_screen_unref(s->p); s->refs--; } if(vt_live!=b) fail("dropping one of several references of screen %d releases %ld allocation(s)",s->id,b-vt_live); c.log("ref screen %d (%d)",s->id,s->refs); break; }
      case 3: { if(us.empty()) break; Scr*s=us[t.u(us.size())]; long b=vt_live; c.log("unref screen %d (%d)",s->id,s->refs-1); bool keeps=s->refs>1||s->vts>0; tsm_screen_unref(s->p); s->mem+=vt_live-b; s->refs--; if(keeps&&vt_live!=b) fail("dropping one of several references of screen %d releases %ld allocation(s)",s->id,b-vt_live); if(keeps) nt=true; group(s); break; }
      case 4: { if(av.empty()) break; Vt*v=av[t.u(av.size())]; long b=vt_live; int n=t.chance(3)?t.of(std::vector<int>{255,256,300,65536}):1; if(n>1) c.label("hundreds of references"); for(int i=0;i<n;i++) tsm_vte_ref(v->p); if(vt_live!=b) fail("taking a reference allocates"); v->refs+=n; for(n-=1+t.u(2);n>0;n--){ tsm_vte_unref(v->p); v->refs--; } if(vt_live!=b) fail("dropping one of several references of terminal %d releases %ld allocation(s)",v->id,b-vt_live); c.log("ref terminal %d (%d)",v->id,v->refs); break; }
      case 5: { if(av.empty()) break; Vt*v=av[t.u(av.size())]; Scr*s=v->s; long b=vt_live; c.log("unref terminal %d (%d)",v->id,v->refs-1); tsm_vte_unref(v->p); s->mem+=vt_live-b; v->refs--; if(v->refs>0){ nt=true; if(vt_live!=b) fail("dropping one of several references of terminal %d releases %ld allocation(s)",v->id,b-vt_live); } else { if(vt_live>=b) fail("dropping the last reference of terminal %d releases nothing",v->id); s->vts--; v->p=nullptr; group(s); } break; }
      case 6: { if(av.size()){ Vt*v=av[t.u(av.size())]; probe(v->s,v); } break; }
      case 7: { if(as.size()) probe(as[t.u(as.size())],nullptr); break; }
      case 9: { if(av.empty()) break; Vt*v=av[t.u(av.size())]; Scr*s=v->s; long b=vt_live; c.label("palettes"); int n=1+t.u(3); while(n--){ if(t.chance(128)){ auto nm=t.of(gen::palettes()); bool none=t.chance(60); if(!none&&t.chance(100)) nm="custom"; c.log("terminal %d: palette %s",v->id,none?"none":nm.c_str()); int r=tsm_vte_set_palette(v->p,none?nullptr:nm.c_str()); if(r) fail("set_palette returned %d",r); } else { uint8_t p[18][3]; memset(p,t.u(256),sizeof p); bool none=t.chance(60); c.log("terminal %d: custom palette %s",v->id,none?"none":"set"); int r=tsm_vte_set_custom_palette(v->p,none?nullptr:p); if(r) fail("set_custom_palette returned %d",r); } } s->mem+=vt_live-b; break; }
      case 10: { if(av.empty()) break; Vt*v=av[t.u(av.size())]; Scr*s=v->s; long b=vt_live; c.label("left in the middle"); std::string in=t.of(std::vector<std::string>{"\x1b]0;title","\x1b[12;3","\xe4\xb8","\x1bPq","\x1b[?1049h","\x1b""7","\x1b[?1003h","\x1b[3;2r","one\r\ntwo\r\nthree\r\nfour","\x1b[2Jx\xcc\x81","\x1b""c"}); c.log("terminal %d: input \"%s\"",v->id,esc(in).c_str()); tsm_vte_input(v->p,in.data(),in.size()); if(t.chance(100)){ tsm_screen_sb_up(s->p,t.u(4)); tsm_screen_selection_start(s->p,t.u(9),t.u(4)); tsm_screen_selection_target(s->p,t.u(9),t.u(4)); char*o=nullptr; int r=tsm_screen_selection_copy(s->p,&o); if(r>=0) vt_free(o); tsm_screen_sb_reset(s->p); } s->mem+=vt_live-b; break; }
      default: {  { long b=vt_live; nothing(t,c); if(vt_live!=b) fail("a call without an object allocates"); } } } }
  // drop what is left, in any order
  while(true){ std::vector<int> w; for(size_t i=0;i<ss.size();i++) if(ss[i]->p&&ss[i]->refs>0) w.push_back(i); size_t n=w.size(); for(size_t i=0;i<vs.size();i++) if(vs[i]->refs>0) w.push_back(i); if(w.empty()) break; size_t j=t.u(w.size()); if(j<n){ Scr*s=ss[w[j]]; if(s->vts) nt=true; long b=vt_live; tsm_screen_unref(s->p); s->mem+=vt_live-b; s->refs--; group(s); } else { Vt*v=vs[w[j]]; Scr*s=v->s; if(t.chance(60)) probe(s,v); long b=vt_live; tsm_vte_unref(v->p); s->mem+=vt_live-b; if(--v->refs==0){ s->vts--; group(s); } } }
  if(nt) c.nontrivial(); if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); }
