#include "script.h"
const CheckInfo CHECK={"C29","two to four terminals in one process get random histories in a random interleaving, some are created late or destroyed early; afterwards each history is run alone in the same process and return values, notifications and the complete observable state (with cell ages) of each must be the same. The first cases of every worker do both in new processes, in which no other terminal ever ran. Non-trivial: at least 3 switches between terminals and at least two terminals with 4 or more operations, one of which changed palette, charset or modes",50000,300000};
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
struct T1 { bool made=false,dead=false; int w=80,h=24; int n=0; };
struct Step { int i; enum { START,OP,SNAP,END } k; Op o; };
// what the terminals of a schedule show, one list of lines per terminal; only>=0 leaves the others out
typedef std::vector<std::vector<std::string>> Shown;
static Shown play(Case&c,const std::vector<Step>&sch,int K,int only){ Shown r(K); long live=vt_live; { std::vector<std::unique_ptr<Sut>> u(K); SnapOpt so; so.ages=true;
  for(auto&s:sch){ if(only>=0&&s.i!=only) continue; auto&x=u[s.i]; switch(s.k){
    case Step::START: x.reset(new Sut(&c)); x->tag=only<0?fmt("terminal %d: ",s.i):fmt("terminal %d alone: ",s.i); if(!x->create()) fail("creation failed"); break;
    case Step::OP: { int v=apply(*x,s.o); r[s.i].push_back(s.o.str()+fmt(" returned %d\n",v)); break; }
    case Step::SNAP: r[s.i].push_back(snapshot(*x,so)); break;
    case Step::END: c.log("terminal %d destroyed",s.i); x->destroy(); break; } } }
  if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); return r; }
// the same in a process of its own, in which nothing else ran before
static Shown play_fresh(Case&c,const std::vector<Step>&sch,int K,int only){ int pp[2]; if(pipe(pp)) throw std::runtime_error("pipe"); fflush(nullptr); pid_t p=fork(); if(p<0) throw std::runtime_error("fork");
  if(!p){ close(pp[0]); struct itimerval it={{0,0},{10,0}}; setitimer(ITIMER_VIRTUAL,&it,nullptr); std::string o; try { Shown r=play(c,sch,K,only); for(auto&v:r){ o+=fmt("T%zu\n",v.size()); for(auto&x:v){ o+=fmt("%zu\n",x.size()); o+=x; } } o+="E"; } catch(const Violation&v){ o="F"+std::string(v.what()); }
    for(size_t i=0;i<o.size();){ ssize_t n=write(pp[1],o.data()+i,o.size()-i); if(n<=0) break; i+=n; } fflush(nullptr); _exit(0); }
  close(pp[1]); std::string o; char b[65536]; ssize_t n; while((n=read(pp[0],b,sizeof b))>0||(n<0&&errno==EINTR)) if(n>0) o.append(b,n); close(pp[0]); int st; while(waitpid(p,&st,0)<0&&errno==EINTR);
  if(!WIFEXITED(st)||WEXITSTATUS(st)) fail("the process of the terminals ended with status %x",st); if(o.size()&&o[0]=='F') fail("%s",o.c_str()+1); if(o.empty()||o.back()!='E') fail("the process of the terminals ended early");
  Shown r; size_t i=0; while(o[i]=='T'){ size_t e; size_t m=std::stoul(o.substr(i+1,24),&e); i+=1+e+1; r.emplace_back(); while(m--){ size_t l=std::stoul(o.substr(i,24),&e); i+=e+1; r.back().push_back(o.substr(i,l)); i+=l; } } return r; }
// many operations of one kind on several terminals meet in whatever they would share
static const char*THEMES[]={"mixed","mouse","keys","palettes","character sets","strings","characters in pieces","saved cursors","selections","modes","tab stops and margins"};
static Op themed(Tape&t,int k,int w,int h){ Op o; auto of=[&](std::vector<std::string> v){ return gen::input(t.of(v)); };
  switch(k){ case 1: if(t.chance(70)) return gen::input(fmt("\x1b[?%d%c",t.of(std::vector<int>{9,1000,1002,1003,1003,1006,1006,1016,1005,1015}),t.chance(190)?'h':'l')); o=gen::mouseop(t,w,h); if(t.chance(200)){ o.a=t.u(3); o.b=t.u(3); } return o;
    case 2: if(t.chance(60)) return of({"\x1b[?1h","\x1b[?1l","\x1b=","\x1b>","\x1b[20h","\x1b[20l","\x1b[?8h","\x1b[12l","\x1b[12h","\x1b[62;1\"p","\x1b%G"}); if(t.chance(20)){ o.k=Op::BSDEL; o.a=t.u(2); return o; } return gen::keyop(t);
    case 3: if(t.chance(100)){ if(t.chance(128)){ o.k=Op::CUSTOM; o.a=t.chance(30); o.b=1+t.u(200); o.c=t.u(256); } else { o.k=Op::PALETTE; o.a=t.chance(30); o.s=t.of(gen::palettes()); } return o; } return t.chance(128)?gen::input(gen::sgr(t)+"x"):of({"\x1b[2J","\x1b[0mZ","\x1b[!p","\x1b""c","\x1b[K"});
    case 4: return t.chance(128)?gen::input(gen::charset(t)):of({"q","xq","\x0e","\x0f","\x1bN","\x1bO","\x1b~","\xe1","\xc3\xb1","\x1b[62;1\"p","\x1b(0","\x1b)<"});
    case 5: return of({"\x1b]2;","\x1b]","abc","\x07","\x1b\\","0;t","\x9d","\xc2\x9d","\x18","\x1bP","\x1b[3","1;","m","\x1b[","5n"});
    case 6: { static const std::string a="a\xc3\xa9\xe4\xb8\xad\xf0\x9f\x98\x80"; int p=t.u(a.size()); return gen::input(a.substr(p,1+t.u(3))); }
    case 7: return t.chance(128)?gen::input(gen::savres(t)):t.chance(128)?gen::input(gen::move(t,w,h)):gen::input(gen::sgr(t)+"s");
    case 8: return t.chance(200)?gen::op(t,w,h,gen::M_SEL|gen::M_VIEW):gen::input("\r\nrow");
    case 9: return gen::input(gen::modes(t,{2,4,12,20},{1,5,6,7,25,9,1000,1002,1003,1006,47,1047,1049}));
    default: return t.chance(100)?gen::input(gen::tabs(t,w)):t.chance(100)?gen::input(gen::margins(t,h)):gen::input(gen::move(t,w,h)); } }
static int cases_here;
void run_case(Case&c){ Tape&t=c.t; int K=2+t.u(3); std::vector<T1> ts(K); std::vector<Step> sch; int sw=0,last=-1; bool special=false,have=false; Op prev; int theme=t.chance(150)?1+t.u(10):0; c.label(THEMES[theme]);
  auto put=[&](int i,const Op&o){ T1&x=ts[i]; Step s; s.i=i; s.k=Step::OP; s.o=o; sch.push_back(s); x.n++; if(o.k==Op::RESIZE&&o.a>0&&o.b>0){ x.w=o.a; x.h=o.b; } };
  auto mark=[&](int i,decltype(Step::k) k){ Step s; s.i=i; s.k=k; sch.push_back(s); };
  auto start=[&](int i){ T1&x=ts[i]; x.made=true; mark(i,Step::START); Op o; o.k=Op::RESIZE; int W,H; gen::dims(t,W,H,150); o.a=W; o.b=H; put(i,o); o=Op(); o.k=Op::MAXSB; o.a=t.u(6); put(i,o); };
  for(int i=0;i<K;i++) if(i<2||t.chance(128)) start(i);
  auto l=t.loop(6,c.thorough?90:50); while(t.more(l)){ int i=t.u(K); T1&x=ts[i]; if(x.dead) continue; if(!x.made) start(i); if(i!=last&&last>=0) sw++; last=i; Op o=theme&&t.chance(200)?themed(t,theme,x.w,x.h):have&&t.chance(30)?prev:gen::op(t,x.w,x.h,gen::M_ALL); prev=o; have=true; if(o.k==Op::RESIZE&&o.a*o.b>150){ o.a=5; o.b=3; } c.mix(o.str()); c.mix(i); if(o.k==Op::PALETTE||o.k==Op::CUSTOM||o.k==Op::SFLAG||(o.k==Op::INPUT&&o.s.size()&&(o.s.back()=='h'||o.s.back()=='0'))) special=true; put(i,o); if(t.chance(20)) mark(i,Step::SNAP);
    if(t.chance(3)){ mark(i,Step::SNAP); mark(i,Step::END); x.dead=true; c.label("early destruction"); } }
  int full=0; for(int i=0;i<K;i++){ T1&x=ts[i]; if(x.made&&!x.dead) mark(i,Step::SNAP); if(x.n>=6) full++; }
  bool fresh=cases_here++<(c.thorough?400:150); if(fresh) c.label("each run in a new process");
  Shown g=fresh?play_fresh(c,sch,K,-1):play(c,sch,K,-1);
  for(int i=0;i<K;i++){ if(!ts[i].made) continue; Shown a=fresh?play_fresh(c,sch,K,i):play(c,sch,K,i); if(g[i].size()!=a[i].size()) fail("terminal %d: %zu results among others, %zu alone",i,g[i].size(),a[i].size());
    for(size_t k=0;k<g[i].size();k++) if(g[i][k]!=a[i][k]) fail("terminal %d among others versus alone: %s",i,first_diff(g[i][k],a[i][k]).c_str()); }
  if(sw>=3&&full>=2&&special) c.nontrivial(); }
