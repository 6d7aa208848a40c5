#include "rt.h"
#include "alloc.h"
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <termios.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cerrno>
extern "C" {
struct shl_pty;
typedef void (*shl_pty_input_fn)(struct shl_pty*,void*,char*,size_t);
pid_t shl_pty_open(struct shl_pty**,shl_pty_input_fn,void*,unsigned short,unsigned short);
void shl_pty_ref(struct shl_pty*); void shl_pty_unref(struct shl_pty*); void shl_pty_close(struct shl_pty*); bool shl_pty_is_open(struct shl_pty*); int shl_pty_get_fd(struct shl_pty*); pid_t shl_pty_get_child(struct shl_pty*);
int shl_pty_dispatch(struct shl_pty*); int shl_pty_write(struct shl_pty*,const char*,size_t); int shl_pty_resize(struct shl_pty*,unsigned short,unsigned short); int shl_pty_signal(struct shl_pty*,int);
int shl_pty_bridge_new(void); void shl_pty_bridge_free(int); int shl_pty_bridge_dispatch_pty(int,struct shl_pty*); int shl_pty_bridge_dispatch(int,int); int shl_pty_bridge_add(int,struct shl_pty*); void shl_pty_bridge_remove(int,struct shl_pty*);
}
const CheckInfo CHECK={"C26","(a) one to three ptys on one bridge over a simulated kernel: bounded queues in both directions, short reads, EINTR, EAGAIN, edge-triggered readiness reported once and in any order, the child making progress at any point between and inside calls; the user follows the idiom of the bundled terminal (dispatch once after writing, then whenever the bridge is readable). At quiescence every byte must have arrived in order on both sides. (b) real ptys with a forked child that hashes its input, produces output in chunks and reports its window size, its signal setup and the signals it got. Non-trivial: data exceeded a queue or a dispatch, or a signal interrupted a transfer",13500,120000};
// ---------------------------------------------------------------- simulated kernel
struct Dev { std::string in,out; size_t capin=1,capout=1; std::string tosend; size_t sent=0; std::string got; bool blocked=false, closed=false; int pend=0; bool hup=false; };
struct Reg { uint32_t ev; epoll_data_t data; uint32_t pend; };
struct Kern { Tape*t; std::map<int,Dev> dev; int ep=-1; std::map<int,Reg> reg; int eintr=0, conc=0; bool everyedge=false; long steps=0; bool intr=false, full=false; int drainp=128; };
static Kern*K;
static uint32_t ready(Dev&d){ uint32_t r=0; if(!d.in.empty()||d.closed) r|=EPOLLIN; if(d.out.size()<d.capout||d.closed) r|=EPOLLOUT; if(d.closed) r|=EPOLLHUP; return r; }
static void edge(int fd,uint32_t what){ auto it=K->reg.find(fd); if(it!=K->reg.end()) it->second.pend|=what&(it->second.ev|EPOLLHUP|EPOLLERR); }
static void child_send(int fd,Dev&d,size_t n){ if(d.closed) return; n=std::min({n,d.tosend.size()-d.sent,d.capin-d.in.size()}); if(!n) return; bool was=d.in.empty(); d.in.append(d.tosend,d.sent,n); d.sent+=n; if(was||K->everyedge) edge(fd,EPOLLIN); if(d.in.size()==d.capin) K->full=true; }
static void child_read(int fd,Dev&d,size_t n){ n=std::min(n,d.out.size()); if(!n) return; bool was=d.out.size()>=d.capout; d.got.append(d.out,0,n); d.out.erase(0,n); if(was||d.blocked||K->everyedge) { d.blocked=false; edge(fd,EPOLLOUT); } }
static void world(){ if(K->conc&&K->t->chance(K->conc)) for(auto&d:K->dev){ int k=K->t->u(4); if(k&1) child_send(d.first,d.second,1+K->t->u(d.second.capin)); if(k&2) child_read(d.first,d.second,1+K->t->u(d.second.capout)); } }
static bool sim(int fd){ return K&&K->dev.count(fd); }
extern "C" {
ssize_t vt_readv(int fd,const struct iovec*v,int c){ if(!sim(fd)) return readv(fd,v,c); world(); if(K->eintr&&K->t->chance(K->eintr)){ K->intr=true; errno=EINTR; return -1; } Dev&d=K->dev[fd]; size_t n=0; for(int i=0;i<c;i++) n+=v[i].iov_len; if(!n) return 0; if(d.in.empty()){ errno=d.closed?EIO:EAGAIN; return -1; } n=std::min(n,d.in.size()); if(n>1&&K->t->chance(90)) n=1+K->t->u(n-1); size_t o=0; for(int i=0;i<c&&o<n;i++){ size_t k=std::min(n-o,v[i].iov_len); memcpy(v[i].iov_base,d.in.data()+o,k); o+=k; } d.in.erase(0,n); return n; }
ssize_t vt_read(int fd,void*b,size_t n){ if(!sim(fd)) return read(fd,b,n); struct iovec v={b,n}; return vt_readv(fd,&v,1); }
ssize_t vt_writev(int fd,const struct iovec*v,int c){ if(!sim(fd)) return writev(fd,v,c); world(); if(K->eintr&&K->t->chance(K->eintr)){ K->intr=true; errno=EINTR; return -1; } Dev&d=K->dev[fd]; if(d.closed){ errno=EIO; return -1; } size_t n=0; for(int i=0;i<c;i++) n+=v[i].iov_len; if(!n) return 0; size_t room=d.capout-d.out.size(); if(!room){ d.blocked=true; K->full=true; errno=EAGAIN; return -1; } if(n>room){ d.blocked=true; n=room; } else if(n>1&&K->eintr&&K->t->chance(K->eintr*2)){ n=1+K->t->u(n-1); K->intr=true; /* a signal ends the call early */ } size_t o=0; for(int i=0;i<c&&o<n;i++){ size_t k=std::min(n-o,v[i].iov_len); d.out.append((const char*)v[i].iov_base,k); o+=k; } return n; }
ssize_t vt_write(int fd,const void*b,size_t n){ if(!sim(fd)) return write(fd,b,n); struct iovec v={(void*)b,n}; return vt_writev(fd,&v,1); }
int vt_epoll_ctl(int ep,int op,int fd,struct epoll_event*e){ if(!K||ep!=K->ep) return epoll_ctl(ep,op,fd,e); if(!sim(fd)){ errno=EBADF; return -1; } bool has=K->reg.count(fd); if(op==EPOLL_CTL_ADD&&has){ errno=EEXIST; return -1; } if(op!=EPOLL_CTL_ADD&&!has){ errno=ENOENT; return -1; } if(op==EPOLL_CTL_DEL){ K->reg.erase(fd); return 0; } Reg r; r.ev=e->events; r.data=e->data; r.pend=ready(K->dev[fd])&(r.ev|EPOLLHUP|EPOLLERR); K->reg[fd]=r; return 0; }
int vt_epoll_wait(int ep,struct epoll_event*e,int max,int timeout){ if(!K||ep!=K->ep) return epoll_wait(ep,e,max,timeout); world(); if(K->eintr&&K->t->chance(K->eintr/2)){ K->intr=true; errno=EINTR; return -1; } if(max<1){ errno=EINVAL; return -1; } std::vector<int> p; for(auto&r:K->reg){ if(!(r.second.ev&EPOLLET)) r.second.pend=ready(K->dev[r.first])&(r.second.ev|EPOLLHUP|EPOLLERR); if(r.second.pend) p.push_back(r.first); } int n=0; while(n<max&&p.size()){ size_t i=K->t->u(p.size()); Reg&r=K->reg[p[i]]; Dev&d=K->dev[p[i]]; uint32_t now=r.pend&ready(d); if(r.pend) { e[n].events=now?now:r.pend; e[n].data=r.data; n++; } if(r.ev&EPOLLET) r.pend=0; p.erase(p.begin()+i); } return n; }
}
// ---------------------------------------------------------------- common
struct Peer { struct shl_pty*p=nullptr; pid_t pid=0; std::string recv, want; bool echo=false; std::string echobuf; Case*c; bool idle=false; int echon=0; };
static std::string blob(uint64_t seed,size_t n){ Rng r(seed); std::string s(n,0); for(size_t i=0;i<n;i++) s[i]=(char)(r.next()>>13); return s; }
static void reader(struct shl_pty*p,void*d,char*u8,size_t len){ Peer*q=(Peer*)d; if(q->p&&p!=q->p) fail("input callback was given a foreign pty"); if(!len) fail("input callback called without data"); q->recv.append(u8,len); if(q->echon>0){ q->echon--; std::string a=blob(q->recv.size(),1+q->recv.size()%40); int r=shl_pty_write(p,a.data(),a.size()); if(r==0){ q->want+=a; q->idle=true; } else fail("writing from within the callback returned %d",r); } }
static void diff(const char*what,int i,const std::string&got,const std::string&want){ if(got==want) return; size_t k=0; while(k<got.size()&&k<want.size()&&got[k]==want[k]) k++; fail("pty %d: %s: %zu of %zu bytes arrived, first difference at byte %zu%s",i,what,got.size(),want.size(),k,got.size()<want.size()&&k==got.size()?" (the rest never arrives)":""); }
struct Guard { std::vector<Peer*>q; int br=-1; ~Guard(){ if(br>=0) shl_pty_bridge_free(br); for(auto p:q){ if(p->pid>0) kill(p->pid,SIGKILL); K=nullptr; if(p->p) shl_pty_unref(p->p); if(p->pid>0) waitpid(p->pid,nullptr,0); delete p; } K=nullptr; } };
static Peer* spawn(Case&c,Guard&g,unsigned w,unsigned h,void(*child)(unsigned long,unsigned long,size_t),unsigned long a,unsigned long b,size_t d){ Peer*q=new Peer; q->c=&c; g.q.push_back(q); pid_t me=getpid(); pid_t pid=shl_pty_open(&q->p,reader,q,w,h); if(pid==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); if(getppid()!=me) _exit(0); for(int i=3;i<256;i++) close(i); if(child) child(a,b,d); _exit(0); } if(pid<0) fail("shl_pty_open returned %d",(int)pid); if(!q->p) fail("shl_pty_open returned no pty"); q->pid=pid; if(shl_pty_get_child(q->p)!=pid) fail("child pid is %d, not %d",(int)shl_pty_get_child(q->p),(int)pid); if(!shl_pty_is_open(q->p)||shl_pty_get_fd(q->p)<0) fail("a new pty is not open"); return q; }
static void simcase(Case&c){ Tape&t=c.t; long live=vt_live; c.label("simulated kernel"); { Kern k; k.t=&t; Guard g; int n=1+t.weighted({60,25,15}); k.eintr=t.of(std::vector<int>{0,0,10,60}); k.conc=t.of(std::vector<int>{0,60,150}); k.everyedge=t.chance(100); c.mix(n); c.mix(k.eintr*1000+k.conc);
  bool big=t.chance(40); 
  for(int i=0;i<n;i++) spawn(c,g,80,24,nullptr,0,0,0);
  g.br=shl_pty_bridge_new(); if(g.br<0) fail("no bridge"); k.ep=g.br; K=&k; size_t maxcap=0;
  for(auto q:g.q){ Dev d; auto cap=[&]()->size_t{ switch(t.u(4)){ case 0: return 1+t.u(8); case 1: return 1+t.u(300); case 2: return 4095; default: return 1+t.u(70000); } }; d.capin=cap(); d.capout=cap(); k.dev[shl_pty_get_fd(q->p)]=d; if(t.chance(60)) q->echon=1+t.u(40); c.mix(d.capin*100003+d.capout); }
  for(auto q:g.q) if(shl_pty_bridge_add(g.br,q->p)) fail("adding a pty to the bridge failed");
  if(c.verbose) for(int i=0;i<n;i++){ Dev&d=k.dev[shl_pty_get_fd(g.q[i]->p)]; c.log("pty %d: queue of %zu bytes towards the terminal, %zu towards the child%s",i,d.capin,d.capout,g.q[i]->echon?", answers from the callback":""); }
  auto devof=[&](Peer*q)->Dev&{ return k.dev[shl_pty_get_fd(q->p)]; };
  auto disp=[&](Peer*q){ q->idle=false; int r=shl_pty_bridge_dispatch_pty(g.br,q->p); if(r<0) fail("dispatching a pty returned %d",r); };
  auto poll=[&]{ int r=shl_pty_bridge_dispatch(g.br,0); if(r<0) fail("dispatching the bridge returned %d",r); };
  long total=0; auto l=t.loop(1,14); while(t.more(l)){ int i=t.u(n); Peer*q=g.q[i]; int fd=shl_pty_get_fd(q->p); Dev&d=devof(q);
    auto size=[&]()->size_t{ switch(t.u(big?5:4)){ case 0: return 1+t.u(20); case 1: return 1+t.u(600); case 2: return 1+t.u(4*(int)std::min<size_t>(d.capin,5000)); case 3: return 4096*t.u(3)+t.u(3); default: return t.u(150000); } };
    switch(t.weighted({30,30,20,10,10})){
      case 0: { size_t m=size(); if(d.capout<50) m=std::min<size_t>(m,600); std::string s=blob(t.raw(2),m); bool oom=t.chance(10); int r; if(oom){ static int (*never)(void)=[]()->int{ return 1; }; vt_should_fail=never; } r=shl_pty_write(q->p,s.data(),s.size()); vt_should_fail=nullptr; c.log("write %zu bytes to pty %d -> %d",m,i,r); if(r==0) q->want+=s; else if(r!=-ENOMEM||!oom) fail("shl_pty_write returned %d",r); q->idle=true; total+=m; if(t.chance(128)) disp(q); break; }
      case 1: { size_t m=size(); if(d.capin<50) m=std::min<size_t>(m,600); d.tosend+=blob(t.raw(2)+77,m); c.log("child of pty %d prints %zu bytes",i,m); child_send(fd,d,m); total+=m; break; }
      case 2: { size_t m=1+t.u(3000); c.log("child of pty %d reads up to %zu bytes",i,m); child_read(fd,d,m); break; }
      case 3: c.log("dispatch pty %d",i); disp(q); break;
      default: c.log("dispatch the bridge"); poll(); } c.mix(total); }
  // run to quiescence: the event loop only acts on what the bridge reports
  bool hang=t.chance(40); long idle=0, rounds=0; size_t last=0; K->conc=t.chance(128)?K->conc:0; int stage=0;
  while(true){ if(++rounds>2000000) fail("no quiescence"); bool pend=false; for(auto q:g.q) if(q->idle&&(rounds%8==0||t.chance(200))){ disp(q); pend=true; }
    bool ev=false; for(auto&r:k.reg){ if(!(r.second.ev&EPOLLET)) r.second.pend|=ready(k.dev[r.first])&r.second.ev; if(r.second.pend) ev=true; } if(ev){ poll(); pend=true; }
    if(pend) { size_t now=0; for(auto q:g.q) now+=q->recv.size()+devof(q).got.size()+devof(q).out.size(); if(now!=last){ last=now; idle=0; } else if(++idle>5000) { stage=9; } if(stage!=9) continue; }
    if(stage==9) break;
    bool idl=false; for(auto q:g.q) idl|=q->idle; if(idl) continue;
    // the event loop sleeps: only the children move
    size_t moved=0; for(auto q:g.q){ int fd=shl_pty_get_fd(q->p); Dev&d=devof(q); size_t a=d.sent+d.got.size(); child_send(fd,d,1+t.u(2*d.capin)); child_read(fd,d,d.out.size()); moved+=d.sent+d.got.size()-a; if(hang&&!d.closed&&d.sent==d.tosend.size()&&d.got.size()==q->want.size()&&q->echon==0&&t.chance(100)){ d.closed=true; edge(fd,EPOLLIN|EPOLLHUP); c.label("child closes"); moved++; } }
    bool again=false; for(auto&r:k.reg) if(r.second.pend) again=true;
    if(!moved&&!again) break; }
  for(int i=0;i<n;i++){ Peer*q=g.q[i]; Dev&d=devof(q); diff("towards the terminal",i,q->recv,d.tosend); diff("towards the child",i,d.got,q->want); }
  if(t.chance(20)){ Peer*q=g.q[t.u(n)]; std::string s=blob(t.raw(2),1+t.u(9000)); shl_pty_write(q->p,s.data(),s.size()); c.label("released with unwritten output"); }
  if(k.full||k.intr) c.nontrivial(); if(k.intr) c.label("interrupted"); if(k.full) c.label("full queue"); }
  if(vt_live!=live) fail("%ld allocation(s) live after releasing the ptys",vt_live-live); }
// ---------------------------------------------------------------- real ptys
// child: frames from stdin: 'W' report size; 'D' len(4) data -> reports hash; 'P' len(4) seed(4) chunk(2) -> prints
static uint64_t fnv(const std::string&s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; }
static bool rd(void*b,size_t n){ char*p=(char*)b; while(n){ ssize_t r=read(0,p,n); if(r<0&&errno==EINTR) continue; if(r<=0) return false; p+=r; n-=r; } return true; }
static bool wr(const void*b,size_t n,size_t chunk){ const char*p=(const char*)b; while(n){ ssize_t r=write(1,p,std::min(n,chunk)); if(r<0&&errno==EINTR) continue; if(r<=0) return false; p+=r; n-=r; } return true; }
static volatile sig_atomic_t sigs[32];
static void onsig(int n){ sigs[n]++; }
static const int SIGS[3]={SIGINT,SIGQUIT,SIGTSTP};
static void realchild(unsigned long,unsigned long,size_t){ int odd=0; for(int i=1;i<31;i++){ struct sigaction sa; if(i!=SIGKILL&&i!=SIGSTOP&&!sigaction(i,nullptr,&sa)&&sa.sa_handler!=SIG_DFL) odd++; } sigset_t m; sigprocmask(SIG_SETMASK,nullptr,&m); for(int i=1;i<31;i++) if(sigismember(&m,i)==1) odd++;
  alarm(120); for(int i:SIGS){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sigaction(i,&sa,nullptr); } struct termios a; if(tcgetattr(0,&a)) _exit(3); bool utf8=a.c_iflag&IUTF8; int er=a.c_cc[VERASE]; cfmakeraw(&a); if(tcsetattr(0,TCSANOW,&a)) _exit(3);
  struct winsize ws; ioctl(0,TIOCGWINSZ,&ws); pid_t fg=-1; ioctl(0,TIOCGPGRP,&fg); std::string s=fmt("S%d,%d,%d,%d,%d,%d,%d;",ws.ws_col,ws.ws_row,isatty(0)&&isatty(1)&&isatty(2),fg==getpid()&&getsid(0)==getpid(),(int)utf8,er,odd); wr(s.data(),s.size(),64);
  char k; while(rd(&k,1)){ if(k=='W'){ ioctl(0,TIOCGWINSZ,&ws); s=fmt("W%d,%d;",ws.ws_col,ws.ws_row); wr(s.data(),s.size(),64); } else if(k=='D'){ uint32_t n; if(!rd(&n,4)) break; std::string d(n,0); if(n&&!rd(&d[0],n)) break; s=fmt("H%016llx;",(unsigned long long)fnv(d)); wr(s.data(),s.size(),64); } else if(k=='P'){ uint32_t n,sd; uint16_t ch; if(!rd(&n,4)||!rd(&sd,4)||!rd(&ch,2)) break; std::string d=blob(sd,n); if(!wr(d.data(),d.size(),ch)) break; } else if(k=='G'){ s=fmt("G%d,%d,%d;",(int)sigs[SIGINT],(int)sigs[SIGQUIT],(int)sigs[SIGTSTP]); wr(s.data(),s.size(),64); } else if(k=='Q') break; else { wr("X;",2,2); } } _exit(0); }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
static void realcase(Case&c){ Tape&t=c.t; long live=vt_live; c.label("real pty"); { Guard g; int n=1+t.weighted({80,20}); std::vector<std::string> want(n); unsigned w=t.of(std::vector<int>{80,1,0,65535,132}), h=t.of(std::vector<int>{24,1,0,65535,50}); bool direct=t.chance(60);
  bool ign=t.chance(60),blk=t.chance(60); sigset_t old,add; if(ign) signal(SIGPIPE,SIG_IGN); if(blk){ sigemptyset(&add); sigaddset(&add,SIGUSR1); sigaddset(&add,SIGINT); sigprocmask(SIG_BLOCK,&add,&old); }
  for(int i=0;i<n;i++){ spawn(c,g,w,h,realchild,0,0,0); want[i]=fmt("S%u,%u,1,1,1,8,0;",w,h); } if(ign) signal(SIGPIPE,SIG_DFL); if(blk) sigprocmask(SIG_SETMASK,&old,nullptr); c.log("%d real pty(s) of %ux%u",n,w,h); c.mix(w*70001+h);
  g.br=shl_pty_bridge_new(); for(auto q:g.q) if(shl_pty_bridge_add(g.br,q->p)) fail("adding to the bridge failed");
  auto pump=[&](bool wait){ double t0=now(); size_t last=0; while(true){ bool done=true; size_t sum=0; for(int i=0;i<n;i++){ if(g.q[i]->recv.size()<want[i].size()) done=false; sum+=g.q[i]->recv.size(); } if(!wait||done){ if(!wait) shl_pty_bridge_dispatch(g.br,0); return; } if(sum!=last){ last=sum; t0=now(); } if(now()-t0>25) return; int r=shl_pty_bridge_dispatch(g.br,200); if(r<0) fail("dispatching the bridge returned %d",r); } };
  auto check=[&]{ pump(true); for(int i=0;i<n;i++) diff("output of the real child",i,g.q[i]->recv,want[i]); };
  check(); auto l=t.loop(1,5); bool big=false; std::vector<std::vector<int>> sg(n,std::vector<int>(3,0)); while(t.more(l)){ int i=t.u(n); Peer*q=g.q[i]; auto send=[&](const std::string&s){ size_t o=0; size_t ch=t.of(std::vector<int>{1<<20,1000,4096,37}); if(ch<s.size()/200) ch=s.size()/200; while(o<s.size()){ size_t m=std::min(ch,s.size()-o); int r=shl_pty_write(q->p,s.data()+o,m); if(r) fail("shl_pty_write returned %d",r); o+=m; if(t.chance(100)){ r=shl_pty_bridge_dispatch_pty(g.br,q->p); if(r<0) fail("dispatch returned %d",r);} } int r=shl_pty_bridge_dispatch_pty(g.br,q->p); if(r<0) fail("dispatch returned %d",r); };
    auto size=[&]()->uint32_t{ return t.chance(100)? t.u(200000): t.u(3000); };
    switch(t.weighted({30,35,35,20})){
      case 0: { check(); unsigned a=t.u(500),b=t.u(300); int r=shl_pty_resize(q->p,a,b); if(r) fail("shl_pty_resize returned %d",r); c.log("resize pty %d to %ux%u",i,a,b); send("W"); want[i]+=fmt("W%u,%u;",a,b); c.mix(a*1000+b); check(); break; }
      case 1: { uint32_t m=size(); std::string d=blob(t.raw(2),m); c.log("send %u bytes to the child of pty %d",m,i); std::string s="D"; s.append((char*)&m,4); s+=d; send(s); want[i]+=fmt("H%016llx;",(unsigned long long)fnv(d)); c.mix(m); if(m>8192) big=true; break; }
      case 3: { check(); auto l3=t.loop(1,4); while(t.more(l3)){ int j=t.u(3); bool bad=t.chance(60); int sig=bad?t.of(std::vector<int>{0,-1,SIGUSR1,SIGKILL,SIGWINCH,1000}):SIGS[j]; int r=shl_pty_signal(q->p,sig); c.log("signal %d to pty %d -> %d",sig,i,r); if(bad){ if(r>=0) fail("shl_pty_signal(%d) returned %d",sig,r); } else { if(r) fail("shl_pty_signal(%d) returned %d",sig,r); sg[i][j]++; } c.mix(sig); for(int k=0;k<n;k++){ auto&qq=g.q[k]; int rr=shl_pty_write(qq->p,"G",1); if(rr||shl_pty_bridge_dispatch_pty(g.br,qq->p)<0) fail("shl_pty_write returned %d",rr); want[k]+=fmt("G%d,%d,%d;",sg[k][0],sg[k][1],sg[k][2]); } check(); } c.label("signals"); break; }
      default: { uint32_t m=size(), sd=t.raw(2); uint16_t ch=1+t.u(t.chance(128)?100:60000); if(m/ch>3000) ch=m/3000+1; c.log("child of pty %d prints %u bytes in chunks of %u",i,m,ch); std::string s="P"; s.append((char*)&m,4); s.append((char*)&sd,4); s.append((char*)&ch,2); send(s); want[i]+=blob(sd,m); c.mix(m*3+1); if(m>8192) big=true; } }
    if(t.chance(150)) check(); }
  check(); if(big) c.nontrivial();
  shl_pty_bridge_remove(g.br,g.q[0]->p); shl_pty_ref(g.q[0]->p); shl_pty_unref(g.q[0]->p); shl_pty_close(g.q[0]->p); if(shl_pty_is_open(g.q[0]->p)||shl_pty_get_fd(g.q[0]->p)>=0) fail("a closed pty is still open"); if(shl_pty_write(g.q[0]->p,"x",1)>=0||shl_pty_resize(g.q[0]->p,1,1)>=0||shl_pty_signal(g.q[0]->p,SIGINT)>=0) fail("a closed pty accepts data"); }
  if(vt_live!=live) fail("%ld allocation(s) live after releasing the ptys",vt_live-live); }
void run_case(Case&c){ static int isreal=-1; if(c.t.chance(10)) realcase(c); else simcase(c); }
