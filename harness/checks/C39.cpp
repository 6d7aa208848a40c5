#include "play.h"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
const CheckInfo CHECK={"C39","random histories of all public calls, played on libtsm compiled with sanitizers and debugging aids and, in another process, on the shared library the project's own build makes with gcc in release mode; every function of the public header has to be found in that library, and the transcripts (screens with ages, cursor, modes, scrollback, copied text, replies, notifications and results) must be equal. Non-trivial: at least 12 results or pictures with text were compared",150000,1500000};
static pid_t owner,pid; static int in=-1,out=-1;
static void stop(){ if(in>=0) close(in); if(out>=0) close(out); in=out=-1; owner=0; }
static void start(){ if(owner==getpid()) return; if(owner) { close(in); close(out); } const char*p=getenv("VT_PLAYER"),*l=getenv("VT_PLAYERLIB"); if(!p||!l) { fprintf(stderr,"VT_PLAYER is not set\n"); _exit(2); } int a[2],b[2]; if(pipe2(a,O_CLOEXEC)||pipe2(b,O_CLOEXEC)) _exit(2); pid=fork(); if(!pid){ dup2(a[0],0); dup2(b[1],1); execl(p,p,l,(char*)0); _exit(2); } close(a[0]); close(b[1]); in=a[1]; out=b[0]; owner=getpid(); signal(SIGPIPE,SIG_IGN); }
static bool wr(const void*p,size_t n){ const char*q=(const char*)p; while(n){ ssize_t k=write(in,q,n); if(k<=0) return false; q+=k; n-=k; } return true; }
static bool rd(void*p,size_t n){ char*q=(char*)p; while(n){ struct pollfd f={out,POLLIN,0}; if(poll(&f,1,120000)<=0){ kill(pid,SIGKILL); return false; } ssize_t k=read(out,q,n); if(k<=0) return false; q+=k; n-=k; } return true; }
void run_case(Case&c){ std::string x=play(c),y; start(); uint32_t h[2]={std::min(c.t.pos,*c.t.len),(uint32_t)c.thorough},n; if(!wr(h,sizeof h)||!wr(c.t.buf,h[0])||!rd(&n,4)||(y.resize(n),!rd(&y[0],n))){ int st=0; waitpid(pid,&st,0); stop(); fail("the process that uses the shared library ended (%s %d)",WIFSIGNALED(st)?"signal":"status",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); }
  if(x!=y) fail("from sources versus shared library: %s",y.compare(0,18,"the shared library")?first_diff(x,y).c_str():y.c_str());
  if(std::count(x.begin(),x.end(),'\n')>=12) c.nontrivial(); if(x.find("event o")!=std::string::npos) c.label("command delivered"); if(x.find("event write")!=std::string::npos) c.label("reply or key"); if(x.find("copy ")!=std::string::npos&&x.find("copy -")==std::string::npos) c.label("selected text"); }
