// Run the body of a case in a process of its own, for code that keeps state in statics.
#pragma once
#include "rt.h"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
inline void in_own_process(Case&c,const std::function<void(Case&)>&body){
  int pp[2]; if(pipe(pp)) abort(); fflush(nullptr); pid_t p=fork(); if(p<0) abort();
  if(!p){ close(pp[0]); int rc=0; std::string msg; try { body(c); } catch(const Violation&v){ rc=77; msg=v.what(); }
    FILE*f=fdopen(pp[1],"w"); auto str=[&](const std::string&s){ uint64_t n=s.size(); fwrite(&n,8,1,f); fwrite(s.data(),1,n,f); }; auto num=[&](uint64_t x){ fwrite(&x,8,1,f); };
    num(0x600d); num(rc); str(msg); num(c.h); num(c.nontriv); num(c.t.pos); str(c.trace); num(c.labels.size()); for(auto&l:c.labels) str(l.first); for(auto q:c.t.spanStack) c.t.spans.push_back({q,c.t.pos}); num(c.t.spans.size()); for(auto&s:c.t.spans){ num(s.first); num(s.second); } fclose(f); fflush(nullptr); _exit(0); }
  close(pp[1]); std::string all; char b[65536]; ssize_t n; while((n=read(pp[0],b,sizeof b))>0) all.append(b,n); close(pp[0]); int st; while(waitpid(p,&st,0)<0);
  size_t i=0; auto num=[&](){ uint64_t x=0; if(i+8<=all.size()) memcpy(&x,all.data()+i,8); i+=8; return x; }; auto str=[&](){ uint64_t k=num(); std::string s=i<=all.size()?all.substr(i,k):""; i+=k; return s; };
  if(num()!=0x600d){ if(WIFSIGNALED(st)){ fflush(nullptr); signal(WTERMSIG(st),SIG_DFL); raise(WTERMSIG(st)); _exit(70); } if(WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); fail("the process exited in the middle of the case"); }
  int rc=num(); std::string msg=str(); c.h=num(); c.nontriv=num(); c.t.pos=num(); c.trace=str(); uint64_t k=num(); while(k--) c.labels[str()]=1; k=num(); c.t.spans.clear(); c.t.spanStack.clear(); while(k--){ uint32_t a=num(); uint32_t e=num(); c.t.spans.push_back({a,e}); } if(rc) throw Violation(msg); }
