// Search driver: workers, crash survival, shrinking, replay, evidence.
#include "rt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <unordered_set>
#include <dirent.h>
#include "alloc.h"

std::string vfmt(const char*f, va_list a){ va_list b; va_copy(b,a); int n=vsnprintf(nullptr,0,f,b); va_end(b); std::string s(n>0?n:0,0); if(n>0) vsnprintf(&s[0],n+1,f,a); return s; }
std::string fmt(const char*f,...){ va_list a; va_start(a,f); auto s=vfmt(f,a); va_end(a); return s; }
std::string esc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c==0x1b) o+="\\e"; else if(c=='\\') o+="\\\\"; else if(c>=32&&c<127) o+=c; else o+=fmt("\\x%02x",c);} return o; }
void fail(const char*f,...){ va_list a; va_start(a,f); auto s=vfmt(f,a); va_end(a); throw Violation(s); }
void Case::log(const char*f,...){ if(!verbose) return; va_list a; va_start(a,f); auto s=vfmt(f,a); va_end(a); if(out){ fprintf(out,"  %s\n",s.c_str()); fflush(out);} trace+=s; trace+="\n"; }

struct Shm { uint32_t len; uint32_t pos; volatile long cur; volatile long done; volatile long nontriv; volatile int fin; uint32_t nspans; char msg[4096]; std::pair<uint32_t,uint32_t> spans[65536]; uint8_t buf[Tape::CAP]; };
static Shm* newshm(){ void*p=mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED){perror("mmap");_exit(2);} return (Shm*)p; }

static uint64_t strh(const char*s){ uint64_t h=1469598103934665603ull; while(*s){ h^=(unsigned char)*s++; h*=1099511628211ull;} return h; }
static long CPU_LIMIT=10;
static Shm*g_shm;
static void on_cpu(int){ const char m[]="call did not return within the CPU-time limit"; memcpy(g_shm->msg,m,sizeof m); _exit(78); }
static void arm(){ struct itimerval it={{0,0},{CPU_LIMIT,0}}; setitimer(ITIMER_VIRTUAL,&it,nullptr); }
static bool g_thorough;

// 0 ok, 77 violation
static int run_one(Shm*s, bool gen, uint64_t seed, Case**outc, bool verbose, FILE*out, std::map<std::string,long>*labels, std::unordered_set<uint64_t>*seen, std::string*trace, bool*nontriv){
  Tape t(s->buf,&s->len,gen,seed); Case c(t,verbose,g_thorough); c.out=out; int rc=0; s->msg[0]=0;
  arm();
  try { run_case(c); }
  catch(const Violation&v){ snprintf(s->msg,sizeof s->msg,"%s",v.what()); rc=77; }
  // spans
  for(auto p:t.spanStack) t.spans.push_back({p,t.pos});
  s->pos=t.pos; s->nspans=0; for(auto&p:t.spans) if(s->nspans<65536) s->spans[s->nspans++]=p;
  if(labels) for(auto&l:c.labels) (*labels)[l.first]++;
  if(seen && c.nontriv) seen->insert(c.h);
  if(nontriv) *nontriv=c.nontriv;
  if(trace) *trace=c.trace;
  return rc;
}
static uint64_t case_seed(uint64_t seed,long i){ Rng r(seed*0x9E3779B97F4A7C15ull ^ strh(CHECK.id) ^ ((uint64_t)i*0xD1342543DE82EF95ull)); r.next(); return r.next(); }

// A process that ended without reaching the end of its work, exit code 0 or not, was ended from inside the code under test.
static int status_code(Shm*s,int st){ if(WIFEXITED(st)){ int rc=WEXITSTATUS(st); if(!rc&&!s->fin){ snprintf(s->msg,sizeof s->msg,"the process exited in the middle of the case"); rc=76; } return rc; } return 128+WTERMSIG(st); }
static bool is_fail(int rc){ return rc!=0; }

// run a replay tape in a child; returns code
static int child_replay(Shm*s,const std::vector<uint8_t>&tape,const char*errfile,bool verbose){
  if(!tape.empty()) memcpy(s->buf,tape.data(),tape.size()); s->len=tape.size(); s->msg[0]=0; s->nspans=0; s->pos=tape.size(); s->fin=0;
  fflush(stdout); fflush(stderr);
  pid_t p=fork(); if(p<0){perror("fork");_exit(2);} 
  if(p==0){ g_shm=s; int fd=open(errfile?errfile:"/dev/null",O_WRONLY|O_CREAT|O_APPEND,0644); dup2(fd,2); if(!verbose){ int n=open("/dev/null",O_WRONLY); dup2(n,1);} 
    FILE*out=nullptr; if(verbose) out=fdopen(dup(fd),"a");
    int rc=run_one(s,false,0,nullptr,verbose,out,nullptr,nullptr,nullptr,nullptr); fflush(nullptr); s->fin=1; _exit(rc); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); 
  return status_code(s,st);
}
// run cases a, a+step, .., b of a search one after another in one child: failures that need state left behind by earlier cases
static int child_history(Shm*s,uint64_t seed,long a,long step,long b,const char*errfile){
  s->msg[0]=0; s->fin=0; fflush(stdout); fflush(stderr); pid_t p=fork(); if(p<0){perror("fork");_exit(2);}
  if(p==0){ g_shm=s; int fd=open(errfile?errfile:"/dev/null",O_WRONLY|O_CREAT|O_APPEND,0644); dup2(fd,2); int n=open("/dev/null",O_WRONLY); dup2(n,1); 
    for(long i=a;i<=b;i+=step){ int rc=run_one(s,true,case_seed(seed,i),nullptr,false,nullptr,nullptr,nullptr,nullptr,nullptr); if(rc) _exit(rc); } s->fin=1; _exit(0); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); return status_code(s,st);
}
static std::vector<uint8_t> shrink(Shm*s,std::vector<uint8_t> best,int budget,double secs){
  auto t0=time(nullptr); auto spans=std::vector<std::pair<uint32_t,uint32_t>>();
  auto attempt=[&](const std::vector<uint8_t>&c)->bool{ if(budget--<=0||time(nullptr)-t0>secs) return false; int rc=child_replay(s,c,nullptr,false); if(is_fail(rc)){ best=c; if(s->pos<best.size() && rc==77) best.resize(s->pos); if(s->nspans) spans.assign(s->spans,s->spans+s->nspans); else spans.clear(); return true;} return false; };
  attempt(best);
  bool prog=true; 
  while(prog&&budget>0&&time(nullptr)-t0<=secs){ prog=false;
    // whole-span deletions, large to small groups
    for(size_t g=std::max<size_t>(1,spans.size()/2);;g/=2){ 
      for(size_t i=spans.size(); i>0&&budget>0;){ size_t hi=i, lo=hi>g?hi-g:0; 
        if(hi>spans.size()){ i=spans.size(); if(!i)break; continue; }
        std::vector<bool> del(best.size(),false); bool any=false; for(size_t k=lo;k<hi;k++) for(uint32_t b=spans[k].first;b<spans[k].second&&b<best.size();b++){ del[b]=true; any=true; }
        bool ok=false; if(any){ std::vector<uint8_t> c; for(size_t b=0;b<best.size();b++) if(!del[b]) c.push_back(best[b]); ok=attempt(c); }
        if(ok) prog=true; i=lo; }
      if(g<=1) break; }
    if(spans.empty()) for(size_t g=best.size()/2; g>0; g/=2) for(size_t i=0;i+g<=best.size()&&budget>0;){ auto c=best; c.erase(c.begin()+i,c.begin()+i+g); if(attempt(c)) prog=true; else i+=g; }
    for(size_t i=0;i<best.size()&&budget>0;i++){ if(!best[i]) continue; uint8_t o=best[i]; auto c=best; c[i]=0; if(attempt(c)){prog=true;continue;} 
      for(uint8_t v: {(uint8_t)(o/2),(uint8_t)(o-1)}){ if(i>=best.size()||v>=o||!v) break; c=best; c[i]=v; if(attempt(c)){prog=true;break;} } }
  }
  return best;
}
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>=127) o+=fmt("\\u%04x",c); else o+=c;} return o; }

#ifdef VT_LIBFUZZER
static long fz_cases;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*d,size_t n){
  static Shm*s=nullptr; if(!s){ s=newshm(); g_shm=s; g_thorough=true; }
  if(n>Tape::CAP) return 0; if(n) memcpy(s->buf,d,n); s->len=n; Tape t(s->buf,&s->len,false,0); Case c(t,false,true);
  try{ run_case(c);}catch(const Violation&v){ fprintf(stderr,"ORACLE: %s\n",v.what()); abort(); }
  fz_cases++; return c.nontriv?0:0; }
#else
int main(int argc,char**argv){
  uint64_t seed=1; std::string tier="quick",evid,replaydir="/tmp",replay; long cases=-1; int jobs=8; bool vprint=false;
  std::vector<std::string> assume; std::string emit,trydir; long fuzzed=0;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--tier") tier=nx(); else if(a=="--evidence") evid=nx(); else if(a=="--replays") replaydir=nx();
    else if(a=="--replay") replay=nx(); else if(a=="--cases") cases=atol(nx().c_str()); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="-v") vprint=true; else if(a=="--emit") emit=nx(); else if(a=="--try") trydir=nx(); else if(a=="--fuzzed") fuzzed=atol(nx().c_str()); else if(a=="--assume") assume.push_back(nx()); else if(a=="--cpu") CPU_LIMIT=atol(nx().c_str()); }
  g_thorough = tier=="thorough"; signal(SIGVTALRM,on_cpu);
  struct timespec ts0; clock_gettime(CLOCK_MONOTONIC,&ts0);
  if(cases<0) cases = g_thorough?CHECK.thorough:CHECK.quick;
  if(!emit.empty()){ Shm*s=newshm(); g_shm=s; for(long i=0;i<cases;i++){ pid_t p=fork(); if(p==0){ int n=open("/dev/null",O_WRONLY); dup2(n,2); int rc=run_one(s,true,case_seed(seed,i),nullptr,false,nullptr,nullptr,nullptr,nullptr,nullptr); if(!rc&&s->len<=4096){ FILE*f=fopen((emit+fmt("/c%ld",i)).c_str(),"wb"); if(f){ fwrite(s->buf,1,s->len,f); fclose(f);} } _exit(0);} int st; waitpid(p,&st,0);} return 0; }
  if(!replay.empty()){ long long hs; long h0,h1,h2; { FILE*f=fopen(replay.c_str(),"rb"); if(!f){perror(replay.c_str());return 2;} bool ish=fscanf(f,"VTHIST %lld %ld %ld %ld",&hs,&h0,&h1,&h2)==4; fclose(f); if(ish){ Shm*s=newshm(); int rc=child_history(s,hs,h0,h1,h2,"/dev/stderr"); if(is_fail(rc)){ printf("replay of cases %ld,%ld..%ld in one process: %s (code %d)\nVIOLATION property=%s replay=%s\n",h0,h0+h1,h2,s->msg,rc,CHECK.id,replay.c_str()); return 1;} printf("replay: holds\n"); return 0; } }
    FILE*f=fopen(replay.c_str(),"rb"); if(!f){perror(replay.c_str());return 2;} std::vector<uint8_t> b(Tape::CAP); size_t n=fread(b.data(),1,b.size(),f); b.resize(n); fclose(f);
    Shm*s=newshm(); int rc=child_replay(s,b,"/dev/stderr",true); if(is_fail(rc)){ printf("replay: %s (code %d)\nVIOLATION property=%s replay=%s\n",s->msg,rc,CHECK.id,replay.c_str()); return 1;} printf("replay: holds\n"); return 0; }
  std::vector<Shm*> shm; std::vector<pid_t> pid(jobs,0); std::vector<int> fds(jobs,-1); std::vector<long> startidx(jobs); std::vector<std::string> errf(jobs);
  char tmpl[]="/tmp/vtdrvXXXXXX"; std::string tmp=mkdtemp(tmpl);
  fflush(stdout);
  for(int w=0;w<jobs;w++){ Shm*s=newshm(); shm.push_back(s); s->cur=-1; int pp[2]; if(pipe(pp)) return 2; errf[w]=tmp+fmt("/err%d",w);
    pid_t p=fork(); if(p==0){ close(pp[0]); for(int o=0;o<w;o++) if(fds[o]>=0) close(fds[o]); g_shm=s; int e=open(errf[w].c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(e,2);
      std::map<std::string,long> labels; std::unordered_set<uint64_t> seen; int rc=0; 
      for(long i=w;i<cases;i+=jobs){ s->cur=i; rc=run_one(s,true,case_seed(seed,i),nullptr,false,nullptr,&labels,&seen,nullptr,nullptr); if(rc) break; s->done=s->done+1; }
      s->nontriv=seen.size(); FILE*f=fdopen(pp[1],"w"); for(auto&l:labels) fprintf(f,"L %ld %s\n",l.second,l.first.c_str()); for(auto x:seen) fprintf(f,"H %016llx\n",(unsigned long long)x); fclose(f); fflush(nullptr); s->fin=1; _exit(rc); }
    if(p<0){perror("fork");return 2;} close(pp[1]); fds[w]=pp[0]; pid[w]=p; }
  std::map<std::string,long> labels; std::unordered_set<uint64_t> seen; 
  int failw=-1, failrc=0; long failidx=-1;
  // drain all workers; a failing one stops, the others go on unless we stop them
  std::vector<FILE*> fp(jobs); for(int w=0;w<jobs;w++) fp[w]=fdopen(fds[w],"r");
  // collect: read pipes sequentially (workers only write at the end; each blocks until read)
  std::vector<bool> live(jobs,true);
  std::vector<int> rcs(jobs,0);
  for(int w=0;w<jobs;w++){ char line[512]; while(fgets(line,sizeof line,fp[w])){ if(line[0]=='L'){ long n; int off=0; if(sscanf(line,"L %ld %n",&n,&off)==1){ std::string k=line+off; while(k.size()&&k.back()=='\n')k.pop_back(); labels[k]+=n; } } else if(line[0]=='H') seen.insert(strtoull(line+2,0,16)); }
    fclose(fp[w]); int st; while(waitpid(pid[w],&st,0)<0&&errno==EINTR); rcs[w]=status_code(shm[w],st);
    if(rcs[w]!=0 && (failidx<0 || shm[w]->cur<failidx)){ failidx=shm[w]->cur; failw=w; failrc=rcs[w]; }
  }
  long total=0; for(auto s:shm) total+=s->done; if(failw>=0) total++;
  int viol=0; std::string vline, vmsg; int trytape=-1;
  if(failw<0&&!trydir.empty()){ if(DIR*d=opendir(trydir.c_str())){ std::vector<std::string> fs; while(auto e=readdir(d)) if(e->d_name[0]!='.') fs.push_back(e->d_name); closedir(d); std::sort(fs.begin(),fs.end());
      for(auto&n:fs){ FILE*f=fopen((trydir+"/"+n).c_str(),"rb"); std::vector<uint8_t> b(Tape::CAP); size_t k=fread(b.data(),1,b.size(),f); b.resize(k); fclose(f); int rc=child_replay(shm[0],b,nullptr,false); total++; if(is_fail(rc)){ failw=0; failrc=rc; failidx=cases+(long)(&n-&fs[0]); trytape=0; memcpy(shm[0]->buf,b.data(),b.size()); shm[0]->len=b.size(); break; } else printf("fuzzer candidate %s: holds\n",n.c_str()); } } }
  if(failw>=0&&getenv("VT_NOSHRINK")){ printf("FAILS case %ld code %d %s\n",failidx,failrc,shm[failw]->msg); return 1; }
  if(failw>=0){
    Shm*s=shm[failw]; std::vector<uint8_t> tape(s->buf,s->buf+s->len); vmsg=s->msg;
    Shm*r=newshm();
    int rc=child_replay(r,tape,nullptr,false); bool hist=false;
    if(!is_fail(rc)){ fprintf(stderr,"case %ld failed (code %d: %s) but does not fail alone; replaying the worker's history\n",failidx,failrc,s->msg);
      long a=failw; int again=0; 
      if(failidx>=0&&failidx<cases&&trytape<0){ for(int k=0;k<2;k++) again+=is_fail(child_history(r,seed,a,jobs,failidx,nullptr));
        if(again==2){ hist=true; for(long k=1;failidx-k*jobs>a;k*=2) if(is_fail(child_history(r,seed,failidx-k*jobs,jobs,failidx,nullptr))){ a=failidx-k*jobs; break; }
          mkdir(replaydir.c_str(),0755); std::string path=replaydir+"/"+CHECK.id+fmt("-seed%llu-hist%ld.tape",(unsigned long long)seed,failidx); FILE*f=fopen(path.c_str(),"wb"); if(!f){perror(path.c_str()); return 2;} fprintf(f,"VTHIST %llu %ld %d %ld\n",(unsigned long long)seed,a,jobs,failidx); fclose(f);
          vmsg=fmt("cases %ld,%ld..%ld run in one process: %s",a,a+jobs,failidx,r->msg); vline=fmt("VIOLATION property=%s replay=%s",CHECK.id,path.c_str()); viol=1; } }
      if(!hist){ fprintf(stderr,"not reproducible: no verdict from this case\n"); FILE*f=fopen(errf[failw].c_str(),"r"); char b[4096]; size_t n; while(f&&(n=fread(b,1,sizeof b,f))>0) fwrite(b,1,n,stderr); if(f)fclose(f); return 2; } }
    if(!hist){
    auto best=shrink(r,tape,4000, failrc==78?40:90);
    int ok=0; for(int k=0;k<3;k++) ok+=is_fail(child_replay(r,best,nullptr,false));
    if(ok<3) { best=tape; ok=0; for(int k=0;k<3;k++) ok+=is_fail(child_replay(r,best,nullptr,false)); }
    if(ok<3){ fprintf(stderr,"failure is not deterministic\n"); return 2; }
    mkdir(replaydir.c_str(),0755); std::string path=replaydir+"/"+CHECK.id+fmt("-seed%llu-case%ld.tape",(unsigned long long)seed,failidx);
    FILE*f=fopen(path.c_str(),"wb"); if(!f){perror(path.c_str()); return 2;} fwrite(best.data(),1,best.size(),f); fclose(f);
    std::string txt=path+".txt"; unlink(txt.c_str()); int frc=child_replay(r,best,txt.c_str(),true); vmsg=r->msg; f=fopen(txt.c_str(),"a"); if(f){ fprintf(f,"result: code %d %s\n",frc,r->msg); fclose(f);} 
    f=fopen(txt.c_str(),"r"); if(f){ std::string all; char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))>0) all.append(b,n); fclose(f); if(all.size()>6000) all=all.substr(0,3000)+"\n...\n"+all.substr(all.size()-3000); printf("%s",all.c_str()); }
    vline=fmt("VIOLATION property=%s replay=%s",CHECK.id,path.c_str()); viol=1; }
  }
  // samples: regenerate a few non-trivial cases with a trace
  std::vector<std::string> samples; 
  if(!viol||true){ int pp[2]; if(pipe(pp)) return 2; Shm*s=newshm(); pid_t p=fork(); if(p==0){ close(pp[0]); g_shm=s; int e=open("/dev/null",O_WRONLY); dup2(e,2); dup2(e,1); FILE*f=fdopen(pp[1],"w"); int got=0; for(long i=0;i<cases&&i<60&&got<3;i++){ if(failidx>=0&&i==failidx) continue; std::string tr; bool nt=false; int rc=run_one(s,true,case_seed(seed,i),nullptr,true,nullptr,nullptr,nullptr,&tr,&nt); if(rc) break; if(nt){ if(tr.size()>1500) tr=tr.substr(0,1500)+"..."; std::string l=fmt("case %ld:\n",i)+tr; fprintf(f,"%s\n",jesc(l).c_str()); fflush(f); got++; } } fclose(f); _exit(0);} close(pp[1]); FILE*f=fdopen(pp[0],"r"); std::string all; char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))>0) all.append(b,n); fclose(f); int st; waitpid(p,&st,0); size_t i=0; while(i<all.size()){ size_t e=all.find('\n',i); if(e==std::string::npos)e=all.size(); if(e>i) samples.push_back(all.substr(i,e-i)); i=e+1; } }
  struct timespec ts1; clock_gettime(CLOCK_MONOTONIC,&ts1); double wall=(ts1.tv_sec-ts0.tv_sec)+(ts1.tv_nsec-ts0.tv_nsec)/1e9;
  if(!evid.empty()){ FILE*f=fopen(evid.c_str(),"w"); if(!f){perror(evid.c_str());return 2;} 
    fprintf(f,"{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\"coverage\":{\"evaluations\":%ld,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"classes\":{",CHECK.id,tier.c_str(),(unsigned long long)seed,total+fuzzed,seen.size(),jesc(CHECK.rule).c_str());
    if(fuzzed) labels["coverage-guided executions"]=fuzzed;
    bool first=true; for(auto&l:labels){ fprintf(f,"%s\"%s\":%ld",first?"":",",jesc(l.first).c_str(),l.second); first=false; }
    fprintf(f,"},\"samples\":["); first=true; for(auto&x:samples){ fprintf(f,"%s\"%s\"",first?"":",",x.c_str()); first=false; } if(samples.empty()) fprintf(f,"\"(no sample could be regenerated)\"");
    fprintf(f,"]},\"assumptions\":["); first=true; for(auto&x:assume){ fprintf(f,"%s\"%s\"",first?"":",",jesc(x).c_str()); first=false; }
    fprintf(f,"],\"wall_s\":%.2f,\"violations\":%d}\n",wall,viol); fclose(f); }
  printf("%s: %ld cases, %zu distinct non-trivial, %.1fs, seed %llu\n",CHECK.id,total,seen.size(),wall,(unsigned long long)seed);
  if(vprint) for(auto&l:labels) printf("   %-40s %ld\n",l.first.c_str(),l.second);
  for(int w=0;w<jobs;w++) unlink(errf[w].c_str()); rmdir(tmp.c_str());
  if(viol){ printf("%s\n",vmsg.c_str()); printf("%s\n",vline.c_str()); return 1; }
  return 0;
}
#endif
