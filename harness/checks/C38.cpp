#include "script.h"
#include "app.h"
#include "forked.h"
#include <unistd.h>
const CheckInfo CHECK={"C38","command lines of the example program with every option, valid, invalid, missing and repeated values, run on its main function with stand-ins for the GTK application and window classes; then events on the window: sizes, output of the child with titles, keys, ends of the child, closing; and the child's side of the start with random environments. Exit status, messages, windows, properties of the terminal, titles, the program executed and its environment are compared with a model. Non-trivial: a window was made with at least one option, or a wrong command line was refused",4000,60000};
extern char **environ;
static std::string take(char*p){ std::string s=p?p:"(none)"; free(p); return s; }
static void one(Case&c){ Tape&t=c.t; unsetenv("DBUS_SESSION_BUS_ADDRESS"); long live=vt_live; bool good=false;
  struct G{ ~G(){ a_clear(); } } guard;
  {
    // ---- a command line and what it asks for ----
    std::vector<std::string> av={"gtktsm"}; std::string font="Monospace",aa="default",sub="default"; unsigned sb=2000; bool dirty=false,debug=false,version=false,broken=false; int given=0; std::vector<std::string> shown;
    auto opt=[&](const std::string&n,const std::string&v){ if(v.size()&&v[0]!='-'&&t.chance(100)){ av.push_back("--"+n); av.push_back(v); } else av.push_back("--"+n+"="+v); given++; };
    auto o=t.loop(0,6); while(t.more(o)) switch(t.weighted({12,14,14,14,6,3,1,1,1})){
      case 0: font=t.of(std::vector<std::string>{"Monospace 7","Monospace 9","DejaVu Sans Mono 6","Sans 8","Monospace Bold 7","Monospace Italic 6","no such font 7"}); opt("font",font); break;
      case 1: { int k=t.weighted({20,20,6,6,3,3}); std::string v; long n=0; if(k==0) n=t.u(40); else if(k==1) n=t.u(100000); else if(k==2) n=-1-(long)t.u(50); else if(k==3) n=0x7fffffff-(long)t.u(2); else if(k==4) n=-(long)0x7ffffff0+(long)t.u(2); v=fmt("%ld",n); if(k==5){ v=t.of(std::vector<std::string>{"x","12x","99999999999","","1.5"}); broken=true; } opt("sb-size",v); if(k!=5) sb=n<0?0:n; break; }
      case 2: aa=t.of(std::vector<std::string>{"none","gray","subpixel","default","grey","","Gray","nonesuch","non","default "}); opt("anti-aliasing",aa); break;
      case 3: sub=t.of(std::vector<std::string>{"rgb","bgr","vrgb","vbgr","default","RGB","","rgbx","grb","v"}); opt("subpixel-order",sub); break;
      case 4: if(t.u(2)){ av.push_back("--show-dirty"); dirty=true; } else { av.push_back("--debug"); debug=true; } given++; break;
      case 5: av.push_back("--version"); version=true; break;
      case 6: av.push_back(t.of(std::vector<std::string>{"--nope","--fonts","-x","--sb_size=3"})); broken=true; break;
      case 7: // an option without its value
        av.push_back(t.of(std::vector<std::string>{"--font","--sb-size","--anti-aliasing","--subpixel-order"})); { bool last=true; if(last){ /* nothing may follow */ } } broken=true; goto ready;
      default: break; }
    ready:; bool bad=false; static const std::set<std::string> A={"none","gray","subpixel","default"},S={"rgb","bgr","vrgb","vbgr","default"}; std::string wrong; if(!A.count(aa)){ bad=true; wrong=aa; } else if(!S.count(sub)){ bad=true; wrong=sub; }
    int child=t.chance(60); std::string sh="/nonexistent/"+std::string(1,'a'+t.u(26)); bool hassh=!t.chance(60); if(hassh) setenv("SHELL",sh.c_str(),1); else unsetenv("SHELL"); int et=t.u(4); if(et==0) unsetenv("TERM"); else setenv("TERM",et==1?"linux":et==2?"":"xterm",1); if(t.u(2)) unsetenv("COLORTERM"); else setenv("COLORTERM",t.u(2)?"truecolor":"",1); std::string extra=fmt("%u",t.u(1000)); setenv("VT_EXTRA",extra.c_str(),1);
    std::map<std::string,std::string> env; for(char**e=environ;*e;e++){ std::string s=*e; size_t k=s.find('='); env[s.substr(0,k)]=s.substr(k+1); } env["TERM"]="xterm-256color"; env["COLORTERM"]="gtktsm";
    std::string line; std::vector<char*> cv; for(auto&s:av){ line+=(line.empty()?"":" ")+(s.find(' ')==std::string::npos&&s.size()?s:"'"+s+"'"); cv.push_back((char*)s.c_str()); } int n=cv.size(); cv.push_back(nullptr); c.mix(line); c.mix(child); c.log("%s%s [SHELL %s, TERM %s]",line.c_str(),child?" (on the child's side)":"",hassh?sh.c_str():"unset",getenv("TERM")?getenv("TERM"):"unset");
    int r=a_run(n,cv.data(),child); std::string out=take(a_out()),err=take(a_err()); if(w_err) fail("%s: %s",line.c_str(),w_errmsg); if(a_apps_left()) fail("%s: the application object is left behind",line.c_str()); int open=0; for(int i=0;i<a_wins();i++) open+=a_win(i)->open; struct Exec*ex=a_exec();
    setenv("TERM","dumb",1);
    if(broken||(!version&&bad)){ if(r<=0) fail("%s: exit status %d for a wrong command line",line.c_str(),r); if(open) fail("%s: a wrong command line leaves a window",line.c_str()); if(ex->called||w_ptys_left()) fail("%s: a wrong command line starts a child",line.c_str()); if(err.empty()) fail("%s: a wrong command line is refused without a message",line.c_str()); if(!broken&&wrong.size()&&err.find(wrong)==std::string::npos) fail("%s: the message does not name the wrong value: %s",line.c_str(),err.c_str()); c.label(broken?"unparsable":"invalid value"); good=true; goto end; }
    if(r) fail("%s: exit status %d, \"%s\"",line.c_str(),r,esc(err).c_str());
    if(version){ if(out.empty()||out.back()!='\n') fail("%s: no version is printed",line.c_str()); if(a_wins()||w_ptys_left()) fail("%s: asking for the version opens a window",line.c_str()); c.label("version"); goto end; }
    if(a_wins()!=1||open!=1) fail("%s: %d windows made, %d open",line.c_str(),a_wins(),open); struct Win*win=a_win(0); if(!win->w) fail("%s: the window has no terminal",line.c_str()); struct W*w=win->w;
    auto str=[&](const char*p,const std::string&v){ std::string g=take(w_get_str(w,p)); if(g!=v) fail("%s: %s is \"%s\", expected \"%s\"",line.c_str(),p,g.c_str(),v.c_str()); }; str("font",font); str("anti-aliasing",aa); str("subpixel-order",sub); if(w_get_uint(w,"sb-size")!=sb) fail("%s: sb-size is %u, expected %u",line.c_str(),w_get_uint(w,"sb-size"),sb); if(w_get_bool(w,"show-dirty")!=dirty) fail("%s: show-dirty is %d",line.c_str(),!dirty); if(w_get_bool(w,"debug")!=debug) fail("%s: debug is %d",line.c_str(),!debug);
    if(given) good=true;
    if(child){ if(ex->called!=1) fail("%s: the child executes %d programs",line.c_str(),ex->called); std::string want=hassh?sh:"/bin/sh"; if(want!=ex->path) fail("the child executes %s, expected %s",ex->path,want.c_str()); if(!ex->argv[0]||ex->argv[1]||want!=ex->argv[0]) fail("the child's arguments are %s %s",ex->argv[0]?ex->argv[0]:"-",ex->argv[0]&&ex->argv[1]?ex->argv[1]:""); std::map<std::string,std::string> got; for(char**e=ex->envp;*e;e++){ std::string s=*e; size_t k=s.find('='); if(got.count(s.substr(0,k))) fail("the child's environment has %s twice",s.substr(0,k).c_str()); got[s.substr(0,k)]=s.substr(k+1); } if(got!=env){ for(auto&e:env) if(!got.count(e.first)||got[e.first]!=e.second) fail("the child's %s is \"%s\", expected \"%s\"",e.first.c_str(),got.count(e.first)?got[e.first].c_str():"(unset)",e.second.c_str()); fail("the child's environment has %zu variables, expected %zu",got.size(),env.size()); } if(w_pty(w)&&w_pty(w)->bridged) fail("the child watches its own terminal"); c.label("child's side"); goto end; }
    if(ex->called||ex->exited) fail("%s: the parent executes a program",line.c_str()); if(win->presented!=1) fail("%s: the window is presented %d times",line.c_str(),win->presented); struct WPty*p=w_pty(w); if(!p||!p->open||!p->bridged) fail("%s: no child is started",line.c_str()); if(win->title) fail("%s: the window has a title before its child sent one: %s",line.c_str(),win->title);
    // ---- life of the window ----
    std::string title; bool titled=false; auto ll=t.loop(1,10); bool gone=false; while(!gone&&t.more(ll)) switch(t.weighted({20,20,14,6,8,4})){
      case 0: { std::string s; int k=t.u(3); std::string x; int m=t.u(12); for(int i=0;i<m;i++) x+=t.chance(40)?"\u00e4":std::string(1,' '+t.u(90)); if(k<2){ s="\x1b]2;"+x+"\a"; title=x; titled=true; } else s="\x1b]"+t.of(std::vector<std::string>{"0;","4;","20;","2"})+x+"\a"; if(k==2&&s.substr(0,4)=="\x1b]2;") { title=s.substr(4,s.size()-5); titled=true; } c.mix(s); c.log("child writes \"%s\"",esc(s).c_str()); w_feed(w,s.data(),s.size()); break; }
      case 1: { std::string s=gen::text(t,20); w_feed(w,s.data(),s.size()); break; }
      case 2: { int x=1+t.u(200),y=1+t.u(100); c.log("configure %dx%d",x,y); w_configure(w,x,y); std::vector<uint32_t> px((size_t)x*y); w_draw(w,x,y,px.data()); break; }
      case 3: w_key(w,'a'+t.u(26),0,1,'a',0,0); break;
      case 4: c.log("the child ends"); w_child_exit(w); gone=true; c.label("ended by the child"); break;
      default: c.log("the window is closed"); a_close(0); gone=true; c.label("closed"); break; }
    if(w_err) fail("%s",w_errmsg); if(titled?(!win->title||title!=win->title):!!win->title) fail("the window's title is \"%s\", expected %s\"%s\"",win->title?esc(win->title).c_str():"(none)",titled?"":"none",esc(title).c_str());
    if(gone){ if(win->destroyed!=1||win->open) fail("the window %s after its end",win->open?"is still there":"was not closed"); if(w_alive(w)) fail("the terminal is left behind by its window"); if(w_ptys_left()) fail("the window leaves its pty behind"); } else { if(!win->open||win->destroyed) fail("the window is gone"); if(!p->open) fail("the child lost its terminal"); a_close(0); if(win->open||w_alive(w)||w_ptys_left()) fail("closing the window leaves its terminal or pty behind"); } w_spin(w); if(w_err) fail("%s",w_errmsg); }
  end: a_clear(); if(vt_live!=live) fail("%ld allocation(s) left behind",vt_live-live); if(good) c.nontrivial(); }
void run_case(Case&c){ in_own_process(c,one); }
