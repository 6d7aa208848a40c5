#include "script.h"
#include <cerrno>
extern "C" { struct tsm_utf8_mach; int tsm_utf8_mach_new(struct tsm_utf8_mach**out); void tsm_utf8_mach_free(struct tsm_utf8_mach*m); char*tsm_ucs4_to_utf8_alloc(const uint32_t*,size_t,size_t*); struct tsm_symbol_table; int tsm_symbol_table_new(struct tsm_symbol_table**out); void tsm_symbol_table_unref(struct tsm_symbol_table*); uint32_t tsm_symbol_append(struct tsm_symbol_table*,uint32_t,uint32_t); const uint32_t*tsm_symbol_get(struct tsm_symbol_table*,uint32_t*,size_t*); }
const CheckInfo CHECK={"C24","(a) a call is chosen after a random history, its allocations are counted on a twin, and for each of them (and for all from that one on) the history is replayed and the call repeated with that allocation failing: creation, resize, scrolling output, palettes, copying and conversion must report failure or degrade as specified, leak nothing and leave the objects equal to before or to the success. (b) whole histories run under random failures, after which the terminal must still be consistent and, after a hard reset, equal a new one. Non-trivial: at least one allocation failed inside the call or history under test",90000,600000};
static long cnt=0,from=0,to=0; static bool on=false; static int sf(){ if(!on) return 0; cnt++; return cnt>=from&&cnt<=to; }
struct G{ G(){ on=false; vt_should_fail=sf; } ~G(){ on=false; vt_should_fail=nullptr; } };
static void arm(long f,long t){ cnt=0; from=f; to=t; on=true; } static long disarm(){ on=false; return cnt; }
static void small(Case&c){ Tape&t=c.t; long live=vt_live; int what=t.u(6); static const char*nm[]={"screen","terminal","decoder","table","conversion","symbols"}; c.label(nm[what]); c.mix(what); long k=1+t.u(what<2?8:4); bool all=t.chance(80); c.mix(k*2+all);
  struct tsm_screen*s=nullptr; struct tsm_vte*v=nullptr; if(what==1&&tsm_screen_new(&s,nullptr,nullptr)) fail("creation failed"); long l1=vt_live; long f0=vt_failed; int r=0; c.log("creating a %s with allocation %ld%s failing",nm[what],k,all?" and all later ones":"");
  if(what==0&&t.chance(160)) k=1+t.u(120); 
  switch(what){
    case 0: arm(k,all?1L<<40:k); r=tsm_screen_new(&s,nullptr,nullptr); disarm(); if(r){ if(vt_live!=l1) fail("failed screen creation leaves %ld allocation(s)",vt_live-l1); s=nullptr; } break;
    case 1: arm(k,all?1L<<40:k); r=tsm_vte_new(&v,s,[](struct tsm_vte*,const char*,size_t,void*){},nullptr,nullptr,nullptr); disarm(); if(r){ if(vt_live!=l1) fail("failed terminal creation leaves %ld allocation(s)",vt_live-l1); tsm_screen_resize(s,7,3); v=nullptr; } break;
    case 2: { struct tsm_utf8_mach*m=nullptr; arm(k,1L<<40); r=tsm_utf8_mach_new(&m); disarm(); if(!r) tsm_utf8_mach_free(m); break; }
    case 3: { struct tsm_symbol_table*m=nullptr; arm(k,all?1L<<40:k); r=tsm_symbol_table_new(&m); disarm(); if(r){ if(vt_live!=l1) fail("failed table creation leaves %ld allocation(s)",vt_live-l1); } else tsm_symbol_table_unref(m); break; }
    case 4: { uint32_t u[3]={'a',0xe9,0x4e00}; size_t n=77; arm(k,1L<<40); char*p=tsm_ucs4_to_utf8_alloc(u,3,&n); disarm(); r=p?0:-ENOMEM; if(p){ if(n!=6) fail("conversion gives %zu bytes",n); vt_free(p);} break; }
    default: { // a table under failing appends keeps every sequence apart
      struct tsm_symbol_table*m=nullptr; if(tsm_symbol_table_new(&m)) fail("creation failed"); std::map<std::vector<uint32_t>,uint32_t> seen; int n=10+t.u(150), p=10+t.u(120); for(int i=0;i<n;i++){ uint32_t b='a'+t.u(3), x=0x300+t.u(60); std::vector<uint32_t> q={b,x}; bool f=t.chance(p); long ff=vt_failed; if(f) arm(1+t.u(3),1+t.u(3)); uint32_t y=tsm_symbol_append(m,b,x); disarm(); if(y==b){ if(vt_failed==ff) fail("append failed without a failing allocation"); continue; } auto it=seen.find(q); if(it!=seen.end()&&it->second!=y) fail("U+%X U+%X gives symbol %#x, earlier %#x",b,x,y,it->second); seen[q]=y; }
      for(auto&e:seen){ uint32_t y=e.second; size_t z=0; const uint32_t*d=tsm_symbol_get(m,&y,&z); if(z!=2||d[0]!=e.first[0]||d[1]!=e.first[1]) fail("symbol %#x decomposes wrongly after failed appends",e.second); } tsm_symbol_table_unref(m); } }
  if(what<5){ if(r!=0&&r!=-ENOMEM) fail("creating a %s returned %d",nm[what],r); if((r!=0)!=(vt_failed!=f0)) fail("creating a %s returned %d although %ld allocation(s) failed",nm[what],r,vt_failed-f0); }
  if(vt_failed!=f0) c.nontrivial(); if(s&&!v&&what<2){ tsm_screen_draw(s,[](struct tsm_screen*,uint64_t,const uint32_t*,size_t,unsigned,unsigned,unsigned,const struct tsm_screen_attr*,tsm_age_t,void*)->int{ return 0; },nullptr); } if(v){ tsm_vte_input(v,"abc\n",4); tsm_vte_unref(v);} if(s) tsm_screen_unref(s); if(vt_live!=live) fail("%ld allocation(s) live after a failing creation of a %s",vt_live-live,nm[what]); }
static std::string visible(Sut&u){ SnapOpt so; so.sb=false; so.copy=false; so.ev=false; return snapshot(u,so); }
static void onecall(Case&c){ Tape&t=c.t; long live=vt_live; { int W,H; gen::dims(t,W,H,100); std::vector<Op> hist; Op o; o.k=Op::RESIZE; o.a=W; o.b=H; hist.push_back(o); o=Op(); o.k=Op::MAXSB; o.a=t.chance(60)?0:t.u(2*H+2); hist.push_back(o);
  Sut b(&c); b.tag="setup: "; if(!b.create()) fail("creation failed"); for(auto&p:hist) apply(b,p); auto l=t.loop(0,10); while(t.more(l)){ Op p=gen::op(t,b.w(),b.h(),gen::M_ALL&~gen::M_RESET); c.mix(p.str()); apply(b,p); hist.push_back(p); }
  Op x; int kind=t.weighted({40,25,15,15,5}); switch(kind){ case 0: x.k=Op::RESIZE; gen::dims(t,W,H,300); if(t.chance(100)) W=b.w(); if(t.chance(60)) H=b.h(); if(t.chance(50)){ W=1+t.u(b.w()); H=25+t.u(30); c.label("narrower and higher"); } x.a=W; x.b=H; break; case 1: x=gen::input(t.chance(128)?std::string(1+t.u(b.h()+3),'\n'):"\x18\r\n\n"+gen::text(t,20)+"\x1b[3S"); break; case 2: x.k=Op::PALETTE; x.s=t.of(gen::palettes()); break; case 3: x.k=Op::CUSTOM; x.b=t.u(200); x.c=t.u(256); break; default: x.k=Op::MAXSB; x.a=t.u(5); }
  bool copy=t.chance(60); static const char*nm[]={"resize","scrolling output","palette name","custom palette","scrollback limit"}; c.label(copy?"selection copy":nm[kind]); c.mix(copy?std::string("copy"):x.str());
  std::string before=visible(b); if(copy){ Op s1; s1.k=Op::SELSTART; s1.a=t.u(b.w()); s1.b=t.u(b.h()); Op s2; s2.k=Op::SELTARGET; s2.a=t.u(b.w()); s2.b=t.u(b.h()); if(t.chance(40)){ s2.k=Op::SELRESET; } apply(b,s1); apply(b,s2); hist.push_back(s1); hist.push_back(s2); if(t.chance(100)){ Op n=gen::input(std::string(1+t.u(2*b.h()),'\n')); apply(b,n); hist.push_back(n); if(t.chance(128)){ n=Op(); n.k=Op::CLEARSB; apply(b,n); hist.push_back(n); } } before=visible(b); }
  int sb0=b.sbcount(); b.ev.clear(); char*co=nullptr; arm(1,0); int rb= copy? tsm_screen_selection_copy(b.s,&co) : apply(b,x); long m=disarm(); std::string want=copy?std::string(co?co:""):""; if(co) vt_free(co); std::string after=visible(b); 
  if(m==0) return; long k=1+t.u(std::min(m,4000L)); int reps=m<=6?m:1+t.u(5); if(m<=6) k=1; 
  for(int i=0;i<reps;i++,k=m<=6?k+1:1+t.u(m)){ for(int all=0;all<2;all++){ Sut a(&c); a.tag=fmt("allocation %ld%s of %ld fails: ",k,all?"+":"",m); if(!a.create()) fail("creation failed"); bool vb=c.verbose; c.verbose=false; for(auto&p:hist) apply(a,p); c.verbose=vb; a.ev.clear(); long f0=vt_failed; char*out=nullptr; arm(k,all?1L<<40:k); int r=copy? tsm_screen_selection_copy(a.s,&out): apply(a,x); disarm(); if(vt_failed==f0) continue; c.nontrivial(); a.bounds(); std::string now=visible(a);
    if(copy){ if(r!=-ENOMEM&&!(r>=0&&out&&std::string(out,r)==want)){ bool had=out; if(r>=0&&out) vt_free(out); fail("selection copy with a failing allocation returned %d%s",r,r>=0&&!had?" but no text":""); } if(r>=0&&out) vt_free(out); if(now!=before) fail("a failed copy changed the screen: %s",first_diff(now,before).c_str()); }
    else switch(kind){
      case 0: if(r<0){ if(r!=-ENOMEM) fail("resize returned %d",r); if(now!=before) fail("a failed resize changed the terminal: %s",first_diff(before,now).c_str()); if(a.sbcount()!=sb0) fail("a failed resize changed the scrollback from %d to %d lines",sb0,a.sbcount()); 
          // the next resizes do what they would have done without the failed one
          if(t.chance(100)){ Sut d(&c); d.tag="never failed: "; c.label("followed by another resize"); if(x.b>24&&x.a<a.w()) c.label("narrow"); if(!d.create()) fail("creation failed"); c.verbose=false; for(auto&p:hist) apply(d,p); c.verbose=vb; int n=1+t.u(3); for(int j=0;j<n;j++){ Op y; y.k=Op::RESIZE; y.a=std::max(1,(t.chance(128)?a.w():W)+(int)t.range(-3,3)); y.b=std::max(1,(t.chance(128)?a.h():H)+(int)t.range(-3,6)); c.log("then resize to %ldx%ld",y.a,y.b); if(apply(a,y)!=apply(d,y)) fail("a resize after a failed one returns something else"); { Op z=gen::input(t.chance(128)?gen::soup(t,a.w(),a.h(),gen::M_CHARSET|gen::M_ALT|gen::M_SAVE):fmt("\x18\x1b[%d;%dHxyz",1+(int)t.u(a.h()),1+(int)t.u(a.w()))); apply(a,z); apply(d,z); } std::string p=visible(a),q=visible(d); if(p!=q) fail("a resize to %ldx%ld after a failed one differs from one without: %s",y.a,y.b,first_diff(p,q).c_str()); } a.draw(); break; }
          // and it works once memory is back
          if(apply(a,x)!=rb) fail("resize still fails with memory available"); now=visible(a); if(now!=after) fail("a repeated resize after a failed one differs from one that worked at once: %s",first_diff(now,after).c_str()); }
        else { // lines pushed off the top may be missing from the scrollback, never from the screen
          if(a.w()!=x.a||a.h()!=x.b) fail("resize reported success but the size is %dx%d",a.w(),a.h()); if(a.sbcount()>b.sbcount()&&i==0&&all==0&&b.sbcount()) fail("scrollback grew");
          tsm_screen_sb_reset(a.s); tsm_screen_sb_reset(b.s); std::string p=visible(a),q=visible(b); if(p!=q) fail("resize reported success under a failing allocation, versus without: %s",first_diff(p,q).c_str()); } break;
      case 1: { // lines may be lost from the scrollback, never from the screen
        tsm_screen_sb_reset(a.s); tsm_screen_sb_reset(b.s); std::string p=visible(a),q=visible(b); if(p!=q) fail("scrolling with a failing allocation versus without: %s",first_diff(p,q).c_str()); if(a.sbcount()>b.sbcount()) fail("scrollback grew"); break; }
      case 2: case 3: if(r!=-ENOMEM) fail("%s with a failing allocation returned %d",nm[kind],r); if(now!=before) fail("failing to set a palette changed the terminal: %s",first_diff(before,now).c_str()); break; }
    // still a working terminal
    apply(a,gen::input("\x18ok\r\n\n\n")); a.bounds(); a.draw(); } } }
  if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); }
static void soak(Case&c){ Tape&t=c.t; long live=vt_live; long f0=vt_failed; { Sut a(&c); if(!a.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,200); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; apply(a,o); long mx=t.u(2*H+2); o.k=Op::MAXSB; o.a=mx; apply(a,o); std::vector<Op> pal; int p=t.of(std::vector<int>{10,60,128,250});
  auto l=t.loop(3,30); while(t.more(l)){ Op q=gen::op(t,a.w(),a.h(),gen::M_ALL&~gen::M_SEL); c.mix(q.str()); if(q.k==Op::MAXSB) mx=q.a; int w0=a.w(),h0=a.h(); bool f=t.chance(p); long k=1+t.u(t.chance(128)?4:60); bool all=t.chance(128); if(f) arm(k,all?1L<<40:k); if(c.verbose&&f) c.log("allocation %ld%s fails in:",k,all?"+":""); int r=apply(a,q); disarm(); a.bounds(); if(q.k==Op::RESIZE&&r&&(a.w()!=w0||a.h()!=h0)) fail("a failed resize changed the size"); if((q.k==Op::PALETTE||q.k==Op::CUSTOM)&&r==0) pal.push_back(q); if(q.k==Op::BSDEL) pal.push_back(q); if(a.sbcount()>mx||a.sbpos()>a.sbcount()) fail("scrollback holds %d lines, position %d, maximum %ld",a.sbcount(),a.sbpos(),mx); a.draw(); a.ev.clear(); }
  o=Op(); o.k=Op::HARD; apply(a,o); Sut b(&c); b.tag="new: "; if(!b.create()) fail("creation failed"); o.k=Op::RESIZE; o.a=a.w(); o.b=a.h(); apply(b,o); o.k=Op::MAXSB; o.a=mx; apply(b,o); for(auto&q:pal) apply(b,q); apply(b,gen::input("\x1b[?47h\x1b[2J\x1b[?47l")); a.ev.clear(); b.ev.clear();
  auto l2=t.loop(1,8); while(t.more(l2)){ std::string x=snapshot(a),y=snapshot(b); a.ev.clear(); b.ev.clear(); if(x!=y) fail("after failures and a hard reset, versus a new terminal: %s",first_diff(x,y).c_str()); Op q=gen::op(t,a.w(),a.h(),gen::M_ALL&~gen::M_RESIZE); c.mix(q.str()); apply(a,q); apply(b,q); } }
  if(vt_failed!=f0) c.nontrivial(); c.label("history"); if(vt_live!=live) fail("%ld allocation(s) live at the end",vt_live-live); }
void run_case(Case&c){ G g; switch(c.t.weighted({50,25,30})){ case 0: onecall(c); break; case 1: small(c); break; default: soak(c); } }
