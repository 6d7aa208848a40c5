#include "world.h"
extern "C" { struct tsm_utf8_mach; int tsm_utf8_mach_new(struct tsm_utf8_mach**out); void tsm_utf8_mach_free(struct tsm_utf8_mach*m); int tsm_utf8_mach_feed(struct tsm_utf8_mach*m,char c); uint32_t tsm_utf8_mach_get(struct tsm_utf8_mach*m); void tsm_utf8_mach_reset(struct tsm_utf8_mach*m); 
 size_t tsm_ucs4_to_utf8(uint32_t ucs4,char*out); char*tsm_ucs4_to_utf8_alloc(const uint32_t*ucs4,size_t len,size_t*len_out); }
enum { START=0,ACCEPT=1,REJECT=2 };
const CheckInfo CHECK={"C13","byte strings built from well-formed characters of every length class and boundary, and from stray, missing, overlong, surrogate, out-of-range and random bytes: the decoder's output is judged against an independent splitter (well-formed characters come out as themselves, malformed pieces give only replacement characters and never ASCII or controls, synchronisation at the next character), encoding is inverted, and the same bytes are fed to a terminal next to the reference terminal. Non-trivial: the string holds both malformed pieces and multi-byte characters",120000,800000};
static uint32_t anychar(Tape&t){ switch(t.u(8)){ case 0: return t.u(0x80); case 1: return 0x80+t.u(0x780); case 2: return 0x800+t.u(0xd000); case 3: return 0xe000+t.u(0x2000); case 4: return 0x10000+t.u(0x100000); case 5: return t.of(std::vector<uint32_t>{0x7f,0x80,0x7ff,0x800,0xd7ff,0xe000,0xfffd,0xffff,0x10000,0x10ffff,0xfffe,0xfdd0,0xfdef,0x1fffe,0x10fffe,0x3ffff,0x40000,0xfffff,0x100000,0x2028,0xfeff}); case 6: return 32+t.u(95); default: return t.of(std::vector<uint32_t>{0xe9,0x20ac,0x4e00,0x1f600,0x300}); } }
static std::string enc(uint32_t g){ std::string o; if(g<0x80) o+=(char)g; else if(g<0x800){ o+=(char)(0xc0|g>>6); o+=(char)(0x80|(g&63)); } else if(g<0x10000){ o+=(char)(0xe0|g>>12); o+=(char)(0x80|(g>>6&63)); o+=(char)(0x80|(g&63)); } else { o+=(char)(0xf0|g>>18); o+=(char)(0x80|(g>>12&63)); o+=(char)(0x80|(g>>6&63)); o+=(char)(0x80|(g&63)); } return o; }
// length of the well-formed character at s[i], 0 if none (Unicode table 3-7)
static int wf(const std::string&s,size_t i,uint32_t&cp){ auto B=[&](size_t k)->int{ return k<s.size()?(unsigned char)s[k]:-1; }; int a=B(i); auto in=[](int v,int lo,int hi){ return v>=lo&&v<=hi; };
  if(in(a,0,0x7f)){ cp=a; return 1; } if(in(a,0xc2,0xdf)&&in(B(i+1),0x80,0xbf)){ cp=(a&31)<<6|(B(i+1)&63); return 2; }
  if(in(a,0xe0,0xef)){ int lo=a==0xe0?0xa0:0x80,hi=a==0xed?0x9f:0xbf; if(in(B(i+1),lo,hi)&&in(B(i+2),0x80,0xbf)){ cp=(a&15)<<12|(B(i+1)&63)<<6|(B(i+2)&63); return 3; } return 0; }
  if(in(a,0xf0,0xf4)){ int lo=a==0xf0?0x90:0x80,hi=a==0xf4?0x8f:0xbf; if(in(B(i+1),lo,hi)&&in(B(i+2),0x80,0xbf)&&in(B(i+3),0x80,0xbf)){ cp=(a&7)<<18|(B(i+1)&63)<<12|(B(i+2)&63)<<6|(B(i+3)&63); return 4; } } return 0; }
// the second byte already rules out any well-formed character
static bool impossible(unsigned char a,unsigned char d){ return (a==0xe0&&d<0xa0)||(a==0xed&&d>0x9f)||(a==0xf0&&d<0x90)||(a==0xf4&&d>0x8f)||a>=0xf5; }
// a lead byte announces this many continuation bytes
static int announced(unsigned char b){ return b<0xc2?0: b<0xe0?1: b<0xf0?2: b<0xf8?3:0; }
static void bytes(Tape&t,std::string&s,bool&bad,bool&multi){ auto l=t.loop(1,24); while(t.more(l)){ switch(t.weighted({40,10,8,8,8,4,6})){
    case 0: { uint32_t g=anychar(t); if(g>=0x80) multi=true; s+=enc(g); break; }
    case 1: s+=(char)(0x80+t.u(64)); bad=true; break;
    case 2: { std::string e=enc(anychar(t)); if(e.size()>1){ s+=e.substr(0,1+t.u(e.size()-1)); bad=true; } else s+=e; break; }
    case 3: { int n=2+t.u(3); uint32_t g=t.u(n==2?0x80:n==3?0x800:0x10000); if(n==2){ s+=(char)(0xc0|g>>6); s+=(char)(0x80|(g&63)); } else if(n==3){ s+=(char)0xe0; s+=(char)(0x80|g>>6); s+=(char)(0x80|(g&63)); } else { s+=(char)0xf0; s+=(char)(0x80|g>>12); s+=(char)(0x80|(g>>6&63)); s+=(char)(0x80|(g&63)); } bad=true; break; }
    case 4: { uint32_t g=t.chance(128)?0xd800+t.u(0x800):0x110000+t.u(0xf0000); s+=enc(g&0x1fffff); bad=true; break; }
    case 5: s+=t.of(std::vector<std::string>{"\xf8\x88\x80\x80\x80","\xfc\x84\x80\x80\x80\x80","\xff","\xfe","\xf5\x80\x80\x80","\xc0","\xc1"}); bad=true; break;
    default: s+=(char)t.u(256); bad=true; } } }
void run_case(Case&c){ Tape&t=c.t; int part=t.weighted({60,20,20});
  if(part==0){ std::string s; bool bad=false,multi=false; bytes(t,s,bad,multi); c.mix(s); if(c.verbose) c.log("bytes \"%s\"",esc(s).c_str());
    struct tsm_utf8_mach*m=nullptr; if(tsm_utf8_mach_new(&m)) fail("mach_new failed"); struct G{ tsm_utf8_mach*m; ~G(){ tsm_utf8_mach_free(m);} } g{m}; if(t.chance(30)){ int n=1+t.u(3); for(int i=0;i<n;i++) tsm_utf8_mach_feed(m,(char)(0xe0+t.u(24))); tsm_utf8_mach_reset(m); c.label("reset"); }
    // out[i] = what came out at byte i: -1 nothing, otherwise the character
    std::vector<long> out(s.size(),-1); for(size_t i=0;i<s.size();i++){ int st=tsm_utf8_mach_feed(m,s[i]); if(st==ACCEPT||st==REJECT){ out[i]=tsm_utf8_mach_get(m); if(st==REJECT&&out[i]!=0xfffd) fail("byte %zu was rejected but gives U+%lX instead of a replacement character",i,out[i]); long again=tsm_utf8_mach_get(m); if(again!=out[i]) fail("a second get gives another character"); } }
    size_t i=0; bool synced=true; while(i<s.size()){ uint32_t cp; int n=wf(s,i,cp);
      if(n){ for(int k=0;k<n-1;k++) if(out[i+k]!=-1) fail("byte %zu inside the character U+%X at %zu produced U+%lX",i+k,cp,i,out[i+k]); if(out[i+n-1]!=(long)cp) fail("well-formed U+%X at byte %zu came out as %ld",cp,i,out[i+n-1]); i+=n; continue; }
      // malformed piece: the lead byte (if any), its continuation bytes up to the announced number, and the byte that shows it is malformed
      unsigned char b=s[i]; int an=announced(b); size_t j=i+1; bool ended=false; int seen=0;
      if(an==0){ ended=true; } else while(j<s.size()){ unsigned char d=s[j]; if((d&0xc0)!=0x80){ j++; ended=true; break; } j++; seen++; if(seen==an||(seen==1&&impossible(b,d))){ ended=true; break; } }
      // a sequence whose second byte makes it impossible ends there, the rest are stray bytes
      int repl=0; for(size_t k=i;k<j;k++) if(out[k]!=-1){ if(out[k]!=0xfffd) fail("malformed bytes %zu..%zu produced U+%lX",i,j-1,out[k]); repl++; }
      if(!ended){ if(repl) { /* an unfinished sequence may already be known to be malformed */ } break; }
      if(an&&repl!=1) fail("malformed bytes %zu..%zu gave %d replacement characters",i,j-1,repl); if(!an&&repl>1) fail("byte %zu gave %d replacement characters",i,repl); synced=true;
      // the byte that ended an unfinished sequence is consumed with it; it may be the lead byte of a character, whose continuation bytes are then stray
      i=j; }
    (void)synced; if(bad&&multi) c.nontrivial(); c.label("decoder"); }
  else if(part==1){ // encoding
    std::vector<uint32_t> v; auto l=t.loop(1,10); while(t.more(l)){ switch(t.u(5)){ case 0: v.push_back(0xd800+t.u(0x800)); break; case 1: v.push_back(t.chance(128)?0xfdd0+t.u(32):(t.u(17)<<16|0xfffe|t.u(2))); break; case 2: v.push_back(0x110000+t.raw(4)%0x70000000u); break; default: v.push_back(anychar(t)); } }
    std::string all; bool multi=false,none=false; for(uint32_t g:v){ char*b=(char*)::malloc(4); size_t n=tsm_ucs4_to_utf8(g,b); std::string got(b,n>4?4:n); ::free(b); std::string e=ref_utf8(g); c.mix(g); if(c.verbose) c.log("encode U+%X -> \"%s\"",g,esc(got).c_str()); if(n!=got.size()||got!=e) fail("U+%X encodes to \"%s\", expected \"%s\"",g,esc(got).c_str(),esc(e).c_str()); all+=e; if(e.size()>1) multi=true; if(e.empty()) none=true;
      if(e.size()){ struct tsm_utf8_mach*m; if(tsm_utf8_mach_new(&m)) fail("mach_new failed"); int st=START; for(size_t i=0;i<e.size();i++){ st=tsm_utf8_mach_feed(m,e[i]); if(i+1<e.size()&&(st==ACCEPT||st==REJECT)){ tsm_utf8_mach_free(m); fail("U+%X decoded too early",g);} } uint32_t d=tsm_utf8_mach_get(m); tsm_utf8_mach_free(m); if(st!=ACCEPT||d!=g) fail("U+%X encodes and decodes to U+%X",g,d); } }
    size_t n=12345; char*p=tsm_ucs4_to_utf8_alloc(v.data(),v.size(),&n); if(all.empty()){ if(p) { vt_free(p); fail("encoding nothing returned a buffer"); } } else { if(!p) fail("encoding failed"); std::string got(p,n); vt_free(p); if(got!=all) fail("string encodes to \"%s\", expected \"%s\"",esc(got).c_str(),esc(all).c_str()); }
    if(multi&&none) c.nontrivial(); c.label("encoder"); }
  else { World w(c,O_PIC|O_CURSOR); w.size(4+t.u(20),1+t.u(4)); std::string all; bool bad=false,multi=false; auto l=t.loop(1,6); while(t.more(l)){ std::string s; if(t.chance(100)) s=gen::text(t,8); else { std::string q; bytes(t,q,bad,multi); for(unsigned char ch:q) if(ch>=0x20&&ch!=0x7f) s+=(char)ch; } w.input(s); w.check(); } if(bad&&multi) c.nontrivial(); c.label("terminal"); }
}
