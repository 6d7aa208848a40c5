#include "script.h"
const CheckInfo CHECK={"C34","two terminals live through the same random history of every kind of operation, except that at random points each is sent a different spelling of the same request: 7-bit and 8-bit controls, string terminators, repeat counts against repetitions, omitted, zero and zero-padded parameters, counts past the screen against its size, combined and separate SGR and mode parameters, LF/VT/FF/IND/NEL, controls inside sequences, ignored bytes, strings without effect, aborted and restarted sequences, erase and position requests split in two, palette and direct colours, repeated absolute requests, motion between saving and restoring. After every point all that can be observed must be equal. Non-trivial: at least 4 different spellings were exchanged and the screen was not empty",36000,300000};
struct P2 { std::string a,b; const char*what; };
static std::string c1(Sut&u,int ch){ unsigned f=tsm_vte_get_flags(u.v); if(f&0x10) return std::string("\x1b")+(char)(ch-0x40); if(f&8) return std::string(1,(char)ch); std::string s="\xc2"; s+=(char)ch; return s; }
static std::string rep(const std::string&s,int n){ std::string o; while(n-->0) o+=s; return o; }
// one complete control sequence, always introduced by ESC [
static std::string csi(Tape&t,int w,int h){ for(int i=0;i<20;i++){ std::string s; switch(t.u(6)){ case 0: s=gen::move(t,w,h); break; case 1: s=gen::edit(t,w,h); break; case 2: s=gen::sgr(t); break; case 3: s=gen::margins(t,h); break; case 4: s=gen::modes(t,{4,12,20,2},{1,5,6,7,25,47,1049,1048,1002,1006}); break; default: s=fmt("\x1b[%dn",5+(int)t.u(2)); } if(s.size()>2&&s[0]==27&&s[1]=='['&&s.find(27,1)==std::string::npos&&s.find('\xc2')==std::string::npos) return s; } return "\x1b[2C"; }
static std::string pad(Tape&t,int n){ return std::string(t.u(5),'0')+std::to_string(n); }
static std::string partial(Tape&t){ switch(t.u(7)){ case 0: return "\x1b"; case 1: return std::string("\x1b")+"()*+ #%"[t.u(7)]; case 2: return "\x1b["; case 3: { std::string s=t.chance(60)?"\x1b[?":"\x1b["; int n=1+t.u(3); for(int i=0;i<n;i++) s+=std::to_string(t.u(60))+(t.chance(128)?";":""); return s; } case 4: return "\x1b[!"; case 5: return "\x1b[1;:3"; default: return std::string("\x1bP1;2|ab"); } }
static std::string sgr1(Tape&t){ switch(t.u(6)){ case 0: return std::to_string(t.of(std::vector<int>{0,1,3,4,5,7,22,23,24,25,27,39,49})); case 1: return std::to_string(30+t.u(8)); case 2: return std::to_string(40+t.u(8)); case 3: return std::to_string((t.chance(128)?90:100)+t.u(8)); case 4: return fmt("%d;5;%d",t.chance(128)?38:48,(int)t.u(256)); default: return fmt("%d;2;%d;%d;%d",t.chance(128)?38:48,(int)t.u(256),(int)t.u(256),(int)t.u(256)); } }
static std::string motion(Tape&t,int w,int h){ switch(t.u(6)){ case 0: return fmt("\x1b[%d%c",1+(int)t.u(w),"ABCDEFGde"[t.u(9)]); case 1: return fmt("\x1b[%d;%dH",1+(int)t.u(h+1),1+(int)t.u(w+1)); case 2: return "\r"; case 3: return "\b"; case 4: return "\t"; default: return fmt("\x1b[%d%c",1+(int)t.u(3),"IZ"[t.u(2)]); } }
static P2 pair(Tape&t,Sut&u){ int w=u.w(),h=u.h(); unsigned f=tsm_vte_get_flags(u.v); bool seven=f&0x10,eight=f&8; P2 p; p.what="";
  for(;;){ p=P2(); p.what=""; switch(t.u(26)){
    case 0: { if(seven) break; char k="DEHMNOZ"[t.u(7)]; p.a=std::string("\x1b")+k; p.b=c1(u,k+0x40); if(k=='N'||k=='O'){ p.a+='q'; p.b+='q'; } p.what="8-bit control"; return p; }
    case 1: { if(seven) break; std::string s=csi(t,w,h); p.a=s; p.b=c1(u,0x9b)+s.substr(2); p.what="8-bit introducer"; return p; }
    case 2: { std::string s; int n=t.chance(40)?110+(int)t.u(30):(int)t.u(12); for(int i=0;i<n;i++) s+=(char)(32+t.u(95)); std::vector<std::string> in={"\x1b]"},te={"\x07","\x1b\\"}; if(!seven){ in.push_back(c1(u,0x9d)); te.push_back(c1(u,0x9c)); } p.a=t.of(in)+s+t.of(te); p.b=t.of(in)+s+t.of(te); if(p.a==p.b) break; p.what="OSC introducer or terminator"; return p; }
    case 3: { std::string s=std::string("\x1b")+"PX^_"[t.u(4)]; if(!seven&&t.chance(60)) s=c1(u,(uint8_t)s[1]+0x40); int n=t.u(14); for(int i=0;i<n;i++) switch(t.u(6)){ case 0: s+=(char)t.of(std::vector<int>{0,5,7,8,9,10,13,14,15,0x17,0x19,0x1c,0x1f,0x7f}); break; case 1: if(!seven&&!eight){ s+=ref_utf8(0xa0+t.u(0x3000)); break; } /* fall through */ default: s+=(char)(32+t.u(95)); } p.a=s+((seven||t.chance(128))?std::string("\x1b\\"):c1(u,0x9c)); p.b=""; p.what="string without effect"; return p; }
    case 4: { char k="ABCDEFLMP@IZe"[t.u(13)]; int n=2+t.u(4); if(k=='e'&&(tsm_screen_get_flags(u.s)&TSM_SCREEN_REL_ORIGIN)) k='B'; p.a=fmt("\x1b[%d%c",n,k); p.b=rep(fmt("\x1b[%c",k),n); p.what="repeat count"; return p; }
    case 5: { if(h<2) break; char k="ST"[t.u(2)]; p.a=fmt("\x1b[2%c",k); p.b=rep(fmt("\x1b[%c",k),2); p.what="repeat count of scrolling"; return p; }
    case 6: { char k="ABCDEFGLMP@XIZdeHfSTgJKrm"[t.u(25)]; std::vector<std::string> v; bool one=strchr("ABCDEFGLMP@XIZdeST",k); v={"","0","00000"}; if(one||k=='H'||k=='f') v.push_back("1"),v.push_back("0001"); if(k=='H'||k=='f'){ v.push_back(";"); v.push_back("1;1"); v.push_back(";1"); v.push_back("0;0"); v.push_back("1;"); } if(k=='r'){ v={"",";","0;0",fmt("1;%d",h),fmt("0;%d",h),fmt(";%d",h),"1",fmt(";%d",h+1),fmt("%d;%d",h,h),"9999;1"}; } std::string x=t.of(v),y=t.of(v); if(x==y) break; p.a="\x1b["+x+k; p.b="\x1b["+y+k; p.what="default parameter"; return p; }
    case 7: { char k="ABCDEFGLMP@XIZdeST"[t.u(18)]; int n=1+t.u(12); p.a=fmt("\x1b[%d%c",n,k); p.b="\x1b["+pad(t,n)+(t.chance(60)?";7":"")+k; p.what="leading zeros"; return p; }
    case 8: { int y=1+t.u(h+1),x=1+t.u(w+1); std::string s[3]={fmt("\x1b[%d;%dH",y,x),fmt("\x1b[%d;%df",y,x),fmt("\x1b[%dd\x1b[%dG",y,x)}; int i=t.u(3),j=t.u(2); if(j>=i) j++; p.a=s[i]; p.b=s[j]; p.what="absolute position"; return p; }
    case 9: { int n=2+t.u(4); p.a="\x1b["; int args=0; for(int i=0;i<n;i++){ std::string s=sgr1(t); int k=1; for(char ch:s) k+=ch==';'; if(args+k>15) break; args+=k; if(i) p.a+=';'; p.a+=s; p.b+="\x1b["+s+"m"; } p.a+='m'; p.what="combined attributes"; return p; }
    case 10: { bool q=t.chance(190); bool on=t.chance(140); int n=2+t.u(4); p.a=q?"\x1b[?":"\x1b["; for(int i=0;i<n;i++){ int m=q?t.of(std::vector<int>{1,5,6,7,8,25,42,47,1047,1048,1049,9,1002,1003,1006,1016,777,t.chance(40)?(int)t.of(std::vector<int>{0,4,13,2004,2026,9999,10000,12345,32767,32768,65535,65536,99999}):777}):t.of(std::vector<int>{2,4,20,12,99,t.chance(60)?40000:30}); p.a+=fmt("%s%d",i?";":"",m); p.b+=fmt(q?"\x1b[?%d%c":"\x1b[%d%c",m,on?'h':'l'); } p.a+=on?'h':'l'; p.what="combined modes"; return p; }
    case 11: { std::vector<std::string> v={"\n","\v","\f"}; if(f&TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE){ v.push_back("\x1b""E"); v.push_back("\r\x1b""D"); } else v.push_back("\x1b""D"); if(t.chance(80)) v={"\x1b""E","\r\x1b""D","\x1b""D\r"}; p.a=t.of(v); p.b=t.of(v); if(p.a==p.b) break; p.what="line feed"; return p; }
    case 12: { std::string s=t.chance(128)?csi(t,w,h):gen::ascii(t,6); p.a=s; size_t k=t.u(s.size()+1); p.b=s.substr(0,k)+std::string(1+t.u(3),t.chance(128)?0:0x7f)+s.substr(k); p.what="ignored bytes"; return p; }
    case 13: { p.a=partial(t)+"\x18"; p.b=""; p.what="cancelled sequence"; return p; }
    case 14: { std::string s=csi(t,w,h); p.a=partial(t)+s; p.b=s; p.what="restarted sequence"; return p; }
    case 15: { std::string s=csi(t,w,h); std::string k(1,t.of(std::vector<char>{'\n','\r','\b','\t','\v',14,15,5,7,'\r','\b'})); size_t i=2+t.u(s.size()-2); p.a=s.substr(0,i)+k+s.substr(i); p.b=k+s; p.what="control inside a sequence"; return p; }
    case 16: { const char*q=t.chance(128)?"":"?"; int cy=u.cy(); switch(t.u(5)){ case 0: p.a=fmt("\x1b[%s2K",q); p.b=fmt("\x1b[%s1K\x1b[%sK",q,q); break; case 1: p.a=fmt("\x1b[%s2J",q); p.b=fmt("\x1b[%sJ\x1b[%s1J",q,q); break; case 2: p.a=fmt("\x1b[%dX",w+(int)t.u(3)); p.b="\x1b[K"; break; case 3: if(cy!=h-1) continue; p.a=fmt("\x1b[%sJ",q); p.b=fmt("\x1b[%sK",q); break; default: if(cy) continue; p.a=fmt("\x1b[%s1J",q); p.b=fmt("\x1b[%s1K",q); } p.what="erase in parts"; return p; }
    case 17: switch(t.u(6)){ case 0: p={"\b","\x1b[D","control or sequence"}; break; case 1: p={"\r","\x1b[G","control or sequence"}; break; case 2: p={"\t","\x1b[I","control or sequence"}; break; case 3: p={"\x1b[3E","\x1b[3B\r","control or sequence"}; break; case 4: p={"\x1b[2F","\r\x1b[2A","control or sequence"}; break; default: p={"\x1b[2I","\t\t","control or sequence"}; } return p;
    case 18: { char k="ABCDEFLMP@XSTIZe"[t.u(16)]; int n=std::max(w,h)+t.u(3); static const int big[]={16384,16385,32767,32768,65535,65536,99999}; p.a=fmt("\x1b[%d%c",n,k); p.b=fmt("\x1b[%d%c",big[t.u(7)],k); p.what="count past the screen"; return p; }
    case 19: { int n=t.u(16); bool bg=t.chance(128); int base=n<8?(bg?40:30)+n:(bg?100:90)+n-8; p.a=fmt("\x1b[%dm",base); p.b=fmt("\x1b[%d;5;%dm",bg?48:38,n); p.what="palette colour by number"; return p; }
    case 20: { int n=16+t.u(240); static const int lv[]={0,95,135,175,215,255}; int r,g,b; if(n>=232) r=g=b=8+10*(n-232); else { int k=n-16; b=lv[k%6]; g=lv[k/6%6]; r=lv[k/36]; } bool bg=t.chance(128); p.a=fmt("\x1b[%d;5;%dm",bg?48:38,n); p.b=fmt("\x1b[%d;2;%d;%d;%dm",bg?48:38,r,g,b); p.what="fixed colour by number"; return p; }
    case 21: { std::string s; switch(t.u(9)){ case 0: s=fmt("\x1b[%d;%dH",1+(int)t.u(h+1),1+(int)t.u(w+1)); break; case 1: s=gen::sgr(t); break; case 2: s=fmt("\x1b[?%d%c",t.of(std::vector<int>{1,5,6,7,25,47,1002,1006,9}),"hl"[t.u(2)]); break; case 3: s=gen::margins(t,h); break; case 4: s=fmt("\x1b[%s%dJ",t.chance(80)?"?":"",(int)t.u(3)); break; case 5: s=fmt("\x1b[%s%dK",t.chance(80)?"?":"",(int)t.u(3)); break; case 6: s=std::string("\x1b")+"()*+"[t.u(4)]+"B0<A"[t.u(4)]; break; case 7: s=t.of(std::vector<std::string>{"\x1bH","\x1b[g","\x1b[3g","\x1b""7","\x0e","\x0f","\x1b=","\x1b>","\x1b~","\x1bn","\x1b|"}); break; default: s=fmt("\x1b[%dG",1+(int)t.u(w+1)); } p.a=s; p.b=s+s; p.what="absolute request twice"; return p; }
    case 22: { std::string x; int n=1+t.u(4); for(int i=0;i<n;i++) switch(t.u(5)){ case 0: x+=gen::sgr(t); break; case 1: x+=t.of(std::vector<std::string>{"\x1b[?6h","\x1b[?6l","\x1b[?7h","\x1b[?7l"}); break; case 2: x+=t.of(std::vector<std::string>{"\x0e","\x0f","\x1b~","\x1bn","\x1b}","\x1bo","\x1b|"}); break; default: x+=motion(t,w,h); } p.a="\x1b""7"+x+"\x1b""8"; p.b="\x1b""7\x1b""8"; p.what="changes between save and restore"; return p; }
    case 23: { std::string x=motion(t,w,h)+motion(t,w,h), e=fmt("\x1b[%d;%dH",1+(int)t.u(h+1),1+(int)t.u(w+1)); p.a=x+e; p.b=e; p.what="motion before an absolute position"; return p; }
    case 24: { // text that does not wrap, and the same text in another order
      if(u.cx()>=w||(tsm_screen_get_flags(u.s)&TSM_SCREEN_INSERT_MODE)||(tsm_screen_get_flags(u.s)&TSM_SCREEN_REL_ORIGIN)) break; int x=u.cx(); int n=w-1-x; if(n<2) break; n=2+t.u(std::min(n,9)-1); std::string s; for(int i=0;i<n;i++) s+=(char)('A'+t.u(9)); 
      // a pending single shift applies to the first character sent
      p.a="\x0f!"+s; if(x+1+n>=w) break; p.b="\x0f!"; for(int i=n-1;i>=0;i--) p.b+=fmt("\x1b[%dG",x+2+i)+s[i]; p.b+=fmt("\x1b[%dG",x+2+n); p.what="text in another order"; if(x+1+n>=w) break; return p; }
    default: { // every byte in its own call is C02's business; here a sequence with unused trailing parameters
      char k="ABCDELMP@XSTIZJKgdG"[t.u(19)]; int n=1+t.u(4); p.a=fmt("\x1b[%d%c",n,k); p.b=fmt("\x1b[%d;%d%c",n,(int)t.u(9),k); p.what="surplus parameter"; return p; } } } }
void run_case(Case&c){ Tape&t=c.t; Sut a(&c),b(&c); a.tag="A: "; b.tag="B: "; if(!a.create()||!b.create()) fail("creation failed"); int W,H; gen::dims(t,W,H,200); Op o; o.k=Op::RESIZE; o.a=W; o.b=H; c.mix(o.str()); apply(a,o); apply(b,o); o.k=Op::MAXSB; o.a=t.u(2*H+3); o.b=0; c.mix(o.str()); apply(a,o); apply(b,o);
  unsigned m=gen::M_ALL&~(t.chance(200)?gen::M_SHARD:0u); std::set<std::string> kinds; bool any=false;
  auto same=[&](const char*when){ std::string x=snapshot(a),y=snapshot(b); if(x!=y) fail("%s: %s",when,first_diff(x,y).c_str()); a.ev.clear(); b.ev.clear(); if(x.find('{')!=std::string::npos) any=true; };
  // what a selection covers once text scrolled off the alternate screen is not specified
  auto unsel=[&](){ if(tsm_screen_get_flags(a.s)&TSM_SCREEN_ALTERNATE){ tsm_screen_selection_reset(a.s); tsm_screen_selection_reset(b.s); } };
  auto l=t.loop(3,c.thorough?70:40); while(t.more(l)){
    if(t.chance(128)){ Op p=gen::op(t,a.w(),a.h(),m); if(p.k==Op::RESIZE) p.a=W; /* attributes of scrollback rows beyond their old width are not specified */ c.mix(p.str()); int r=apply(a,p),q=apply(b,p); if(r!=q) fail("%s returned %d and %d",p.str().c_str(),r,q); unsel(); continue; }
    Op pre=gen::input("\x18\x18"); apply(a,pre); apply(b,pre); P2 p=pair(t,a); if(t.chance(128)) std::swap(p.a,p.b); c.mix(p.a); c.mix(p.b); apply(a,gen::input(p.a)); apply(b,gen::input(p.b)); c.label(p.what); kinds.insert(p.what); unsel(); 
    if(t.chance(200)) same(fmt("%s, \"%s\" and \"%s\"",p.what,esc(p.a).c_str(),esc(p.b).c_str()).c_str()); }
  same("at the end"); if(kinds.size()>=4&&any) c.nontrivial(); }
