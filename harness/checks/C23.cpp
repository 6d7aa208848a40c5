#include "ops.h"
#include "world.h"
const CheckInfo CHECK={"C23","charset designations, locking and single shifts of every kind mixed with characters of both halves and outside them, saves, restores, resets and ordinary output, in UTF-8, 8-bit and 7-bit mode; the screen is compared with the reference terminal's charset mapping. Non-trivial: at least 10 characters printed through at least 3 different selections, one of them not the default set",60000,400000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_PIC|O_CURSOR|O_ATTRFREE); int W=10+t.u(50),H=2+t.u(5); w.size(W,H); ops::ambient(w); int mode=t.weighted({50,25,25}); if(mode) w.input(mode==1?"\x1b[62;1\"p":"\x1b[61\"p"); static const char*mn[]={"UTF-8","8-bit","7-bit"}; c.label(mn[mode]); std::set<std::string> sel; int printed=0; bool special=false;
  auto l=t.loop(4,c.thorough?70:36); while(t.more(l)){ std::string s; bool pr=false; switch(t.weighted({50,14,12,10,3,3,3,4,2,2})){
    case 0: { int n=1+t.u(8); for(int i=0;i<n;i++){ uint32_t ch; switch(t.weighted({40,20,4,4})){ case 0: ch=32+t.u(95); break; case 1: ch=160+t.u(96); break; case 2: ch=t.of(std::vector<uint32_t>{0x20,0x7e,0x5f,0x60,0x7f,0xa0,0xa1,0xfe,0xff}); break; default: ch=t.of(std::vector<uint32_t>{0x100,0x2500,0x20ac,0x3b1}); } if(mode==0) gen::cp(s,ch); else s+=(char)(ch>255?(33+ch%90):ch); } pr=true; printed+=n; break; }
    case 1: s=std::string("\x1b")+"()*+"[t.u(4)]+t.of(std::vector<char>{'B','0','<','0','<','A','4','C','5','R','Q','K','Y','E','6','Z','H','7','=','X','1'}); break;
    case 2: s=t.of(std::vector<std::string>{"\x0e","\x0f","\x1bn","\x1bo","\x1b~","\x1b}","\x1b|"}); break;
    case 3: { s=std::string("\x1b")+"NO"[t.u(2)]; if(t.chance(60)) s= mode==1? std::string(1,(char)(0x8e + t.u(2))): mode==0? std::string("\xc2")+(char)(0x8e + t.u(2)): s; if(t.chance(60)) s+=t.of(std::vector<std::string>{"\x1b[C","\n","\x1b[1m","\x1b(0","\x0e","\x1bN","\r"," "}); break; }
    case 4: s="\x1b""7"; break; case 5: s="\x1b""8"; break;
    case 6: s=t.of(std::vector<std::string>{"\x1b[H","\x1b[2J","\r\n","\x1b[m"}); break;
    case 7: s=t.of(std::vector<std::string>{"\x1b[!p","\x1b""c"}); if(mode&&t.chance(200)) s+=mode==1?"\x1b[62;1\"p":"\x1b[61\"p"; else mode=0; break;
    case 8: { mode=t.u(3); s=mode==0?"\x1b[60\"p":mode==1?"\x1b[63\"p":"\x1b[61\"p"; if(mode==0) s="\x1b[!p"; break; }
    default: s=gen::charset(t); if(mode&&s.size()&&(s[0]&0x80)) s=""; }
    if(s.empty()) continue; w.input(s); if(pr){ auto&v=*w.v; sel.insert(fmt("%d/%d/%d%d",v.gl,v.gr,v.g[v.gl]==REF_dec_special_graphics,v.g[v.gr]==REF_dec_supplemental_graphics)); if(v.g[v.gl]!=REF_unicode_lower||v.g[v.gr]!=REF_unicode_upper) special=true; } w.check(); }
  if(printed>=10&&sel.size()>=3&&special) c.nontrivial(); }
