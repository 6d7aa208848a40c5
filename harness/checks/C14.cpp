#include "ops.h"
#include "script.h"
const CheckInfo CHECK={"C14","histories of graphic-rendition commands (all forms, several per command, missing and odd arguments, up to 18 arguments), text, erasures, cursor save/restore, resets and palette changes (every built-in, unknown names, custom); the redraw and the default attributes are compared with the reference after every operation. Non-trivial: at least 3 rendition commands and text or an erasure after them",60000,400000};
void run_case(Case&c){ Tape&t=c.t; World w(c,O_PIC|O_DEFATTR); int W=1+t.u(14),H=1+t.u(4); w.size(W,H); ops::ambient(w,t.chance(128)?ops::AMB_SEL|ops::AMB_NOALT:0); w.check(); int n=0; bool used=false;
  auto l=t.loop(3,c.thorough?50:28); while(t.more(l)){ switch(t.weighted({40,26,6,3,3,2,4,2,3})){
      case 0: { std::string s=t.chance(14)?"\xc2\x9b"+gen::sgr(t).substr(2):gen::sgr(t); w.input(s); n++; break; }
      case 1: w.input(gen::ascii(t,w.m.w)); if(n>=3) used=true; break;
      case 2: w.input(gen::edit(t,w.m.w,w.m.h)); if(n>=3) used=true; break;
      case 3: w.input(t.of(std::vector<std::string>{"\x1b""7","\x1b""8"})); c.label("save/restore"); break;
      case 4: { const std::string&nm=t.of(gen::palettes()); bool nul=t.chance(30); w.u.L("set_palette",{nul}); c.mix(nm); if(c.verbose) c.log("   %s",nm.c_str()); int r=tsm_vte_set_palette(w.u.v,nul?nullptr:nm.c_str()); if(r) fail("set_palette returned %d",r); w.v->set_palette(nul?nullptr:nm.c_str()); c.label("palette"); break; }
      case 5: { uint8_t p[18][3]; int m=1+t.u(200),k=t.u(256); for(int i=0;i<54;i++) ((uint8_t*)p)[i]=(uint8_t)(i*m+k); bool nul=t.chance(40); w.u.L("set_custom_palette",{nul,m,k}); int r=tsm_vte_set_custom_palette(w.u.v,nul?nullptr:p); if(r) fail("set_custom_palette returned %d",r); w.v->set_custom(nul?nullptr:p); memset(p,0x55,54); c.label("custom palette"); break; }
      case 6: w.input(t.of(std::vector<std::string>{"\r","\x1b[H","\n","\x1b[2J","\x1b[K"})); break;
      case 7: w.input(t.of(std::vector<std::string>{"\x1b[!p","\x1b""c"})); c.label("reset"); break;
      default: w.input(t.of(std::vector<std::string>{"\x1b[?5h","\x1b[?5l","\x1b[>4;1m","\x1b[?1m","\x1b[1 m","\x1b[4:3m"})); }
    w.check(); }
  if(n>=3&&used) c.nontrivial(); }
