// Histories as data: the same operation list can be applied to several
// terminals, for differential and metamorphic checks.
#pragma once
#include "world.h"
extern "C" bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x, unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y, unsigned int button, unsigned int event, unsigned char modifiers);

struct Op { enum K{INPUT,RESIZE,MAXSB,CLEARSB,SBUP,SBDOWN,PGUP,PGDN,SBRESET,SELSTART,SELTARGET,SELRESET,KEY,MOUSE,SCR,SFLAG,DEFATTR,WRITE,RESET,HARD,PALETTE,CUSTOM,BSDEL,MARGINS} k; long a=0,b=0,c=0,d=0; std::string s; A at; 
  std::string str() const { static const char*n[]={"input","resize","set_max_sb","clear_sb","sb_up","sb_down","sb_page_up","sb_page_down","sb_reset","selection_start","selection_target","selection_reset","key","mouse","screen-op","set/reset_flags","set_def_attr","write","vte_reset","vte_hard_reset","set_palette","set_custom_palette","backspace_sends_delete","set_margins"};
    return k==INPUT? fmt("input \"%s\"",esc(s).c_str()): fmt("%s(%ld,%ld,%ld,%ld%s%s)",n[k],a,b,c,d,s.size()?",":"",s.c_str()); } };

inline int apply(Sut&u,const Op&o){ auto*s=u.s; auto*v=u.v; unsigned a=o.a,b=o.b; 
  if(u.c->verbose) u.c->log("%s%s",u.tag.c_str(),o.str().c_str());
  switch(o.k){
    case Op::INPUT: { char*p=(char*)::malloc(o.s.size()?o.s.size():1); memcpy(p,o.s.data(),o.s.size()); tsm_vte_input(v,p,o.s.size()); ::free(p); return 0; }
    case Op::RESIZE: return tsm_screen_resize(s,a,b);
    case Op::MAXSB: tsm_screen_set_max_sb(s,a); return 0; case Op::CLEARSB: tsm_screen_clear_sb(s); return 0;
    case Op::SBUP: tsm_screen_sb_up(s,a); return 0; case Op::SBDOWN: tsm_screen_sb_down(s,a); return 0; case Op::PGUP: tsm_screen_sb_page_up(s,a); return 0; case Op::PGDN: tsm_screen_sb_page_down(s,a); return 0; case Op::SBRESET: tsm_screen_sb_reset(s); return 0;
    case Op::SELSTART: tsm_screen_selection_start(s,a,b); return 0; case Op::SELTARGET: tsm_screen_selection_target(s,a,b); return 0; case Op::SELRESET: tsm_screen_selection_reset(s); return 0;
    case Op::KEY: return tsm_vte_handle_keyboard(v,o.a,o.b,o.c,o.d);
    case Op::MOUSE: return tsm_vte_handle_mouse(v,o.a,o.b,o.a?o.a*8+3:0,o.b?o.b*16+5:0,o.c,o.d&7,o.d>>3);
    case Op::SCR: switch(o.c){
        case 0: tsm_screen_move_left(s,a); break; case 1: tsm_screen_move_right(s,a); break; case 2: tsm_screen_move_up(s,a,b&1); break; case 3: tsm_screen_move_down(s,a,b&1); break; case 4: tsm_screen_move_to(s,a,b); break; case 5: tsm_screen_move_line_home(s); break; case 6: tsm_screen_move_line_end(s); break; case 7: tsm_screen_newline(s); break; case 8: tsm_screen_tab_right(s,a); break; case 9: tsm_screen_tab_left(s,a); break; case 10: tsm_screen_set_tabstop(s); break; case 11: tsm_screen_reset_tabstop(s); break; case 12: tsm_screen_reset_all_tabstops(s); break;
        case 13: tsm_screen_insert_lines(s,a); break; case 14: tsm_screen_delete_lines(s,a); break; case 15: tsm_screen_insert_chars(s,a); break; case 16: tsm_screen_delete_chars(s,a); break; case 17: tsm_screen_erase_cursor(s); break; case 18: tsm_screen_erase_chars(s,a); break; case 19: tsm_screen_erase_cursor_to_end(s,b&1); break; case 20: tsm_screen_erase_home_to_cursor(s,b&1); break; case 21: tsm_screen_erase_current_line(s,b&1); break; case 22: tsm_screen_erase_screen_to_cursor(s,b&1); break; case 23: tsm_screen_erase_cursor_to_screen(s,b&1); break; case 24: tsm_screen_erase_screen(s,b&1); break; case 25: tsm_screen_scroll_up(s,a); break; case 26: tsm_screen_scroll_down(s,a); break; case 27: tsm_screen_reset(s); break; } return 0;
    case Op::MARGINS: return tsm_screen_set_margins(s,a,b);
    case Op::SFLAG: if(o.b) tsm_screen_set_flags(s,a); else tsm_screen_reset_flags(s,a); return 0;
    case Op::DEFATTR: { auto x=to_attr(o.at); tsm_screen_set_def_attr(s,&x); return 0; }
    case Op::WRITE: { auto x=to_attr(o.at); tsm_screen_write(s,o.a,&x); return 0; }
    case Op::RESET: tsm_vte_reset(v); return 0; case Op::HARD: tsm_vte_hard_reset(v); return 0;
    case Op::PALETTE: return tsm_vte_set_palette(v,o.a?nullptr:o.s.c_str());
    case Op::CUSTOM: { if(o.a) return tsm_vte_set_custom_palette(v,nullptr); uint8_t p[18][3]; for(int i=0;i<54;i++) ((uint8_t*)p)[i]=(uint8_t)(i*o.b+o.c); return tsm_vte_set_custom_palette(v,p); }
    case Op::BSDEL: tsm_vte_set_backspace_sends_delete(v,o.a); return 0; }
  return 0; }

struct SnapOpt { bool pic=true,copy=true,ages=false,ev=true,sb=true,flags=true; };
// everything observable, as text; equal states give equal text
inline std::string snapshot(Sut&u,SnapOpt o=SnapOpt()){ std::string r=fmt("size %dx%d cursor %d,%d\n",u.w(),u.h(),u.cx(),u.cy()); struct tsm_screen_attr da;
  if(o.flags){ r+=fmt("screen flags %x terminal flags %x mouse %u/%u\n",tsm_screen_get_flags(u.s),tsm_vte_get_flags(u.v),tsm_vte_get_mouse_mode(u.v),tsm_vte_get_mouse_event(u.v)); tsm_vte_get_def_attr(u.v,&da); r+="default "+from_attr(&da).str()+"\n"; }
  if(o.sb) r+=fmt("scrollback %d lines, position %d\n",u.sbcount(),u.sbpos());
  if(o.ev) for(auto&e:u.ev) r+="event "+e.str()+"\n";
  if(o.copy){ char*t=nullptr; int n=tsm_screen_selection_copy(u.s,&t); r+=fmt("copy %d",n); if(n>=0&&t){ r+=" \""+esc(std::string(t,n))+"\""; vt_free(t);} r+="\n"; }
  if(o.pic){ Pic p=u.draw(); if(o.ages) r+=fmt("draw returns %llu\n",(unsigned long long)p.ret); A last; bool any=false; r.reserve(r.size()+p.c.size()*(o.ages?6:2)+200); char nb[40]; for(int y=0;y<p.h;y++){ r+=fmt("row %d:",y); for(int x=0;x<p.w;x++){ const Cell&k=p.at(x,y); if(!any||k.a!=last){ r+="{"+k.a.str()+"}"; last=k.a; any=true; } if(k.w==0) r+="<0>"; else { if(k.ch>=33&&k.ch<127) r+=(char)k.ch; else { snprintf(nb,sizeof nb,"<%x>",k.ch); r+=nb; } if(k.w!=1){ snprintf(nb,sizeof nb,"<w%d>",k.w); r+=nb; } } if(o.ages){ snprintf(nb,sizeof nb,"@%llu",(unsigned long long)k.age); r+=nb; } } r+="\n"; } }
  return r; }
// first differing line, for messages
inline std::string first_diff(const std::string&a,const std::string&b){ size_t i=0,j=0; while(i<a.size()||j<b.size()){ size_t p=a.find('\n',i),q=b.find('\n',j); if(p==std::string::npos)p=a.size(); if(q==std::string::npos)q=b.size(); std::string x=a.substr(std::min(i,a.size()),p-std::min(i,a.size())),y=b.substr(std::min(j,b.size()),q-std::min(j,b.size())); if(x!=y) return fmt("%.900s\n      versus\n%.900s",x.c_str(),y.c_str()); i=p+1; j=q+1; } return ""; }

namespace gen {
enum Mask { M_RESIZE=1,M_VIEW=2,M_SEL=4,M_KEY=8,M_SCR=16,M_RESET=32,M_PAL=64,M_SB=128,M_SFLAG=256,M_SHARD=512,M_ALT=1024,M_QUERY=2048,M_OSC=4096,M_SAVE=8192,M_WEIRD=16384,M_CHARSET=32768,M_MODE8=65536,M_ALL=(1<<17)-1 };
// one piece of program output of any kind
inline std::string soup(Tape&t,int w,int h,unsigned m=M_ALL){
  for(;;) switch(t.weighted({30,8,12,5,4,4,10,8,7,6,4,3,3,4,3,6,2,2,3})){
    case 0: return text(t,w+3);
    case 1: return control(t);
    case 2: return move(t,w,h);
    case 3: return index(t);
    case 4: return tabs(t,w);
    case 5: return margins(t,h);
    case 6: return edit(t,w,h);
    case 7: return sgr(t);
    case 8: return modes(t,{2,4,12,20,3,4,20},{1,5,6,7,8,25,42,9,1002,1003,1006,1016,3,12,6,7,25});
    case 9: if(m&M_CHARSET) return charset(t); break;
    case 10: if(m&M_ALT) return fmt("\x1b[?%d%c",t.of(std::vector<int>{47,1047,1048,1049,1049}),t.chance(140)?'h':'l'); break;
    case 11: if(m&M_QUERY) return query(t); break;
    case 12: if(m&M_OSC) return osc(t); break;
    case 13: if(m&M_OSC) return str(t); break;
    case 14: if(m&M_SAVE) return savres(t); break;
    case 15: if(m&M_WEIRD) return weird(t); break;
    case 16: if(m&M_WEIRD) return badutf8(t); break;
    case 17: if(m&M_SHARD) return t.of(std::vector<std::string>{"\x1b[!p","\x1b""c","\x1b[61\"p","\x1b[62\"p","\x1b[62;1\"p","\x1b[64;0\"p","\x1b[>p"}); break;
    case 18: return t.of(std::vector<std::string>{"\x1b=","\x1b>","\x1b F","\x1b G","\x1b%G","\x1b#8"}); } }
inline uint32_t keysym(Tape&t){ switch(t.u(6)){ case 0: return 32+t.u(95); case 1: return 65288u+t.u(20); case 2: return 65360u+t.u(26); case 3: return 65408u+t.u(0x40); case 4: return 65470u+t.u(22); default: return t.of(std::vector<uint32_t>{0xff1b,0xffff,0xfe20,0xff0d,0xff8d,0xffe1,0xff08,0x6c1,0,0xffffff}); } }
inline Op keyop(Tape&t){ Op o; o.k=Op::KEY; o.a=keysym(t); o.b= t.chance(40)?(long)(32+t.u(95)):o.a<0x7f?o.a:0; o.c= t.chance(120)?(long)t.u(32):0; switch(t.u(5)){ case 0: o.d=0xffffffff; break; case 1: o.d=t.of(std::vector<uint32_t>{0x7f,0x80,0xa0,0xff,0x100,0xe9,0x7ff,0x800,0x20ac,0x10000,0x1f600,0x10ffff-2}); break; default: o.d=32+t.u(95); } return o; }
inline long huge(Tape&t){ return t.of(std::vector<long>{1<<20,0x7fffffff,0x80000000L,0xffffffffL,0xfffffff0L,65535,65536,0xffffffffL-(long)t.u(300)}); }
inline Op mouseop(Tape&t,int w,int h){ Op o; o.k=Op::MOUSE; o.a=t.chance(20)?(long)t.u(400):(long)t.u(w); o.b=t.chance(20)?(long)t.u(400):(long)t.u(h); if(t.chance(3)) o.a=t.u(0x7fffffff); o.c=t.of(std::vector<int>{0,1,2,4,5}); o.d=t.of(std::vector<int>{1,2,4,4})|(t.chance(60)?(int)t.u(8)*4:0)<<3; return o; }
inline Op input(std::string s){ Op o; o.k=Op::INPUT; o.s=s; return o; }
inline long amount(Tape&t,int dim){ switch(t.weighted({20,30,8,6,3,3})){ case 0: return 1; case 1: return 1+t.u(dim+2); case 2: return dim; case 3: return 0; case 4: return 100+t.u(200); default: return huge(t); } }
inline A attr(Tape&t,bool prot){ A a; if(t.chance(200)){ a.fc=t.range(-1,17); a.bc=t.range(-1,17); a.fr=t.u(256); a.fg=t.u(256); a.fb=t.u(256); a.br=t.u(256); a.bg=t.u(256); a.bb=t.u(256); } a.bold=t.chance(60); a.italic=t.chance(60); a.underline=t.chance(60); a.inverse=t.chance(60); a.blink=t.chance(60); a.protect=prot&&t.chance(100); return a; }
inline const std::vector<std::string>& palettes(){ static std::vector<std::string> v={"","solarized","solarized-black","solarized-white","soft-black","base16-dark","base16-light","vga","legacy","custom","nonsense"}; return v; }
// one operation of any kind on a terminal of about the given size
inline Op op(Tape&t,int w,int h,unsigned m=M_ALL){ Op o;
  for(;;) switch(t.weighted({110,6,10,8,8,14,2,2,4,4})){
    case 0: return input(soup(t,w,h,m));
    case 1: if(m&M_RESIZE){ int W,H; if(t.chance(150)){ W=std::max(1,w+(int)t.range(-3,3)); H=std::max(1,h+(int)t.range(-3,3)); } else do dims(t,W,H); while(W*H>900); o.k=Op::RESIZE; o.a=W; o.b=H; return o; } break;
    case 2: if(m&M_VIEW){ o.k=t.of(std::vector<Op::K>{Op::SBUP,Op::SBUP,Op::SBDOWN,Op::PGUP,Op::PGDN,Op::SBRESET}); o.a= t.chance(8)?huge(t):(o.k==Op::PGUP||o.k==Op::PGDN)? (long)t.u(3):(long)t.u(h+4); return o; } break;
    case 3: if(m&M_SEL){ o.k=t.of(std::vector<Op::K>{Op::SELSTART,Op::SELTARGET,Op::SELTARGET,Op::SELRESET}); o.a=t.u(w+1); o.b=t.u(h+1); if(t.chance(8)) o.a=huge(t); if(t.chance(8)) o.b=huge(t); return o; } break;
    case 4: if(m&M_KEY) return t.chance(180)?keyop(t):mouseop(t,w,h); break;
    case 5: if(m&M_SCR){ switch(t.u(12)){ case 0: o.k=Op::MARGINS; o.a=t.u(h+2); o.b=t.u(h+3); if(t.chance(6)) o.a=huge(t); if(t.chance(6)) o.b=huge(t); return o; case 1: o.k=Op::WRITE; o.a=chr(t); o.at=attr(t,true); return o; case 2: o.k=Op::DEFATTR; o.at=attr(t,false); return o; default: o.k=Op::SCR; o.c=t.u(27); o.a=amount(t,o.c==4||o.c<2||o.c==15||o.c==16||o.c==18?w:h); o.b=t.u(h+1); if(o.c==4&&t.chance(20)) o.b=huge(t); return o; } } break;
    case 6: if(m&M_RESET){ o.k=t.chance(128)?Op::RESET:Op::HARD; return o; } break;
    case 7: if(m&M_PAL){ switch(t.u(3)){ case 0: o.k=Op::CUSTOM; o.a=t.chance(30); o.b=1+t.u(200); o.c=t.u(256); return o; case 1: o.k=Op::BSDEL; o.a=t.u(2); return o; default: o.k=Op::PALETTE; o.a=t.chance(30); o.s=t.of(palettes()); return o; } } break;
    case 8: if(m&M_SB){ if(t.chance(40)){ o.k=Op::CLEARSB; return o; } o.k=Op::MAXSB; o.a=t.chance(128)?t.u(h+6):t.u(4); if(t.chance(10)) o.a=huge(t); return o; } break;
    case 9: if(m&M_SFLAG){ o.k=Op::SFLAG; o.a=1u<<t.u(7); if(t.chance(40)) o.a|=1u<<t.u(7); else if(t.chance(40)) o.a=t.u(128); o.b=t.chance(140); return o; } break; } }
}
