// Direct calls of the public screen API, mirrored on the reference.
#pragma once
#include "world.h"
#include "script.h"
namespace ops {
inline long huge(Tape&t){ return t.of(std::vector<long>{1<<20,0x7fffffff,0x80000000L,0xffffffffL,0xfffffff0L,65535,65536,0xffffffffL-(long)t.u(300)}); }
inline long amount(Tape&t,int dim){ switch(t.weighted({20,30,8,6,3,3})){ case 0: return 1; case 1: return 1+t.u(dim+2); case 2: return dim; case 3: return 0; case 4: return 100+t.u(200); default: return huge(t); } }
inline void cursor(World&w){ Tape&t=w.t; auto*s=w.u.s; auto&m=w.m; int W=m.w,H=m.h; long n;
  switch(t.u(14)){
    case 0: n=amount(t,W); w.u.L("move_left",{n}); tsm_screen_move_left(s,n); m.left(n); break;
    case 1: n=amount(t,W); w.u.L("move_right",{n}); tsm_screen_move_right(s,n); m.right(n); break;
    case 2: { n=amount(t,H); bool sc=t.chance(64); w.u.L("move_up",{n,sc}); tsm_screen_move_up(s,n,sc); m.up(n,sc); break; }
    case 3: { n=amount(t,H); bool sc=t.chance(64); w.u.L("move_down",{n,sc}); tsm_screen_move_down(s,n,sc); m.down(n,sc); break; }
    case 4: case 5: { long x=amount(t,W)-1,y=amount(t,H)-1; if(x<0)x=0; if(y<0)y=0; if(t.chance(20)) y=huge(t); w.u.L("move_to",{x,y}); tsm_screen_move_to(s,x,y); m.move_to(x,y); break; }
    case 6: w.u.L("line_home",{}); tsm_screen_move_line_home(s); m.home(); break;
    case 7: w.u.L("line_end",{}); tsm_screen_move_line_end(s); m.line_end(); break;
    case 8: w.u.L("newline",{}); tsm_screen_newline(s); m.newline_op(); break;
    case 9: n=amount(t,W/8); w.u.L("tab_right",{n}); tsm_screen_tab_right(s,n); m.tab_right(n); break;
    case 10: n=amount(t,W/8); w.u.L("tab_left",{n}); tsm_screen_tab_left(s,n); m.tab_left(n); break;
    case 11: w.u.L("set_tabstop",{}); tsm_screen_set_tabstop(s); m.set_tab(); break;
    case 12: w.u.L("reset_tabstop",{}); tsm_screen_reset_tabstop(s); m.clear_tab(); break;
    default: if(t.chance(64)){ w.u.L("reset_all_tabstops",{}); tsm_screen_reset_all_tabstops(s); m.clear_tabs(); } } }
inline void margins(World&w){ Tape&t=w.t; long a=t.u(w.m.h+2),b=t.u(w.m.h+3); if(t.chance(6)) a=huge(t); if(t.chance(6)) b=huge(t); w.u.L("set_margins",{a,b}); tsm_screen_set_margins(w.u.s,a,b); w.m.set_margins(a,b); }
inline void edit(World&w){ Tape&t=w.t; auto*s=w.u.s; auto&m=w.m; long n; bool p;
  switch(t.u(14)){
    case 0: n=amount(t,m.h); w.u.L("insert_lines",{n}); tsm_screen_insert_lines(s,n); m.insert_lines(n); break;
    case 1: n=amount(t,m.h); w.u.L("delete_lines",{n}); tsm_screen_delete_lines(s,n); m.delete_lines(n); break;
    case 2: n=amount(t,m.w); w.u.L("insert_chars",{n}); tsm_screen_insert_chars(s,n); m.insert_chars(n); break;
    case 3: n=amount(t,m.w); w.u.L("delete_chars",{n}); tsm_screen_delete_chars(s,n); m.delete_chars(n); break;
    case 4: n=amount(t,m.w); w.u.L("erase_chars",{n}); tsm_screen_erase_chars(s,n); m.erase_chars(n); break;
    case 5: w.u.L("erase_cursor",{}); tsm_screen_erase_cursor(s); m.erase_cursor(); break;
    case 6: p=t.chance(80); w.u.L("erase_cursor_to_end",{p}); tsm_screen_erase_cursor_to_end(s,p); m.el0(p); break;
    case 7: p=t.chance(80); w.u.L("erase_home_to_cursor",{p}); tsm_screen_erase_home_to_cursor(s,p); m.el1(p); break;
    case 8: p=t.chance(80); w.u.L("erase_current_line",{p}); tsm_screen_erase_current_line(s,p); m.el2(p); break;
    case 9: p=t.chance(80); w.u.L("erase_cursor_to_screen",{p}); tsm_screen_erase_cursor_to_screen(s,p); m.ed0(p); break;
    case 10: p=t.chance(80); w.u.L("erase_screen_to_cursor",{p}); tsm_screen_erase_screen_to_cursor(s,p); m.ed1(p); break;
    case 11: p=t.chance(80); w.u.L("erase_screen",{p}); tsm_screen_erase_screen(s,p); m.ed2(p); break;
    case 12: n=amount(t,m.h); w.u.L("scroll_up",{n}); tsm_screen_scroll_up(s,n); m.scroll_up(n); break;
    default: n=amount(t,m.h); w.u.L("scroll_down",{n}); tsm_screen_scroll_down(s,n); m.scroll_down(n); } }
inline A attr(Tape&t,bool prot){ A a; if(t.chance(200)){ a.fc=t.range(-1,17); a.bc=t.range(-1,17); a.fr=t.u(256); a.fg=t.u(256); a.fb=t.u(256); a.br=t.u(256); a.bg=t.u(256); a.bb=t.u(256); } a.bold=t.chance(60); a.italic=t.chance(60); a.underline=t.chance(60); a.inverse=t.chance(60); a.blink=t.chance(60); a.protect=prot&&t.chance(100); return a; }
inline void write(World&w,uint32_t ch,const A&a){ w.u.L("write",{(long)ch,a.protect}); w.c.mix(a.str()); struct tsm_screen_attr sa=to_attr(a); tsm_screen_write(w.u.s,ch,&sa); w.m.write(ch,a); }
inline void set_def_attr(World&w,const A&a){ w.u.L("set_def_attr",{}); w.c.mix(a.str()); if(w.c.verbose) w.c.log("   %s",a.str().c_str()); struct tsm_screen_attr sa=to_attr(a); tsm_screen_set_def_attr(w.u.s,&sa); w.m.def=a; }
inline void sflags(World&w,unsigned mask,bool on){ w.u.L(on?"set_flags":"reset_flags",{(long)mask}); if(on){ tsm_screen_set_flags(w.u.s,mask); w.m.set_flags(mask);} else { tsm_screen_reset_flags(w.u.s,mask); w.m.reset_flags(mask);} }
inline void sb_up(World&w,long n){ w.u.L("sb_up",{n}); tsm_screen_sb_up(w.u.s,n); w.m.sb_up(n); }
inline void sb_down(World&w,long n){ w.u.L("sb_down",{n}); tsm_screen_sb_down(w.u.s,n); w.m.sb_down(n); }
inline void sb_page_up(World&w,long n){ w.u.L("sb_page_up",{n}); tsm_screen_sb_page_up(w.u.s,n); w.m.sb_up(n*w.m.h); }
inline void sb_page_down(World&w,long n){ w.u.L("sb_page_down",{n}); tsm_screen_sb_page_down(w.u.s,n); w.m.sb_down(n*w.m.h); }
inline void sb_reset(World&w){ w.u.L("sb_reset",{}); tsm_screen_sb_reset(w.u.s); w.m.sb_reset(); }
inline void clear_sb(World&w){ w.u.L("clear_sb",{}); tsm_screen_clear_sb(w.u.s); w.m.clear_sb(); }
inline void sel_start(World&w,long x,long y){ w.u.L("selection_start",{x,y}); tsm_screen_selection_start(w.u.s,x,y); w.m.sel_start(x,y); }
inline void sel_target(World&w,long x,long y){ w.u.L("selection_target",{x,y}); tsm_screen_selection_target(w.u.s,x,y); w.m.sel_target(x,y); }
inline void sel_reset(World&w){ w.u.L("selection_reset",{}); tsm_screen_selection_reset(w.u.s); w.m.sel_reset(); }
inline void view(World&w){ Tape&t=w.t; switch(t.weighted({8,8,4,4,2,1})){ case 0: sb_up(w,t.u(w.m.h+4)); break; case 1: sb_down(w,t.u(w.m.h+4)); break; case 2: sb_page_up(w,t.u(3)); break; case 3: sb_page_down(w,t.u(3)); break; case 4: sb_reset(w); break; default: switch(t.u(4)){ case 0: sb_up(w,huge(t)); break; case 1: sb_down(w,huge(t)); break; case 2: sb_page_up(w,huge(t)); break; default: sb_page_down(w,huge(t)); } } }
inline void vreset(World&w,bool hard){ w.u.L(hard?"hard_reset":"reset",{}); if(hard){ tsm_vte_hard_reset(w.u.v); w.v->hard_reset(); } else { tsm_vte_reset(w.u.v); w.v->reset(); } }
// Settings a check is not about: whatever it decides has to hold under them too.
enum { AMB_SEL=1, AMB_NOVIEW=2, AMB_NOALT=4 };
inline void ambient(World&w,unsigned how=0){ Tape&t=w.t; if(!t.chance(90)) return; w.c.label("unrelated settings"); int n=1+t.u(4);
  static const std::vector<std::string> modes={"\x1b[?5h","\x1b[?25l","\x1b[?6h","\x1b[4h","\x1b[?7l","\x1b[20h","\x1b[2h","\x1b=","\x1b[?1h","\x1b[?1000h","\x1b[?1002h","\x1b[?1003h","\x1b[?1006h","\x1b[?1016h","\x1b[?9h","\x1b[?42h","\x1b[?8l","\x1b[?1048h","\x1b""7","\x1b[3g","\x1b[31m","\x1b[1;4;7m","\x1b[38;2;1;2;3m","\x1b[48;5;100m","\x1b[0;45m","\x1b(0","\x1b)<\x0e","\x1b*0\x1bn","\x1b+0\x1bo","\x1b|","\x1bN","\x1b G","\xc2\x8f"};
  while(n--) switch(t.weighted({10,3,2,2,3,(how&AMB_NOALT)?0:2,2,(how&AMB_SEL)?3:0,2})){
    case 0: w.input(t.of(modes)); break;
    case 1: { const std::string&nm=t.of(gen::palettes()); w.u.L("set_palette",{}); w.c.mix(nm); if(w.c.verbose) w.c.log("   %s",nm.c_str()); tsm_vte_set_palette(w.u.v,nm.c_str()); w.v->set_palette(nm.c_str()); break; }
    case 2: sflags(w,TSM_SCREEN_FIXED_POS,true); break;
    case 3: w.u.L("backspace_sends_delete",{1}); tsm_vte_set_backspace_sends_delete(w.u.v,true); w.v->bsdel=true; break;
    case 4: { w.max_sb(1+t.u(9)); w.input(std::string(1+t.u(w.m.h+9),'\n')+"\x1b[H"); if(!(how&AMB_NOVIEW)&&t.chance(128)) sb_up(w,1+t.u(5)); break; }
    case 5: w.input(t.of(std::vector<std::string>{"\x1b[?47h","\x1b[?1047h","\x1b[?1049h"})); break;
    case 6: margins(w); break;
    case 7: sel_start(w,t.u(w.m.w),t.u(w.m.h)); sel_target(w,t.u(w.m.w),t.u(w.m.h)); break;
    default: { int x=w.m.w,y=w.m.h; w.size(x+t.u(4),y+t.u(4)); w.size(x,y); } } }
}
