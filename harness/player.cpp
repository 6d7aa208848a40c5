// C39: plays cases on the shared library. Reads tapes from standard input, writes
// transcripts to standard output.
#include "play.h"
// a missing function must not keep the player from being linked
#pragma weak tsm_ucs4_get_width
#pragma weak tsm_ucs4_to_utf8
#pragma weak tsm_ucs4_to_utf8_alloc
#pragma weak tsm_screen_new
#pragma weak tsm_screen_ref
#pragma weak tsm_screen_unref
#pragma weak tsm_screen_get_width
#pragma weak tsm_screen_get_height
#pragma weak tsm_screen_resize
#pragma weak tsm_screen_set_margins
#pragma weak tsm_screen_set_max_sb
#pragma weak tsm_screen_clear_sb
#pragma weak tsm_screen_sb_up
#pragma weak tsm_screen_sb_down
#pragma weak tsm_screen_sb_page_up
#pragma weak tsm_screen_sb_page_down
#pragma weak tsm_screen_sb_reset
#pragma weak tsm_screen_sb_get_line_count
#pragma weak tsm_screen_sb_get_line_pos
#pragma weak tsm_screen_set_def_attr
#pragma weak tsm_screen_reset
#pragma weak tsm_screen_set_flags
#pragma weak tsm_screen_reset_flags
#pragma weak tsm_screen_get_flags
#pragma weak tsm_screen_get_cursor_x
#pragma weak tsm_screen_get_cursor_y
#pragma weak tsm_screen_set_tabstop
#pragma weak tsm_screen_reset_tabstop
#pragma weak tsm_screen_reset_all_tabstops
#pragma weak tsm_screen_write
#pragma weak tsm_screen_newline
#pragma weak tsm_screen_scroll_up
#pragma weak tsm_screen_scroll_down
#pragma weak tsm_screen_move_to
#pragma weak tsm_screen_move_up
#pragma weak tsm_screen_move_down
#pragma weak tsm_screen_move_left
#pragma weak tsm_screen_move_right
#pragma weak tsm_screen_move_line_end
#pragma weak tsm_screen_move_line_home
#pragma weak tsm_screen_tab_right
#pragma weak tsm_screen_tab_left
#pragma weak tsm_screen_insert_lines
#pragma weak tsm_screen_delete_lines
#pragma weak tsm_screen_insert_chars
#pragma weak tsm_screen_delete_chars
#pragma weak tsm_screen_erase_cursor
#pragma weak tsm_screen_erase_chars
#pragma weak tsm_screen_erase_cursor_to_end
#pragma weak tsm_screen_erase_home_to_cursor
#pragma weak tsm_screen_erase_current_line
#pragma weak tsm_screen_erase_screen_to_cursor
#pragma weak tsm_screen_erase_cursor_to_screen
#pragma weak tsm_screen_erase_screen
#pragma weak tsm_screen_selection_reset
#pragma weak tsm_screen_selection_start
#pragma weak tsm_screen_selection_target
#pragma weak tsm_screen_selection_copy
#pragma weak tsm_screen_draw
#pragma weak tsm_vte_new
#pragma weak tsm_vte_ref
#pragma weak tsm_vte_unref
#pragma weak tsm_vte_set_osc_cb
#pragma weak tsm_vte_set_mouse_cb
#pragma weak tsm_vte_set_palette
#pragma weak tsm_vte_set_custom_palette
#pragma weak tsm_vte_get_def_attr
#pragma weak tsm_vte_get_flags
#pragma weak tsm_vte_get_mouse_mode
#pragma weak tsm_vte_get_mouse_event
#pragma weak tsm_vte_reset
#pragma weak tsm_vte_hard_reset
#pragma weak tsm_vte_input
#pragma weak tsm_vte_handle_keyboard
#pragma weak tsm_vte_handle_mouse
#pragma weak tsm_vte_set_backspace_sends_delete
#include <dlfcn.h>
#include <unistd.h>
#include <malloc.h>
extern "C" { void*vt_malloc(size_t n){ return malloc(n); } void*vt_calloc(size_t n,size_t s){ return calloc(n,s); } void*vt_realloc(void*p,size_t n){ return realloc(p,n); } void vt_free(void*p){ free(p); } long vt_live,vt_calls; int(*vt_should_fail)(void); }
std::string vfmt(const char*f,va_list a){ va_list b; va_copy(b,a); int n=vsnprintf(nullptr,0,f,b); va_end(b); std::string s(n,0); vsnprintf(&s[0],n+1,f,a); return s; }
std::string fmt(const char*f,...){ va_list a; va_start(a,f); std::string s=vfmt(f,a); va_end(a); return s; }
std::string esc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c==0x1b) o+="\\e"; else if(c=='\\') o+="\\\\"; else if(c>=32&&c<127) o+=c; else o+=fmt("\\x%02x",c);} return o; }
void fail(const char*f,...){ va_list a; va_start(a,f); std::string s=vfmt(f,a); va_end(a); throw Violation(s); }
void Case::log(const char*,...){}
static const char*names[]={"tsm_ucs4_get_width","tsm_ucs4_to_utf8","tsm_ucs4_to_utf8_alloc","tsm_screen_new","tsm_screen_ref","tsm_screen_unref","tsm_screen_get_width","tsm_screen_get_height","tsm_screen_resize","tsm_screen_set_margins","tsm_screen_set_max_sb","tsm_screen_clear_sb","tsm_screen_sb_up","tsm_screen_sb_down","tsm_screen_sb_page_up","tsm_screen_sb_page_down","tsm_screen_sb_reset","tsm_screen_sb_get_line_count","tsm_screen_sb_get_line_pos","tsm_screen_set_def_attr","tsm_screen_reset","tsm_screen_set_flags","tsm_screen_reset_flags","tsm_screen_get_flags","tsm_screen_get_cursor_x","tsm_screen_get_cursor_y","tsm_screen_set_tabstop","tsm_screen_reset_tabstop","tsm_screen_reset_all_tabstops","tsm_screen_write","tsm_screen_newline","tsm_screen_scroll_up","tsm_screen_scroll_down","tsm_screen_move_to","tsm_screen_move_up","tsm_screen_move_down","tsm_screen_move_left","tsm_screen_move_right","tsm_screen_move_line_end","tsm_screen_move_line_home","tsm_screen_tab_right","tsm_screen_tab_left","tsm_screen_insert_lines","tsm_screen_delete_lines","tsm_screen_insert_chars","tsm_screen_delete_chars","tsm_screen_erase_cursor","tsm_screen_erase_chars","tsm_screen_erase_cursor_to_end","tsm_screen_erase_home_to_cursor","tsm_screen_erase_current_line","tsm_screen_erase_screen_to_cursor","tsm_screen_erase_cursor_to_screen","tsm_screen_erase_screen","tsm_screen_selection_reset","tsm_screen_selection_start","tsm_screen_selection_target","tsm_screen_selection_copy","tsm_screen_draw","tsm_vte_new","tsm_vte_ref","tsm_vte_unref","tsm_vte_set_osc_cb","tsm_vte_set_mouse_cb","tsm_vte_set_palette","tsm_vte_set_custom_palette","tsm_vte_get_def_attr","tsm_vte_get_flags","tsm_vte_get_mouse_mode","tsm_vte_get_mouse_event","tsm_vte_reset","tsm_vte_hard_reset","tsm_vte_input","tsm_vte_handle_keyboard","tsm_vte_handle_mouse","tsm_vte_set_backspace_sends_delete"};
static bool rd(void*p,size_t n){ char*q=(char*)p; while(n){ ssize_t k=read(0,q,n); if(k<=0) return false; q+=k; n-=k; } return true; }
static void wr(const void*p,size_t n){ const char*q=(const char*)p; while(n){ ssize_t k=write(1,q,n); if(k<=0) _exit(3); q+=k; n-=k; } }
int main(int argc,char**argv){ std::string missing; void*lib=argc>1?dlopen(argv[1],RTLD_NOW|RTLD_NOLOAD):nullptr; if(!lib) return 4; for(auto n:names) if(!dlsym(lib,n)) missing+=std::string(missing.size()?", ":"")+n;
  mallopt(M_PERTURB,0x5a); std::vector<uint8_t> buf(Tape::CAP);
  for(;;){ uint32_t h[2]; if(!rd(h,sizeof h)||h[0]>Tape::CAP) return 0; if(!rd(buf.data(),h[0])) return 0; uint32_t len=h[0]; std::string r;
    if(missing.size()) r="the shared library does not offer "+missing; else try { Tape t(buf.data(),&len,false,0); Case c(t,false,h[1]); r=play(c); } catch(std::exception&e){ r=std::string("failed: ")+e.what(); }
    uint32_t n=r.size(); wr(&n,4); wr(r.data(),n); } }
