#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#define G_DISABLE_CAST_CHECKS 1
#define G_LOG_DOMAIN "GtkTsm"
#include <cairo.h>
#include <errno.h>
#include <glib.h>
#include <glib-unix.h>
#include <gtk/gtk.h>
#include <math.h>
#include <pango/pango.h>
#include <pango/pangocairo.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <xkbcommon/xkbcommon.h>
#ifdef VT_TINY_AGE
#define uint_fast32_t uint8_t
#endif
#include "libtsm.h"
#undef uint_fast32_t
#include "shl-htable.h"
#include "shl-llog.h"
#include "shl-macro.h"
#include "shl-pty.h"
#include "widget.h"

long w_err; char w_errmsg[512];
static void bad(const char *f, ...) { va_list a; if (w_err++) return; va_start(a,f); vsnprintf(w_errmsg,sizeof w_errmsg,f,a); va_end(a); }

/* ---- stand-in for GtkDrawingArea: the class layout and event signals of a GtkWidget ---- */
static gboolean acc_handled(GSignalInvocationHint *h, GValue *ret, const GValue *v, gpointer d){ gboolean b=g_value_get_boolean(v); g_value_set_boolean(ret,b); return !b; }
static void area_class_init(gpointer k, gpointer d){ GType t=G_TYPE_FROM_CLASS(k);
#define EVS(name,field) g_signal_new(name,t,G_SIGNAL_RUN_LAST,G_STRUCT_OFFSET(GtkWidgetClass,field),acc_handled,NULL,NULL,G_TYPE_BOOLEAN,1,G_TYPE_POINTER)
	EVS("configure-event",configure_event); EVS("draw",draw); EVS("key-press-event",key_press_event); EVS("key-release-event",key_release_event);
	EVS("button-press-event",button_press_event); EVS("button-release-event",button_release_event); EVS("motion-notify-event",motion_notify_event); }
static GType w_area_type(void){ static GType t; if(!t){ GTypeInfo i; memset(&i,0,sizeof i); i.class_size=sizeof(GtkDrawingAreaClass); i.class_init=area_class_init; i.instance_size=sizeof(GtkDrawingArea); t=g_type_register_static(G_TYPE_INITIALLY_UNOWNED,"VtDrawingArea",&i,0); } return t; }
static long redraws; static unsigned evmask; static int dummy; static int alw, alh;
static void s_queue_draw(GtkWidget *w){ redraws++; }
static void s_queue_draw_area(GtkWidget *w, gint x, gint y, gint a, gint b){ redraws++; }
static int tr_ok; static guint tr_key; static GdkModifierType tr_cons;
static gboolean s_translate(GdkKeymap *km, guint hw, GdkModifierType st, gint grp, guint *key, gint *eg, gint *lv, GdkModifierType *cons){ if(eg) *eg=0; if(lv) *lv=0; if(!tr_ok){ if(key) *key=0; if(cons) *cons=0; return FALSE; } if(key) *key=tr_key; if(cons) *cons=tr_cons; return TRUE; }

/* ---- simulated pty ---- */
static int w_fork_child; static struct WPty *ptys, *lastpty; static int nextpid=4000; static int brs[16][2], nbr;
static int bridge(int fd){ for(int i=0;i<nbr;i++) if(brs[i][0]==fd) return i; return -1; }
static int known(struct shl_pty *p){ for(struct WPty*q=ptys;q;q=q->next) if((void*)q==(void*)p) return q->refs>0; return 0; }
static void poke(struct WPty *q){ int i=q->bridged?bridge(q->bfd):-1; char c='x'; if(i>=0&&write(brs[i][1],&c,1)<0){} }
static pid_t s_pty_open(struct shl_pty **out, shl_pty_input_fn fn, void *data, unsigned short w, unsigned short h){ struct WPty*q=calloc(1,sizeof*q); q->open=1; q->refs=1; q->cols=w; q->rows=h; q->fn=(void*)fn; q->data=data; q->pid=nextpid++; q->next=ptys; ptys=q; lastpty=q; *out=(void*)q; return w_fork_child?0:q->pid; }
static void s_pty_ref(struct shl_pty *p){ if(!p) return; if(!known(p)){ bad("a released pty is referenced"); return; } ((struct WPty*)p)->refs++; }
static void s_pty_close(struct shl_pty *p){ if(!p) return; if(!known(p)){ bad("a released pty is closed"); return; } ((struct WPty*)p)->open=0; }
static void s_pty_unref(struct shl_pty *p){ if(!p) return; if(!known(p)){ bad("a released pty is released again"); return; } struct WPty*q=(void*)p; if(!--q->refs) q->open=0; }
static bool s_pty_is_open(struct shl_pty *p){ return p && known(p) && ((struct WPty*)p)->open; }
static int s_pty_get_fd(struct shl_pty *p){ return -1; }
static pid_t s_pty_get_child(struct shl_pty *p){ return p&&known(p)?((struct WPty*)p)->pid:-EINVAL; }
static int s_pty_dispatch(struct shl_pty *p){ if(!p) return -EINVAL; if(!known(p)){ bad("a released pty is dispatched"); return -EINVAL; } struct WPty*q=(void*)p; if(!q->open) return -ENODEV; q->dispatches++;
	if(q->inn){ /* like the real one: a bounded buffer per call */ char buf[4096]; size_t n=q->inn<sizeof buf?q->inn:sizeof buf; memcpy(buf,q->in,n); memmove(q->in,q->in+n,q->inn-n); q->inn-=n; char*x=malloc(n); memcpy(x,buf,n); q->fn(p,q->data,x,n); free(x); if(q->inn) poke(q); } return 0; }
static int s_pty_write(struct shl_pty *p, const char *u8, size_t n){ if(!p) return -EINVAL; if(!known(p)){ bad("a released pty is written to"); return -EINVAL; } struct WPty*q=(void*)p; if(!q->open) return -ENODEV; if(q->dispatches>=0){} q->out=realloc(q->out,q->outn+n+1); memcpy(q->out+q->outn,u8,n); q->outn+=n; q->undispatched=1; return 0; }
static int s_pty_signal(struct shl_pty *p, int sig){ if(!p||!known(p)) { bad("a released pty is signalled"); return -EINVAL; } if(!((struct WPty*)p)->open) return -ENODEV; ((struct WPty*)p)->lastsig=sig; return 0; }
static int s_pty_resize(struct shl_pty *p, unsigned short w, unsigned short h){ if(!p) return -EINVAL; if(!known(p)){ bad("a released pty is resized"); return -EINVAL; } struct WPty*q=(void*)p; if(!q->open) return -ENODEV; q->cols=w; q->rows=h; q->resizes++; return 0; }
static int s_bridge_new(void){ int p[2]; if(pipe(p)) return -errno; fcntl(p[0],F_SETFL,O_NONBLOCK); fcntl(p[1],F_SETFL,O_NONBLOCK); if(nbr==16) return -ENOMEM; brs[nbr][0]=p[0]; brs[nbr++][1]=p[1]; return p[0]; }
static void s_bridge_free(int b){ int i=bridge(b); if(i<0) { bad("an unknown bridge is released"); return; } close(brs[i][0]); close(brs[i][1]); --nbr; brs[i][0]=brs[nbr][0]; brs[i][1]=brs[nbr][1]; }
static int s_bridge_dispatch_pty(int b, struct shl_pty *p){ if(bridge(b)<0) { bad("an unknown bridge is used"); return -EINVAL; } if(!known(p)){ bad("the bridge dispatches a released pty"); return -EINVAL; } ((struct WPty*)p)->undispatched=0; int r=s_pty_dispatch(p); return r==-ENODEV||r==-EAGAIN?0:r; }
static int s_bridge_dispatch(int b, int timeout){ if(bridge(b)<0) { bad("an unknown bridge is used"); return -EINVAL; } if(timeout) bad("the main loop waits in the bridge"); char c[64]; while(read(b,c,sizeof c)>0); for(struct WPty*q=ptys;q;q=q->next) if(q->refs>0&&q->bridged&&q->bfd==b&&q->open){ q->undispatched=0; s_pty_dispatch((void*)q); break; } return 0; }
static int s_bridge_add(int b, struct shl_pty *p){ if(bridge(b)<0||!known(p)){ bad("adding to the bridge"); return -EINVAL; } ((struct WPty*)p)->bridged=1; ((struct WPty*)p)->bfd=b; if(((struct WPty*)p)->inn) poke((void*)p); return 0; }
static void s_bridge_remove(int b, struct shl_pty *p){ if(bridge(b)<0||!known(p)){ bad("removing a pty from the bridge"); return; } ((struct WPty*)p)->bridged=0; }
static struct { guint id; GChildWatchFunc fn; gpointer data; GPid pid; } cw[16]; static int ncw;
static gboolean never(gpointer d){ return TRUE; }
static guint s_child_watch(GPid pid, GChildWatchFunc fn, gpointer data){ int i; for(i=0;i<ncw&&cw[i].id&&g_main_context_find_source_by_id(NULL,cw[i].id);i++); if(i==16){ bad("too many children are watched"); return 0; } if(i==ncw) ncw++; cw[i].pid=pid; cw[i].fn=fn; cw[i].data=data; return cw[i].id=g_timeout_add_seconds(G_MAXUINT/2000,never,NULL); }

static struct tsm_screen *cap_screen; static struct tsm_vte *cap_vte;
static int s_screen_new(struct tsm_screen **out, tsm_log_t log, void *d){ int r=tsm_screen_new(out,log,d); if(!r) cap_screen=*out; return r; }
static int s_vte_new(struct tsm_vte **out, struct tsm_screen *con, tsm_vte_write_cb w, void *d, tsm_log_t log, void *ld){ int r=tsm_vte_new(out,con,w,d,log,ld); if(!r) cap_vte=*out; return r; }

#undef GTK_TYPE_DRAWING_AREA
#define GTK_TYPE_DRAWING_AREA w_area_type()
#undef GTK_WIDGET
#define GTK_WIDGET(o) ((GtkWidget*)(o))
#define gtk_widget_queue_draw s_queue_draw
#define gtk_widget_queue_draw_area s_queue_draw_area
#define gtk_widget_get_window(w) ((GdkWindow*)&dummy)
#define gtk_widget_get_allocated_width(w) (alw)
#define gtk_widget_get_allocated_height(w) (alh)
#define gdk_window_get_events(w) ((GdkEventMask)evmask)
#define gdk_window_set_events(w,m) ((void)(evmask=(m)))
#define gtk_widget_add_events(w,m) ((void)(evmask|=(m)))
#define gtk_widget_get_display(w) ((GdkDisplay*)&dummy)
#define gdk_display_get_default() ((GdkDisplay*)&dummy)
#define gdk_keymap_get_for_display(d) ((GdkKeymap*)&dummy)
#define gdk_keymap_get_default() ((GdkKeymap*)&dummy)
#define gdk_keymap_translate_keyboard_state s_translate
#define gtk_widget_set_can_focus(w,b) ((void)(w),(void)(b))
#define shl_pty_open s_pty_open
#define shl_pty_ref s_pty_ref
#define shl_pty_unref s_pty_unref
#define shl_pty_close s_pty_close
#define shl_pty_is_open s_pty_is_open
#define shl_pty_get_fd s_pty_get_fd
#define shl_pty_get_child s_pty_get_child
#define shl_pty_dispatch s_pty_dispatch
#define shl_pty_write s_pty_write
#define shl_pty_signal s_pty_signal
#define shl_pty_resize s_pty_resize
#define shl_pty_bridge_new s_bridge_new
#define shl_pty_bridge_free s_bridge_free
#define shl_pty_bridge_dispatch s_bridge_dispatch
#define shl_pty_bridge_dispatch_pty s_bridge_dispatch_pty
#define shl_pty_bridge_add s_bridge_add
#define shl_pty_bridge_remove s_bridge_remove
#undef g_child_watch_add
#define g_child_watch_add s_child_watch
#define tsm_screen_new s_screen_new
#define tsm_vte_new s_vte_new
#ifdef VT_COUNT
void *vt_malloc(size_t n); void *vt_calloc(size_t n, size_t s); void *vt_realloc(void *p, size_t n); void vt_free(void *p);
#define malloc vt_malloc
#define calloc vt_calloc
#define realloc vt_realloc
#define free vt_free
#endif
#include "gtktsm-terminal.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef tsm_screen_new
#undef tsm_vte_new

/* ---- what the checks call ---- */
struct WX { struct W w; struct WPty *pty; int freed, stops, nt; char **titles; };
static void on_gone(gpointer d, GObject *o){ ((struct WX*)d)->freed=1; }
static void on_title(GtkTsmTerminal *t, gchar *s, gpointer d){ struct WX*x=d; x->titles=realloc(x->titles,(x->nt+1)*sizeof(char*)); x->titles[x->nt++]=strdup(s?s:"(null)"); }
static void on_stop(GtkTsmTerminal *t, gpointer d){ ((struct WX*)d)->stops++; }
struct W *w_new(void){ struct WX*x=calloc(1,sizeof*x); w_err=0; evmask=0; cap_screen=NULL; cap_vte=NULL; x->w.obj=gtktsm_terminal_new(); x->w.screen=cap_screen; x->w.vte=cap_vte; g_object_ref_sink(x->w.obj); g_object_weak_ref(x->w.obj,on_gone,x);
	g_signal_connect(x->w.obj,"terminal-title-changed",G_CALLBACK(on_title),x); g_signal_connect(x->w.obj,"terminal-stopped",G_CALLBACK(on_stop),x); return &x->w; }
void w_free(struct W *w){ g_object_unref(w->obj); }
int w_alive(struct W *w){ return !((struct WX*)w)->freed; }
int w_fork(struct W *w){ lastpty=NULL; int r=gtktsm_terminal_fork(w->obj); if(lastpty) ((struct WX*)w)->pty=lastpty; return r; }
void w_kill(struct W *w, int sig){ gtktsm_terminal_kill(w->obj,sig); }
struct WPty *w_pty(struct W *w){ return ((struct WX*)w)->pty; }
int w_ptys_left(void){ int n=0; for(struct WPty*q=ptys;q;q=q->next) n+=q->refs>0; return n; }
void w_ptys_clear(void){ struct WPty**p=&ptys; while(*p){ struct WPty*q=*p; if(q->refs>0){ p=&q->next; continue; } *p=q->next; free(q->out); free(q->in); free(q); } lastpty=NULL; }
void w_feed(struct W *w, const char *u8, size_t n){ struct WPty*q=((struct WX*)w)->pty; if(!q||!q->open) return; q->in=realloc(q->in,q->inn+n+1); memcpy(q->in+q->inn,u8,n); q->inn+=n; poke(q); w_spin(w); }
void w_spin(struct W *w){ for(int i=0;i<200&&g_main_context_iteration(NULL,FALSE);i++); }
void w_child_exit(struct W *w){ struct WPty*q=((struct WX*)w)->pty; if(!q) return; for(int i=0;i<ncw;i++) if(cw[i].pid==q->pid&&cw[i].id&&g_main_context_find_source_by_id(NULL,cw[i].id)){ guint id=cw[i].id; cw[i].id=0; cw[i].fn(cw[i].pid,0,cw[i].data); /* the source ends after its callback */ if(g_main_context_find_source_by_id(NULL,id)) g_source_remove(id); w_spin(w); return; } }
static int emit(struct W *w, const char *sig, void *p){ gboolean r=FALSE; g_signal_emit_by_name(w->obj,sig,p,&r); return r; }
int w_configure(struct W *w, int width, int height){ GdkEventConfigure e; memset(&e,0,sizeof e); e.type=GDK_CONFIGURE; e.width=alw=width; e.height=alh=height; return emit(w,"configure-event",&e); }
int w_draw(struct W *w, int width, int height, uint32_t *argb){ cairo_surface_t*s=cairo_image_surface_create_for_data((void*)argb,CAIRO_FORMAT_ARGB32,width,height,width*4); cairo_t*cr=cairo_create(s); int r=emit(w,"draw",cr); cairo_destroy(cr); cairo_surface_flush(s); cairo_surface_destroy(s); return r; }
int w_key(struct W *w, unsigned keyval, unsigned state, int translated, unsigned key, unsigned consumed, int release){ GdkEventKey e; memset(&e,0,sizeof e); e.type=release?GDK_KEY_RELEASE:GDK_KEY_PRESS; e.keyval=keyval; e.state=state; e.hardware_keycode=42; tr_ok=translated; tr_key=key; tr_cons=consumed; return emit(w,"key-press-event",&e); }
int w_button(struct W *w, int type, unsigned button, double x, double y, unsigned time){ GdkEventButton e; memset(&e,0,sizeof e); e.type=type==1?GDK_BUTTON_PRESS:type==2?GDK_2BUTTON_PRESS:type==3?GDK_3BUTTON_PRESS:GDK_BUTTON_RELEASE; e.button=button; e.x=x; e.y=y; e.time=time; return emit(w,type?"button-press-event":"button-release-event",&e); }
int w_motion(struct W *w, double x, double y){ GdkEventMotion e; memset(&e,0,sizeof e); e.type=GDK_MOTION_NOTIFY; e.x=x; e.y=y; e.state=GDK_BUTTON1_MASK; return emit(w,"motion-notify-event",&e); }
void w_set_str(struct W *w, const char *p, const char *v){ g_object_set(w->obj,p,v,NULL); }
void w_set_uint(struct W *w, const char *p, unsigned v){ g_object_set(w->obj,p,v,NULL); }
void w_set_bool(struct W *w, const char *p, int v){ g_object_set(w->obj,p,v?TRUE:FALSE,NULL); }
char *w_get_str(struct W *w, const char *p){ gchar*s=NULL; g_object_get(w->obj,p,&s,NULL); char*r=s?strdup(s):NULL; g_free(s); return r; }
unsigned w_get_uint(struct W *w, const char *p){ guint v=0; g_object_get(w->obj,p,&v,NULL); return v; }
int w_get_bool(struct W *w, const char *p){ gboolean v=0; g_object_get(w->obj,p,&v,NULL); return v; }
long w_redraws(void){ return redraws; }
int w_titles(struct W *w, char ***out){ struct WX*x=(void*)w; *out=x->titles; return x->nt; }
int w_stops(struct W *w){ return ((struct WX*)w)->stops; }
unsigned w_events(void){ return evmask; }
