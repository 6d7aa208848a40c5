#include "widget.c"
#include <paths.h>
#include <setjmp.h>
#include "app.h"

static struct Win wins[64]; static int nwins; static int child_side;
static struct Exec ex; static GString *so, *se;
static struct W *wrap(void *term){ struct WX*x=calloc(1,sizeof*x); x->w.obj=term; x->w.screen=cap_screen; x->w.vte=cap_vte; g_object_weak_ref(term,on_gone,x); g_signal_connect(term,"terminal-stopped",G_CALLBACK(on_stop),x); x->pty=NULL; return &x->w; }
static struct Win *win_of(void *o){ for(int i=0;i<nwins;i++) if(wins[i].obj==o) return &wins[i]; return NULL; }
static void win_gone(gpointer d, GObject *o){ struct Win*w=d; w->open=0; }
/* like gtk: the toolkit holds the window until it is destroyed, the window its child */
static void vw_set(GObject *o, guint id, const GValue *v, GParamSpec *s){}
static void vw_get(GObject *o, guint id, GValue *v, GParamSpec *s){ g_value_set_object(v,NULL); }
static void vw_class(gpointer k, gpointer d){ GObjectClass*c=k; c->set_property=vw_set; c->get_property=vw_get; g_object_class_install_property(c,1,g_param_spec_object("application","a","a",G_TYPE_APPLICATION,G_PARAM_READWRITE)); }
static void vw_init(GTypeInstance *i, gpointer k){ g_object_ref_sink(i); if(nwins==64){ bad("too many windows"); return; } struct Win*w=&wins[nwins++]; memset(w,0,sizeof*w); w->obj=i; w->open=1; g_object_weak_ref((GObject*)i,win_gone,w); }
static GType vw_type(void){ static GType t; if(!t){ GTypeInfo i; memset(&i,0,sizeof i); i.class_size=sizeof(GtkWindowClass); i.class_init=vw_class; i.instance_size=sizeof(GtkWindow); i.instance_init=vw_init; t=g_type_register_static(G_TYPE_INITIALLY_UNOWNED,"VtWindow",&i,0); } return t; }
static GType va_type(void){ static GType t; if(!t){ GTypeInfo i; memset(&i,0,sizeof i); i.class_size=sizeof(GtkApplicationClass); i.instance_size=sizeof(GtkApplication); t=g_type_register_static(G_TYPE_APPLICATION,"VtApplication",&i,0); } return t; }
static void s_container_add(GtkContainer *c, GtkWidget *w){ struct Win*x=win_of(c); if(!x||x->w){ bad("a second widget is added"); return; } g_object_ref_sink(w); x->w=wrap(w); }
static void s_destroy(GtkWidget *o){ struct Win*x=win_of(o); if(!x||!x->open){ bad("a gone window is destroyed"); return; } if(x->destroyed++) { bad("a window is destroyed twice"); return; } if(x->w) g_object_unref(x->w->obj); g_object_unref(o); }
static void s_title(GtkWindow *o, const gchar *t){ struct Win*x=win_of(o); if(!x||x->destroyed){ bad("a gone window gets a title"); return; } free(x->title); x->title=strdup(t?t:"(null)"); }
static void s_present(GtkWindow *o){ struct Win*x=win_of(o); if(!x||x->destroyed){ bad("a gone window is presented"); return; } x->presented++; }
static int s_execve(const char *p, char *const *av, char *const *ev){ if(ex.called++) { bad("execve is called again"); return -1; } ex.path=strdup(p?p:"(null)"); int n=0; while(av&&av[n]) n++; ex.argv=calloc(n+1,sizeof(char*)); for(int i=0;i<n;i++) ex.argv[i]=strdup(av[i]); n=0; while(ev&&ev[n]) n++; ex.envp=calloc(n+1,sizeof(char*)); for(int i=0;i<n;i++) ex.envp[i]=strdup(ev[i]); return 0; }
extern char **environ;
static int s_execv(const char *p, char *const *av){ return s_execve(p,av,environ); }
static void s_exit(int c){ ex.exited++; }
static void on_print(const gchar *s){ g_string_append(so,s); }
static void on_printerr(const gchar *s){ g_string_append(se,s); }
static pid_t a_fork(GtkTsmTerminal *t){ lastpty=NULL; pid_t r=gtktsm_terminal_fork(t); for(int i=0;i<nwins;i++) if(wins[i].w&&wins[i].w->obj==(void*)t&&lastpty) ((struct WX*)wins[i].w)->pty=lastpty; return r; }

#undef GTK_TYPE_WINDOW
#define GTK_TYPE_WINDOW vw_type()
#undef GTK_TYPE_APPLICATION
#define GTK_TYPE_APPLICATION va_type()
#undef gtk_widget_get_window
#define gtk_container_add s_container_add
#define gtk_widget_destroy s_destroy
#define gtk_widget_show(w) ((void)(w))
#define gtk_window_set_title s_title
#define gtk_window_present s_present
#define gtk_window_set_default_size(w,a,b) ((void)(w),(void)(a),(void)(b))
#undef execve
#define execve s_execve
#undef execv
#define execv s_execv
#undef execvp
#define execvp s_execv
#undef execvpe
#define execvpe s_execve
#undef _exit
#define _exit s_exit
#define gtktsm_terminal_fork a_fork
#include "gtktsm-win.c"
#include "gtktsm-app.c"
#undef gtktsm_terminal_fork
#undef execve
#undef execv
#undef execvp
#undef execvpe
#undef _exit

static int apps; static void app_gone(gpointer d, GObject *o){ apps--; }
int a_run(int argc, char **argv, int child){
	static int once; if(!once){ once=1; so=g_string_new(""); se=g_string_new(""); g_set_print_handler(on_print); g_set_printerr_handler(on_printerr); g_set_application_name("GtkTsm"); }
	a_clear(); g_string_truncate(so,0); g_string_truncate(se,0); w_err=0; w_fork_child=child;
	GApplication *app=(GApplication*)gtktsm_app_new(); apps++; g_object_weak_ref((GObject*)app,app_gone,NULL);
	g_application_set_flags(app,g_application_get_flags(app)|G_APPLICATION_NON_UNIQUE);
	int r=g_application_run(app,argc,argv); g_object_unref(app); w_fork_child=0; return r; }
int a_wins(void){ return nwins; }
struct Win *a_win(int i){ return &wins[i]; }
int a_apps_left(void){ return apps; }
char *a_out(void){ return strdup(so->str); }
char *a_err(void){ return strdup(se->str); }
struct Exec *a_exec(void){ return &ex; }
void a_close(int i){ if(wins[i].open&&!wins[i].destroyed) s_destroy(wins[i].obj); }
static void drop(char **v){ if(!v) return; for(char**p=v;*p;p++) free(*p); free(v); }
void a_clear(void){ for(int i=0;i<nwins;i++){ a_close(i); struct WX*x=(void*)wins[i].w; if(x){ for(int k=0;k<x->nt;k++) free(x->titles[k]); free(x->titles); free(x); } free(wins[i].title); } nwins=0; w_ptys_clear(); free(ex.path); drop(ex.argv); drop(ex.envp); memset(&ex,0,sizeof ex); }
