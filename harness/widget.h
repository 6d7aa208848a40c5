// The example terminal widget (src/gtktsm/gtktsm-terminal.c) without a display:
// a stand-in for GtkDrawingArea, a simulated pty, the real GLib main loop.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct tsm_screen; struct tsm_vte; struct shl_pty;
struct WPty { int open, refs, bridged, bfd, cols, rows, undispatched, pid; int resizes, dispatches; char *out; size_t outn; char *in; size_t inn; void (*fn)(struct shl_pty*,void*,char*,size_t); void *data; struct WPty *next; int lastsig; };
struct W { void *obj; struct tsm_screen *screen; struct tsm_vte *vte; };
struct W *w_new(void);
void w_free(struct W *w);                 /* drops the last reference */
int w_alive(struct W *w);                 /* the object still exists after w_free */
int w_fork(struct W *w);                  /* gtktsm_terminal_fork: pid or -errno */
void w_kill(struct W *w, int sig);
struct WPty *w_pty(struct W *w);          /* the pty of the last successful fork, or NULL */
int w_ptys_left(void);                    /* simulated ptys still referenced */
void w_ptys_clear(void);
void w_feed(struct W *w, const char *u8, size_t n); /* the child writes */
void w_child_exit(struct W *w);           /* the child ends */
void w_spin(struct W *w);                 /* run the main loop until idle */
int w_configure(struct W *w, int width, int height);
int w_draw(struct W *w, int width, int height, uint32_t *argb); /* "draw" onto a width x height surface */
int w_key(struct W *w, unsigned keyval, unsigned state, int translated, unsigned key, unsigned consumed, int release);
int w_button(struct W *w, int type, unsigned button, double x, double y, unsigned time); /* 1,2,3 = press, double, triple; 0 = release */
int w_motion(struct W *w, double x, double y);
void w_set_str(struct W *w, const char *prop, const char *val);
void w_set_uint(struct W *w, const char *prop, unsigned val);
void w_set_bool(struct W *w, const char *prop, int val);
char *w_get_str(struct W *w, const char *prop); /* free() */
unsigned w_get_uint(struct W *w, const char *prop);
int w_get_bool(struct W *w, const char *prop);
long w_redraws(void);                     /* redraws requested so far */
int w_titles(struct W *w, char ***out);   /* titles announced so far */
int w_stops(struct W *w);                 /* "terminal-stopped" so far */
unsigned w_events(void);                  /* event mask of the window */
extern long w_err; extern char w_errmsg[512]; /* misuse of the simulated pty */
#ifdef __cplusplus
}
#endif
