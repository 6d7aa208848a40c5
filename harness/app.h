// The example program (src/gtktsm/gtktsm-app.c, gtktsm-win.c) without a display:
// stand-ins for GtkApplication and GtkWindow, a recorded execve.
#pragma once
#include "widget.h"
#ifdef __cplusplus
extern "C" {
#endif
struct Win { void *obj; struct W *w; int open, presented, destroyed; char *title; };
int a_run(int argc, char **argv, int child);  /* the program's main(); child: fork() returns on the child's side. Exit status */
int a_wins(void);                             /* windows made by the last run */
struct Win *a_win(int i);
int a_apps_left(void);
char *a_out(void);                            /* printed on stdout by the last run, free() */
char *a_err(void);
struct Exec { int called, exited; char *path; char **argv, **envp; };
struct Exec *a_exec(void);
void a_close(int i);                          /* the user closes window i */
void a_clear(void);                           /* closes what is left */
#ifdef __cplusplus
}
#endif
