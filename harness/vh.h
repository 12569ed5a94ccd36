/* Harness: runs the code under test, one command per line, one JSON reply
 * per line.  See vh_main.c for the protocol. */
#ifndef VH_H_
#define VH_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

/* ---- replies (built in a private buffer) ---- */
void out(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void out_hex(const char * key, const void * buf, size_t len);
/* ---- events, appended to the reply as "ev":[...] ---- */
void ev(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_cat(const char *, const void *, size_t, const char *);
void ev_hex(const char * head, const void * buf, size_t len, const char * tail);

/* ---- arguments ---- */
struct args { int n; char ** v; };
struct bytes { uint8_t * p; size_t len; };
struct bytes a_hex(const char *);	/* "-" = empty, "~" = NULL */
uint64_t a_u64(const char *);

/* exact-size heap copy between guard areas, at a chosen misalignment */
struct guarded { uint8_t * p; size_t len; uint8_t * base; size_t total; };
struct guarded g_new(size_t len, size_t mis);
int g_ok(struct guarded *);		/* guards intact? */
void g_free(struct guarded *);

struct cmd { const char * name; void (* fn)(struct args *); };
extern struct cmd cmds_wrap[], cmds_crypto[], cmds_enc[], cmds_parse[], cmds_pass[];

/* ---- interception (vh_wrap.c) ---- */
void trk_start(void);			/* begin watching one API call */
void trk_stop(void);
void trk_report(void);			/* adds fields to the reply */
/* Calls fn(arg) on a stack of its own; scans it afterwards if asked to. */
void call_on_stack(void (* fn)(void *), void * arg);
void point(const char * what);		/* a place where signals may be injected */
extern int quiet_events;
#endif
