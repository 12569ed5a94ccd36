#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vh.h"

extern void * __real_malloc(size_t);
extern void * __real_realloc(void *, size_t);
extern void __real_free(void *);

struct sb { char * p; size_t len, cap; };
static struct sb rep, evs;

static void
sb_room(struct sb * b, size_t n)
{
	if (b->len + n + 1 > b->cap) {
		b->cap = (b->len + n + 1) * 2 + 4096;
		/* A loop without end? */
		if (b->cap > (size_t)3 << 29)
			_exit(98);
		if ((b->p = __real_realloc(b->p, b->cap)) == NULL)
			_exit(99);
	}
}

static void
sb_v(struct sb * b, const char * fmt, va_list ap)
{
	va_list ap2;
	int n;

	va_copy(ap2, ap);
	n = vsnprintf(NULL, 0, fmt, ap2);
	va_end(ap2);
	sb_room(b, (size_t)n);
	vsnprintf(b->p + b->len, (size_t)n + 1, fmt, ap);
	b->len += (size_t)n;
}

static void
sb_hex(struct sb * b, const void * buf, size_t len)
{
	static const char d[] = "0123456789abcdef";
	const uint8_t * p = buf;
	size_t i;

	sb_room(b, 2 * len);
	for (i = 0; i < len; i++) {
		b->p[b->len++] = d[p[i] >> 4];
		b->p[b->len++] = d[p[i] & 15];
	}
	b->p[b->len] = '\0';
}

void
out(const char * fmt, ...)
{
	va_list ap;
	int e = errno;

	va_start(ap, fmt);
	sb_v(&rep, fmt, ap);
	va_end(ap);
	errno = e;
}

void
out_hex(const char * key, const void * buf, size_t len)
{
	int e = errno;

	out("\"%s\":\"", key);
	sb_hex(&rep, buf, len);
	out("\",");
	errno = e;
}

void
ev(const char * fmt, ...)
{
	va_list ap;
	int e = errno;

	if (quiet_events)
		return;
	if (evs.len) {
		sb_room(&evs, 1);
		evs.p[evs.len++] = ',';
	}
	va_start(ap, fmt);
	sb_v(&evs, fmt, ap);
	va_end(ap);
	errno = e;
}

void
ev_hex(const char * head, const void * buf, size_t len, const char * tail)
{
	int e = errno;

	if (quiet_events)
		return;
	ev("%s", head);
	sb_hex(&evs, buf, len);
	sb_room(&evs, strlen(tail));
	memcpy(evs.p + evs.len, tail, strlen(tail) + 1);
	evs.len += strlen(tail);
	errno = e;
}

/* Continues the last event. */
void
ev_cat(const char * head, const void * buf, size_t len, const char * tail)
{
	size_t n = strlen(head) + strlen(tail) + 1;

	if (quiet_events)
		return;
	sb_room(&evs, n);
	memcpy(evs.p + evs.len, head, strlen(head));
	evs.len += strlen(head);
	sb_hex(&evs, buf, len);
	sb_room(&evs, n);
	memcpy(evs.p + evs.len, tail, strlen(tail) + 1);
	evs.len += strlen(tail);
}

struct bytes
a_hex(const char * s)
{
	struct bytes b = { NULL, 0 };
	size_t i, n = strlen(s);

	if (strcmp(s, "~") == 0)
		return (b);
	if (strcmp(s, "-") == 0)
		n = 0;
	b.len = n / 2;
	b.p = __real_malloc(b.len ? b.len : 1);
	for (i = 0; i < b.len; i++) {
		char t[3] = { s[2 * i], s[2 * i + 1], 0 };
		b.p[i] = (uint8_t)strtoul(t, NULL, 16);
	}
	return (b);
}

uint64_t
a_u64(const char * s)
{
	return (strtoull(s, NULL, 0));
}

#define GUARD 64
struct guarded
g_new(size_t len, size_t mis)
{
	struct guarded g;
	uintptr_t a;

	g.len = len;
	g.total = len + 2 * GUARD + 128;
	g.base = __real_malloc(g.total);
	memset(g.base, 0xc3, g.total);
	a = ((uintptr_t)g.base + GUARD + 63) & ~(uintptr_t)63;
	g.p = (uint8_t *)(a + (mis & 63));
	return (g);
}

int
g_ok(struct guarded * g)
{
	size_t i;

	for (i = 0; i < g->total; i++)
		if ((g->base + i < g->p || g->base + i >= g->p + g->len) &&
		    g->base[i] != 0xc3)
			return (0);
	return (1);
}

void
g_free(struct guarded * g)
{
	__real_free(g->base);
}

/* Open descriptors, for leak accounting. */
static void
c_fds(struct args * a)
{
	DIR * d = opendir("/proc/self/fd");
	int n = 0;

	(void)a;
	while (readdir(d) != NULL)
		n++;
	closedir(d);
	out("\"fds\":%d,", n - 3);
}

static void
c_ping(struct args * a)
{
	(void)a;
	out("\"pong\":1,");
}

static struct cmd cmds_main[] = { { "fds", c_fds }, { "ping", c_ping }, { NULL, NULL } };
static struct cmd * tables[] = { cmds_main, cmds_wrap, cmds_crypto, cmds_enc, cmds_parse, cmds_pass, NULL };

static void
run_line(char * line)
{
	char * toks[4096];
	struct args a = { 0, toks };
	char * p;
	struct cmd * c, * found = NULL;
	int i;

	for (p = strtok(line, " \n"); p != NULL && a.n < 4096; p = strtok(NULL, " \n"))
		toks[a.n++] = p;
	if (a.n == 0)
		return;
	for (i = 0; tables[i] != NULL && !found; i++)
		for (c = tables[i]; c->name != NULL; c++)
			if (strcmp(c->name, toks[0]) == 0)
				found = c;
	if (found) {
		a.n--; a.v++;
		found->fn(&a);
	} else
		out("\"unknown\":1,");
}

static void
reply(int ofd)
{
	size_t o = 0;

	out("\"ev\":[");
	if (evs.len) {
		sb_room(&rep, evs.len);
		memcpy(rep.p + rep.len, evs.p, evs.len);
		rep.len += evs.len;
		rep.p[rep.len] = '\0';
	}
	out("]}\n");
	while (o < rep.len) {
		ssize_t w = write(ofd, rep.p + o, rep.len - o);
		if (w <= 0) {
			if (w == -1 && errno == EINTR)
				continue;
			_exit(97);
		}
		o += (size_t)w;
	}
}

/* The command itself in a scripted environment: VP_CMDS holds harness
 * commands separated by semicolons; what they and the tracker report, and the
 * events, go to descriptor VP_FD at exit. */
extern int scrypt_main(int, char **);
static int cli_fd;

static void
cli_exit(void)
{
	trk_stop();
	trk_report();
	reply(cli_fd);
}

static int
cli_main(int argc, char ** argv, const char * cmds, const char * fd)
{
	char * s = strdup(cmds), * q, * n;

	cli_fd = atoi(fd);
	unsetenv("VP_CMDS");
	unsetenv("VP_FD");
	fcntl(cli_fd, F_SETFD, FD_CLOEXEC);
	rep.len = evs.len = 0;
	out("{");
	for (q = s; q != NULL; q = n) {
		if ((n = strchr(q, ';')) != NULL)
			*n++ = '\0';
		run_line(q);
	}
	__real_free(s);
	evs.len = 0;
	atexit(cli_exit);
	trk_start();
	return (scrypt_main(argc, argv));
}

int
main(int argc, char ** argv)
{
	char * line = NULL;
	size_t cap = 0;
	FILE * in;
	int ofd, null;

	if (getenv("VP_CMDS") != NULL)
		return (cli_main(argc, argv, getenv("VP_CMDS"), getenv("VP_FD")));
	/* The protocol uses two descriptors far from the usual ones. */
	if ((in = fdopen(fcntl(0, F_DUPFD_CLOEXEC, 200), "r")) == NULL)
		return (98);
	if ((ofd = fcntl(1, F_DUPFD_CLOEXEC, 201)) == -1)
		return (98);
	null = open("/dev/null", O_RDWR);
	if (getenv("VH_KEEP0") == NULL)
		dup2(null, 0);
	dup2(null, 1);
	if (null > 2)
		close(null);

	while (getline(&line, &cap, in) > 0) {
		rep.len = evs.len = 0;
		out("{");
		run_line(line);
		reply(ofd);
	}
	return (0);
}
