/* Passphrase entry: terminals, signals, files, environment. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <termios.h>
#include <unistd.h>
#include "vh.h"
#include "passphrase_entry.h"
#include "readpass.h"

extern FILE * __real_fopen(const char *, const char *);
extern int __real_fclose(FILE *);
extern int __real_isatty(int);
extern int __real_tcgetattr(int, struct termios *);
extern int __real_tcsetattr(int, int, const struct termios *);
extern int __real_sigaction(int, const struct sigaction *, struct sigaction *);
extern int __real_raise(int);
extern char * __real_fgets(char *, int, FILE *);
extern char * __real_getenv(const char *);

extern FILE * io_fopen(const char *, const char *);

static const int sigs[] = { SIGALRM, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU };
#define NS 9

static int active, npoint;
static struct { int k, sig; } inj[256];
static int ninj;
static int f_tcget, f_tcset, f_fclose, f_tcset_n;
static struct termios t0;
static int have_t0, tty_fd = -1;
static struct sigaction sa0[NS];
static int fopens, fcloses;

static int
echo_state(void)
{
	struct termios t;

	if (tty_fd == -1 || __real_tcgetattr(tty_fd, &t))
		return (-1);
	return ((t.c_lflag & ECHO) != 0);
}

static int
term_same(void)
{
	struct termios t;

	if (!have_t0 || __real_tcgetattr(tty_fd, &t))
		return (-1);
	return (t.c_iflag == t0.c_iflag && t.c_oflag == t0.c_oflag && t.c_cflag == t0.c_cflag &&
	    t.c_lflag == t0.c_lflag && memcmp(t.c_cc, t0.c_cc, sizeof(t.c_cc)) == 0);
}

static int
disp_same(void)
{
	struct sigaction sa;
	int i, same = 1;

	for (i = 0; i < NS; i++) {
		__real_sigaction(sigs[i], NULL, &sa);
		if (sa.sa_handler != sa0[i].sa_handler || sa.sa_flags != sa0[i].sa_flags ||
		    memcmp(&sa.sa_mask, &sa0[i].sa_mask, 8))
			same = 0;
	}
	return (same);
}

/* Signal names are reported by their index in sigs[]. */
static int
sidx(int s)
{
	int i;

	for (i = 0; i < NS; i++)
		if (sigs[i] == s)
			return (i);
	return (-1);
}

static void
userhandler(int s)
{
	ev("{\"e\":\"deliv\",\"s\":%d,\"echo\":%d,\"term\":%d,\"disp\":%d,\"in\":%d}", sidx(s), echo_state(),
	    term_same(), disp_same(), active);
}

void
point(const char * w)
{
	int i, e = errno;

	if (!active)
		return;
	npoint++;
	for (i = 0; i < ninj; i++)
		if (inj[i].k == npoint) {
			struct sigaction sa;
			__real_sigaction(inj[i].sig, NULL, &sa);
			ev("{\"e\":\"sig\",\"s\":%d,\"at\":\"%s\",\"k\":%d,\"own\":%d}", sidx(inj[i].sig), w, npoint,
			    sa.sa_handler == sa0[sidx(inj[i].sig)].sa_handler);
			kill(getpid(), inj[i].sig);
		}
	errno = e;
}

FILE *
__wrap_fopen(const char * p, const char * m)
{
	FILE * f;

	point("fopen<");
	if ((f = io_fopen(p, m)) == NULL)
		f = __real_fopen(p, m);
	if (active && f != NULL)
		fopens++;
	point("fopen>");
	return (f);
}

int
__wrap_fclose(FILE * f)
{
	int rc;

	point("fclose<");
	rc = __real_fclose(f);
	if (active)
		fcloses++;
	if (active && f_fclose) {
		rc = EOF;
		errno = EIO;
	}
	point("fclose>");
	return (rc);
}

int
__wrap_fflush(FILE * f)
{
	extern int __real_fflush(FILE *);
	return (__real_fflush(f));
}

int
__wrap_isatty(int fd)
{
	int rc;

	point("isatty<");
	rc = __real_isatty(fd);
	point("isatty>");
	return (rc);
}

int
__wrap_tcgetattr(int fd, struct termios * t)
{
	int rc;

	point("tcgetattr<");
	if (active && f_tcget) {
		errno = EIO;
		rc = -1;
	} else
		rc = __real_tcgetattr(fd, t);
	point("tcgetattr>");
	return (rc);
}

int
__wrap_tcsetattr(int fd, int how, const struct termios * t)
{
	int rc;

	point("tcsetattr<");
	if (active && f_tcset && ++f_tcset_n == f_tcset) {
		errno = EIO;
		rc = -1;
	} else
		rc = __real_tcsetattr(fd, how, t);
	point("tcsetattr>");
	return (rc);
}

int
__wrap_sigaction(int s, const struct sigaction * n, struct sigaction * o)
{
	int rc;

	point("sigaction<");
	rc = __real_sigaction(s, n, o);
	point("sigaction>");
	return (rc);
}

int
__wrap_raise(int s)
{
	return (__real_raise(s));
}

char *
__wrap_fgets(char * b, int n, FILE * f)
{
	char * p;

	point("fgets<");
	if (active)
		ev("{\"e\":\"read\",\"tty\":%d,\"echo\":%d}", __real_isatty(fileno(f)), echo_state());
	p = __real_fgets(b, n, f);
	if (active)
		ev("{\"e\":\"got\",\"ok\":%d}", p != NULL);
	point("fgets>");
	return (p);
}

char *
__wrap_getenv(const char * n)
{
	return (__real_getenv(n));
}

/* sigs k:sig ...: inject at the k-th point of the next call */
static void
c_sigs(struct args * a)
{
	int i;

	ninj = 0;
	for (i = 0; i < a->n && i < 256; i++) {
		char * c = strchr(a->v[i], ':');
		inj[ninj].k = atoi(a->v[i]);
		inj[ninj++].sig = sigs[atoi(c + 1)];
	}
}

/* disp kind x 9: h handler, d default, i ignore; upper case H: handler with
 * SA_RESTART */
static void
c_disp(struct args * a)
{
	int i;

	for (i = 0; i < NS && i < a->n; i++) {
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sigemptyset(&sa.sa_mask);
		switch (a->v[i][0]) {
		case 'h': sa.sa_handler = userhandler; break;
		case 'H': sa.sa_handler = userhandler; sa.sa_flags = SA_RESTART; sigaddset(&sa.sa_mask, SIGUSR1); break;
		case 'i': sa.sa_handler = SIG_IGN; break;
		default: sa.sa_handler = SIG_DFL; break;
		}
		__real_sigaction(sigs[i], &sa, NULL);
	}
}

/* stdin hex: standard input has these bytes; stdin tty; stdin dir; stdin null */
static void
c_stdin(struct args * a)
{
	char path[64];
	static int mfd = -1;

	if (mfd != -1)
		close(mfd);
	mfd = -1;
	clearerr(stdin);
	if (strcmp(a->v[0], "tty") == 0)
		strcpy(path, "/dev/tty");
	else if (strcmp(a->v[0], "dir") == 0)
		strcpy(path, "/proc");
	else if (strcmp(a->v[0], "null") == 0)
		strcpy(path, "/dev/null");
	else {
		struct bytes b = a_hex(a->v[0]);
		mfd = memfd_create("in", MFD_CLOEXEC);
		if (write(mfd, b.p, b.len) != (ssize_t)b.len)
			_exit(96);
		free(b.p);
		snprintf(path, sizeof path, "/proc/self/fd/%d", mfd);
	}
	out("\"ok\":%d,", freopen(path, "r", stdin) != NULL);
}

/* ctty: make the terminal given on descriptor VH_TTY the controlling one */
static void
c_ctty(struct args * a)
{
	int fd;

	(void)a;
	setsid();
	fd = open(a->v[0], O_RDWR);
	out("\"ctty\":%d,", fd == -1 ? -1 : ioctl(fd, TIOCSCTTY, 0));
	if (fd != -1)
		tty_fd = fd;
}

struct pcall { int how, rc, devtty, once; char * passwd; enum passphrase_entry e; const char * arg, * prompt, * cprompt; };

static void
do_pass(void * v)
{
	struct pcall * c = v;

	switch (c->how) {
	case 0:
		c->rc = readpass(&c->passwd, c->prompt, c->cprompt, c->devtty);
		break;
	case 1:
		c->rc = readpass_file(&c->passwd, c->arg);
		break;
	case 2:
		c->rc = passphrase_entry_readpass(&c->passwd, c->e, c->arg, c->prompt, c->cprompt, c->once);
		break;
	}
}

/* pass how (0 readpass devtty confirm; 1 file path; 2 entry method arg once),
 * the terminal and dispositions in force now being those to restore */
static void
c_pass(struct args * a)
{
	struct pcall c;
	int i, efd, saved;
	char buf[8192];
	ssize_t n;
	struct bytes arg = { NULL, 0 };

	memset(&c, 0, sizeof(c));
	c.how = atoi(a->v[0]);
	c.prompt = "PROMPT1";
	c.rc = -99;
	if (c.how == 0) {
		c.devtty = atoi(a->v[1]);
		c.cprompt = atoi(a->v[2]) ? "PROMPT2" : NULL;
	} else if (c.how == 1) {
		arg = a_hex(a->v[1]);
	} else {
		c.e = (enum passphrase_entry)(
		    strcmp(a->v[1], "tty-stdin") == 0 ? PASSPHRASE_TTY_STDIN :
		    strcmp(a->v[1], "stdin-once") == 0 ? PASSPHRASE_STDIN_ONCE :
		    strcmp(a->v[1], "tty-once") == 0 ? PASSPHRASE_TTY_ONCE :
		    strcmp(a->v[1], "env") == 0 ? PASSPHRASE_ENV :
		    strcmp(a->v[1], "file") == 0 ? PASSPHRASE_FILE : PASSPHRASE_UNSET);
		arg = a_hex(a->v[2]);
		c.once = atoi(a->v[3]);
		c.cprompt = "PROMPT2";
	}
	if (arg.p != NULL) {
		arg.p = realloc(arg.p, arg.len + 1);
		arg.p[arg.len] = 0;
		c.arg = (char *)arg.p;
	}
	have_t0 = tty_fd != -1 && __real_tcgetattr(tty_fd, &t0) == 0;
	for (i = 0; i < NS; i++)
		__real_sigaction(sigs[i], NULL, &sa0[i]);
	fflush(stderr);
	saved = dup(2);
	efd = memfd_create("err", MFD_CLOEXEC);
	dup2(efd, 2);
	npoint = fopens = fcloses = f_tcset_n = 0;
	active = 1;
	trk_start();
	call_on_stack(do_pass, &c);
	trk_stop();
	active = 0;
	fflush(stderr);
	dup2(saved, 2);
	close(saved);
	n = pread(efd, buf, sizeof buf, 0);
	close(efd);
	ev("{\"e\":\"ret\",\"rc\":%d,\"term\":%d,\"disp\":%d,\"echo\":%d}", c.rc, term_same(), disp_same(), echo_state());
	trk_report();
	out("\"rc\":%d,\"points\":%d,\"fopens\":%d,\"fcloses\":%d,", c.rc, npoint, fopens, fcloses);
	out_hex("err", buf, n > 0 ? (size_t)n : 0);
	if (c.rc == 0) {
		out_hex("pw", c.passwd, strlen(c.passwd));
		free(c.passwd);
	}
	free(arg.p);
	ninj = 0;
}

/* pfault tcget tcset(nth) fclose */
static void
c_pfault(struct args * a)
{
	f_tcget = atoi(a->v[0]);
	f_tcset = atoi(a->v[1]);
	f_fclose = atoi(a->v[2]);
}

static void
c_setenv(struct args * a)
{
	struct bytes n = a_hex(a->v[0]), v = a_hex(a->v[1]);
	char * ns = calloc(n.len + 1, 1), * vs = calloc(v.len + 1, 1);

	memcpy(ns, n.p, n.len);
	if (v.p == NULL)
		unsetenv(ns);
	else {
		memcpy(vs, v.p, v.len);
		setenv(ns, vs, 1);
	}
}

/* echo 0/1: the terminal's state before entry */
static void
c_echo(struct args * a)
{
	struct termios t;

	__real_tcgetattr(tty_fd, &t);
	if (atoi(a->v[0]))
		t.c_lflag |= ECHO;
	else
		t.c_lflag &= ~(tcflag_t)ECHO;
	t.c_lflag &= ~(tcflag_t)ECHONL;
	out("\"rc\":%d,", __real_tcsetattr(tty_fd, TCSANOW, &t));
}

struct cmd cmds_pass[] = {
	{ "sigs", c_sigs }, { "disp", c_disp }, { "stdin", c_stdin }, { "ctty", c_ctty }, { "pass", c_pass },
	{ "pfault", c_pfault }, { "setenv", c_setenv }, { "echo", c_echo },
	{ NULL, NULL }
};
