/* Number, size and command-line parsing.  Compiled like the code under test
 * (not with GNU extensions) because the C library's number parsing differs. */
#include <float.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "vh.h"
#include "getopt.h"
#include "humansize.h"
#include "parsenum.h"
#include "passphrase_entry.h"

static char *
str(const char * hex)
{
	struct bytes b = a_hex(hex);
	char * s = malloc(b.len + 1);

	memcpy(s, b.p, b.len);
	s[b.len] = '\0';
	free(b.p);
	return (s);
}

static int rc;
static void r_u(uintmax_t v) { out("\"ok\":%d,\"errno\":%d,\"val\":\"%ju\",", rc == 0, errno, v); }
static void r_s(intmax_t v) { out("\"ok\":%d,\"errno\":%d,\"val\":\"%jd\",", rc == 0, errno, v); }
static void r_f(double v) { out("\"ok\":%d,\"errno\":%d,\"val\":\"%a\",", rc == 0, errno, v); }

/* pn type s form [min max [base trailing]]: form 2: PARSENUM(x, s); 4: with
 * bounds of the widest type of the same kind; i: with bounds of type intmax_t
 * for an unsigned variable; e: PARSENUM_EX(x, s, base, trailing); x:
 * PARSENUM_EX with bounds */
#define U_TYPE(name, type)						\
static void pn_##name(const char * s, char form, char ** v)		\
{									\
	type x = 77;							\
	uintmax_t umin, umax;						\
	intmax_t imin, imax;						\
	int base, tr;							\
	switch (form) {							\
	case '2': rc = PARSENUM(&x, s); break;				\
	case '4': umin = strtoumax(v[0], NULL, 10); umax = strtoumax(v[1], NULL, 10); \
		rc = PARSENUM(&x, s, umin, umax); break;		\
	case 'i': imin = strtoimax(v[0], NULL, 10); imax = strtoimax(v[1], NULL, 10); \
		rc = PARSENUM(&x, s, imin, imax); break;		\
	case 'e': base = atoi(v[2]); tr = atoi(v[3]); rc = PARSENUM_EX(&x, s, base, tr); break; \
	case 'x': umin = strtoumax(v[0], NULL, 10); umax = strtoumax(v[1], NULL, 10); \
		base = atoi(v[2]); tr = atoi(v[3]);			\
		rc = PARSENUM_EX(&x, s, umin, umax, base, tr); break;	\
	}								\
	r_u(x);								\
}
#define S_TYPE(name, type)						\
static void pn_##name(const char * s, char form, char ** v)		\
{									\
	type x = 77;							\
	intmax_t imin = strtoimax(v[0], NULL, 10), imax = strtoimax(v[1], NULL, 10); \
	int base, tr;							\
	switch (form) {							\
	case '4': rc = PARSENUM(&x, s, imin, imax); break;		\
	case 'x': base = atoi(v[2]); tr = atoi(v[3]);			\
		rc = PARSENUM_EX(&x, s, imin, imax, base, tr); break;	\
	}								\
	r_s(x);								\
}
#define F_TYPE(name, type)						\
static void pn_##name(const char * s, char form, char ** v)		\
{									\
	type x = 77;							\
	double mn, mx;							\
	int tr;								\
	switch (form) {							\
	case '2': rc = PARSENUM(&x, s); break;				\
	case '4': mn = strtod(v[0], NULL); mx = strtod(v[1], NULL);	\
		rc = PARSENUM(&x, s, mn, mx); break;			\
	case 'i': { int in = atoi(v[0]), ix = atoi(v[1]);		\
		rc = PARSENUM(&x, s, in, ix); break; }			\
	case 'e': tr = atoi(v[3]); rc = PARSENUM_EX(&x, s, 0, tr); break; \
	case 'x': mn = strtod(v[0], NULL); mx = strtod(v[1], NULL); tr = atoi(v[3]); \
		rc = PARSENUM_EX(&x, s, mn, mx, 0, tr); break;		\
	}								\
	r_f((double)x);							\
}
U_TYPE(u8, uint8_t)
U_TYPE(u16, uint16_t)
U_TYPE(u32, uint32_t)
U_TYPE(u64, uint64_t)
U_TYPE(uint, unsigned int)
U_TYPE(size, size_t)
U_TYPE(umax, uintmax_t)
S_TYPE(i8, int8_t)
S_TYPE(i16, int16_t)
S_TYPE(i32, int32_t)
S_TYPE(i64, int64_t)
S_TYPE(int, int)
S_TYPE(imax, intmax_t)
F_TYPE(float, float)
F_TYPE(double, double)

static struct { const char * n; void (* f)(const char *, char, char **); } pns[] = {
	{ "u8", pn_u8 }, { "u16", pn_u16 }, { "u32", pn_u32 }, { "u64", pn_u64 }, { "uint", pn_uint },
	{ "size", pn_size }, { "umax", pn_umax }, { "i8", pn_i8 }, { "i16", pn_i16 }, { "i32", pn_i32 },
	{ "i64", pn_i64 }, { "int", pn_int }, { "imax", pn_imax }, { "float", pn_float }, { "double", pn_double },
	{ NULL, NULL }
};

static void
c_pn(struct args * a)
{
	char * s = str(a->v[1]);
	int i;

	rc = -99;
	for (i = 0; pns[i].n != NULL; i++)
		if (strcmp(pns[i].n, a->v[0]) == 0)
			pns[i].f(s, a->v[2][0], a->v + 3);
	free(s);
}

static void
c_humansize(struct args * a)
{
	char * s;

	trk_start();
	s = humansize(a_u64(a->v[0]));
	trk_stop();
	out("\"s\":\"%s\",", s == NULL ? "(null)" : s);
	trk_start();
	free(s);
	trk_stop();
	trk_report();
}

static void
c_hsparse(struct args * a)
{
	char * s = str(a->v[0]);
	uint64_t v = 77;
	int r = humansize_parse(s, &v);

	out("\"ok\":%d,\"val\":\"%ju\",", r == 0, (uintmax_t)v);
	free(s);
}

static void
c_peparse(struct args * a)
{
	char * s = str(a->v[0]);
	const char * arg = NULL;
	enum passphrase_entry e = PASSPHRASE_UNSET;
	int r = passphrase_entry_parse(s, &e, &arg);
	static const struct { enum passphrase_entry e; const char * n; } names[] = {
		{ PASSPHRASE_TTY_STDIN, "tty-stdin" }, { PASSPHRASE_STDIN_ONCE, "stdin-once" },
		{ PASSPHRASE_TTY_ONCE, "tty-once" }, { PASSPHRASE_ENV, "env" }, { PASSPHRASE_FILE, "file" } };
	size_t i;

	out("\"ok\":%d,\"off\":%d,\"m\":\"", r == 0, r == 0 && arg != NULL ? (int)(arg - s) : -1);
	for (i = 0; r == 0 && i < 5; i++)
		if (names[i].e == e)
			out("%s", names[i].n);
	out("\",");
	free(s);
}

/* gopt argv...: the events of a getopt loop over the options -a -b (flags),
 * -x -y (with argument), --foo --fo (flags), --bar --barn (with argument).
 * First argument: 1 = the loop handles missing arguments itself. */
static void
one(const char * kind, const char * ch, const char * arg)
{
	ev("{\"k\":\"%s\",\"o\":\"", kind);
	ev_hex("", ch, strlen(ch), "");
	(void)arg;
}

static void
e_opt(const char * kind, const char * ch, const char * arg)
{
	char buf[64];

	snprintf(buf, sizeof buf, "{\"k\":\"%s\",\"arg\":%d,\"o\":\"", kind, arg != NULL);
	ev_hex(buf, ch, strlen(ch), "\"}");
	if (arg != NULL)
		ev_hex("{\"k\":\"arg\",\"arg\":0,\"o\":\"", arg, strlen(arg), "\"}");
	(void)one;
}

static void
c_gopt(struct args * a)
{
	char * argv[64];
	int argc = 0, i, missing = atoi(a->v[0]), n = 0;
	const char * ch;

	for (i = 1; i < a->n && i < 64; i++)
		argv[argc++] = str(a->v[i]);
	argv[argc] = NULL;
	opterr = 0;
	optreset = 1;
	if (missing) {
		while ((ch = GETOPT(argc, argv)) != NULL && n++ < 1000) {
			GETOPT_SWITCH(ch) {
			GETOPT_OPT("-a"):
			GETOPT_OPT("-b"):
				e_opt("opt", ch, optarg);
				break;
			GETOPT_OPTARG("-x"):
				e_opt("opt", "-x", optarg);
				break;
			GETOPT_OPTARG("-y"):
				e_opt("opt", "-y", optarg);
				break;
			GETOPT_OPT("--foo"):
				e_opt("opt", "--foo", optarg);
				break;
			GETOPT_OPT("--fo"):
				e_opt("opt", "--fo", optarg);
				break;
			GETOPT_OPTARG("--bar"):
				e_opt("opt", "--bar", optarg);
				break;
			GETOPT_OPTARG("--barn"):
				e_opt("opt", "--barn", optarg);
				break;
			GETOPT_MISSING_ARG:
				e_opt("missing", ch, NULL);
				break;
			GETOPT_DEFAULT:
				e_opt("default", ch, NULL);
				break;
			}
		}
	} else {
		while ((ch = GETOPT(argc, argv)) != NULL && n++ < 1000) {
			GETOPT_SWITCH(ch) {
			GETOPT_OPTARG("--barn"):
				e_opt("opt", "--barn", optarg);
				break;
			GETOPT_OPT("-b"):
				e_opt("opt", "-b", optarg);
				break;
			GETOPT_OPTARG("-y"):
				e_opt("opt", "-y", optarg);
				break;
			GETOPT_OPT("--fo"):
				e_opt("opt", "--fo", optarg);
				break;
			GETOPT_OPT("--foo"):
				e_opt("opt", "--foo", optarg);
				break;
			GETOPT_OPTARG("--bar"):
				e_opt("opt", "--bar", optarg);
				break;
			GETOPT_OPTARG("-x"):
				e_opt("opt", "-x", optarg);
				break;
			GETOPT_OPT("-a"):
				e_opt("opt", "-a", optarg);
				break;
			GETOPT_DEFAULT:
				e_opt("default", ch, NULL);
				break;
			}
		}
	}
	out("\"optind\":%d,", optind);
	for (i = 0; i < argc; i++)
		free(argv[i]);
}

struct cmd cmds_parse[] = {
	{ "pn", c_pn }, { "humansize", c_humansize }, { "hsparse", c_hsparse }, { "peparse", c_peparse },
	{ "gopt", c_gopt },
	{ NULL, NULL }
};
