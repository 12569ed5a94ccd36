/* Interception of what the code under test asks of its environment.  All
 * interception is passive until a command switches it on. */
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <termios.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "vh.h"
#include "crypto_scrypt.h"
#include "cpusupport.h"

int quiet_events = 0;

static void
cpuid_real(unsigned int leaf, unsigned int sub, unsigned int * r)
{
	__asm__ volatile ("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "a"(leaf), "c"(sub));
}

#define REAL(ret, name, ...) extern ret __real_##name(__VA_ARGS__)
REAL(void *, malloc, size_t);
REAL(void *, calloc, size_t, size_t);
REAL(void *, realloc, void *, size_t);
REAL(void, free, void *);
REAL(int, posix_memalign, void **, size_t, size_t);
REAL(void *, mmap, void *, size_t, int, int, int, off_t);
REAL(int, munmap, void *, size_t);
REAL(int, open, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(int, close, int);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, clock_getres, clockid_t, struct timespec *);
REAL(int, getrlimit, int, struct rlimit *);
REAL(int, sysinfo, struct sysinfo *);
REAL(long, sysconf, int);
REAL(int, crypto_scrypt, const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
REAL(int, generate_seed_rdrand, unsigned int *, size_t);

/* ------------------------------------------------------------------ */
/* Allocator */
#define MAXBLK 65536
static struct blk { void * p; size_t len; int id; int kind; } blk[MAXBLK];
static int nblk;
static int trk_on, trk_log;
static long trk_n, trk_failat, trk_failfrom;
static int trk_failed, trk_lastid;
static long lazy_min;	/* allocations at least this big are not touched */

#define MAXNEEDLE 64
static struct { uint8_t * p; size_t len; int heap; } needle[MAXNEEDLE];
static int stack_only;
static int nneedle;
#define WIN 8

/* Does buf contain a window of WIN bytes of one of the secrets? */
static uint8_t start[2][8192];	/* pairs of bytes windows start with */
static void
needles_index(void)
{
	size_t j;
	int k;

	memset(start, 0, sizeof start);
	for (k = 0; k < nneedle; k++)
		for (j = 0; j + WIN <= needle[k].len; j++) {
			unsigned int x = needle[k].p[j] | (unsigned int)needle[k].p[j + 1] << 8;
			start[0][x >> 3] |= (uint8_t)(1 << (x & 7));
			if (!needle[k].heap)
				start[1][x >> 3] |= (uint8_t)(1 << (x & 7));
		}
}

static int
dirty(const uint8_t * buf, size_t len)
{
	const uint8_t * map = start[stack_only];
	size_t i, j;
	int k;

	if (len < WIN || nneedle == 0)
		return (0);
	for (i = 0; i + WIN <= len; i++) {
		unsigned int x = buf[i] | (unsigned int)buf[i + 1] << 8;

		if (!(map[x >> 3] >> (x & 7) & 1))
			continue;
		for (k = 0; k < nneedle; k++) {
			if (stack_only && needle[k].heap)
				continue;
			for (j = 0; j + WIN <= needle[k].len; j++)
				if (memcmp(buf + i, needle[k].p + j, WIN) == 0)
					return (k + 1);
		}
	}
	return (0);
}

static int
mayfail(void)
{
	if (!trk_on)
		return (0);
	trk_n++;
	if (trk_n == trk_failat || (trk_failfrom && trk_n >= trk_failfrom)) {
		trk_failed++;
		if (trk_log)
			ev("{\"e\":\"allocfail\"}");
		errno = ENOMEM;
		return (1);
	}
	return (0);
}

/* An allocation the system refused counts like one made to fail. */
static void
refused(void)
{
	int e = errno;

	if (trk_on) {
		trk_failed++;
		if (trk_log)
			ev("{\"e\":\"allocfail\"}");
	}
	errno = e;
}

static void *
note(void * p, size_t len, int kind)
{
	if (p == NULL)
		refused();
	if (trk_on && p != NULL && nblk < MAXBLK) {
		blk[nblk].p = p;
		blk[nblk].len = len;
		blk[nblk].kind = kind;
		blk[nblk].id = ++trk_lastid;
		if (trk_log)
			ev("{\"e\":\"alloc\",\"id\":%d,\"len\":%zu}", blk[nblk].id, len);
		nblk++;
	}
	return (p);
}

static void
unnote(void * p)
{
	int i, d = 0;

	if (p == NULL)
		return;
	for (i = nblk - 1; i >= 0; i--)
		if (blk[i].p == p) {
			if (nneedle && (lazy_min == 0 || (long)blk[i].len < lazy_min) && blk[i].len <= (1 << 22))
				d = dirty(p, blk[i].len);
			if (trk_log)
				ev("{\"e\":\"free\",\"id\":%d,\"dirty\":%d}", blk[i].id, d);
			else if (d && trk_on)
				ev("{\"e\":\"dirtyfree\",\"dirty\":%d}", d);
			memmove(&blk[i], &blk[i + 1], (size_t)(nblk - i - 1) * sizeof(blk[0]));
			nblk--;
			return;
		}
}

void *
__wrap_malloc(size_t n)
{
	if (mayfail())
		return (NULL);
	return (note(__real_malloc(n), n, 0));
}

void *
__wrap_calloc(size_t n, size_t m)
{
	if (mayfail())
		return (NULL);
	return (note(__real_calloc(n, m), n * m, 0));
}

void *
__wrap_realloc(void * p, size_t n)
{
	void * q;
	int i;

	if (mayfail())
		return (NULL);
	/* Always moves, so that a copy left behind is seen. */
	for (i = 0; i < nblk; i++)
		if (blk[i].p == p && p != NULL) {
			if ((q = __real_malloc(n)) == NULL)
				return (note(NULL, n, 0));
			memcpy(q, p, blk[i].len < n ? blk[i].len : n);
			unnote(p);
			__real_free(p);
			return (note(q, n, 0));
		}
	return (note(__real_realloc(p, n), n, 0));
}

void
__wrap_free(void * p)
{
	int i;

	for (i = 0; i < nblk; i++)
		if (blk[i].p == p && p != NULL && blk[i].kind != 0) {
			size_t n = blk[i].len;
			unnote(p);
			__real_munmap(p, n);
			return;
		}
	unnote(p);
	__real_free(p);
}

int
__wrap_posix_memalign(void ** p, size_t al, size_t n)
{
	int rc;

	if (mayfail())
		return (ENOMEM);
	if (trk_on && lazy_min && (long)n >= lazy_min) {
		void * q = __real_mmap(NULL, n, PROT_READ | PROT_WRITE,
		    MAP_ANON | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
		if (q == MAP_FAILED) {
			refused();
			return (ENOMEM);
		}
		*p = note(q, n, 2);
		return (0);
	}
	if ((rc = __real_posix_memalign(p, al, n)) == 0)
		note(*p, n, 0);
	else
		refused();
	return (rc);
}

char *
__wrap_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p;

	if (mayfail())
		return (NULL);
	if ((p = note(__real_malloc(n), n, 0)) != NULL)
		memcpy(p, s, n);
	return (p);
}

void *
__wrap_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	void * p;

	if (mayfail())
		return (MAP_FAILED);
	if (lazy_min && (long)len >= lazy_min)
		flags |= MAP_NORESERVE;
	if ((p = __real_mmap(a, len, prot, flags, fd, off)) != MAP_FAILED)
		note(p, len, 1);
	else
		refused();
	return (p);
}

int
__wrap_munmap(void * p, size_t len)
{
	int i;

	/* The whole of the mapping must be given back. */
	for (i = 0; i < nblk; i++)
		if (blk[i].p == p && blk[i].kind == 1 && blk[i].len != len && trk_on)
			ev("{\"e\":\"munmaplen\",\"id\":%d}", blk[i].id);
	unnote(p);
	return (__real_munmap(p, len));
}

void
trk_start(void)
{
	trk_n = 0;
	trk_failed = 0;
	trk_on = 1;
}

void
trk_stop(void)
{
	trk_on = 0;
}

static int stack_dirty;
static size_t stack_used;

void
trk_report(void)
{
	int i, d = 0;

	for (i = 0; i < nblk; i++)
		if (blk[i].len <= (1 << 22) && dirty(blk[i].p, blk[i].len))
			d = 1;
	out("\"allocs\":%ld,\"allocfails\":%d,\"live\":%d,\"livedirty\":%d,\"stackdirty\":%d,\"stackused\":%zu,",
	    trk_n, trk_failed, nblk, d, stack_dirty, stack_used);
}

/* trk log failat failfrom lazymin: options for the calls that follow */
static void
c_trk(struct args * a)
{
	trk_log = (int)a_u64(a->v[0]);
	trk_failat = (long)a_u64(a->v[1]);
	trk_failfrom = (long)a_u64(a->v[2]);
	lazy_min = (long)a_u64(a->v[3]);
}

static void
c_live(struct args * a)
{
	int i;

	(void)a;
	out("\"live\":%d,\"lens\":[", nblk);
	for (i = 0; i < nblk; i++)
		out("%s%zu", i ? "," : "", blk[i].len);
	out("],");
}

/* needles hex...: the secrets to look for; after ~, those that count only in
 * allocated memory */
static void
c_needles(struct args * a)
{
	int i, heap = 0;

	for (i = 0; i < nneedle; i++)
		__real_free(needle[i].p);
	nneedle = 0;
	for (i = 0; i < a->n && i < MAXNEEDLE; i++) {
		struct bytes b;
		if (a->v[i][0] == '~') {
			heap = 1;
			continue;
		}
		b = a_hex(a->v[i]);
		needle[nneedle].p = b.p;
		needle[nneedle].heap = heap;
		needle[nneedle++].len = b.len;
	}
	needles_index();
}

/* ------------------------------------------------------------------ */
/* A stack of its own */
static int stackscan;
static ucontext_t u_main, u_call;
static void (* u_fn)(void *);
static void * u_arg;
#define STK (2 * 1024 * 1024)
static uint8_t * stk;
static size_t stk_clean;	/* so much of it is as it was filled */

static void
tramp(void)
{
	u_fn(u_arg);
}

void
call_on_stack(void (* fn)(void *), void * arg)
{
	size_t i;

	stack_dirty = 0;
	stack_used = 0;
	if (!stackscan) {
		fn(arg);
		return;
	}
	if (stk == NULL)
		stk = __real_mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_ANON | MAP_PRIVATE, -1, 0);
	if (stk_clean < STK)
		memset(stk + stk_clean, 0x5a, STK - stk_clean);
	u_fn = fn;
	u_arg = arg;
	getcontext(&u_call);
	u_call.uc_stack.ss_sp = stk;
	u_call.uc_stack.ss_size = STK;
	u_call.uc_link = &u_main;
	makecontext(&u_call, tramp, 0);
	swapcontext(&u_main, &u_call);
	for (i = 0; i + 8 <= STK && *(uint64_t *)(void *)(stk + i) == 0x5a5a5a5a5a5a5a5aULL; i += 8)
		continue;
	stack_used = STK - i;
	stk_clean = i;
	stack_only = 1;
	stack_dirty = dirty(stk + i, STK - i);
	stack_only = 0;
}

static void
c_stackscan(struct args * a)
{
	stackscan = (int)a_u64(a->v[0]);
}

/* ------------------------------------------------------------------ */
/* /dev/urandom.  Script items: d<hex> data, e<errno>, z end of file,
 * o<errno> open fails, c<errno> close fails; one item is used per call of its
 * kind; without a script, the real device.  A data item longer than the
 * request is split. */
static struct { char kind; uint8_t * p; size_t len; int err; } us[4096];
static int nus, ius, u_on, u_fd = -1;

static void
c_urandom(struct args * a)
{
	int i;

	for (i = 0; i < nus; i++)
		__real_free(us[i].p);
	nus = ius = 0;
	u_on = a->n > 0;
	for (i = 0; i < a->n && i < 4096; i++) {
		us[i].kind = a->v[i][0];
		us[i].p = NULL;
		if (us[i].kind == 'd') {
			struct bytes b = a_hex(a->v[i] + 1);
			us[i].p = b.p;
			us[i].len = b.len;
		} else
			us[i].err = atoi(a->v[i] + 1);
		nus++;
	}
}

static long fdcount;	/* descriptors opened and not closed by the code */

int
__wrap_open(const char * path, int flags, ...)
{
	va_list ap;
	int mode = 0, fd;

	if (flags & O_CREAT) {
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	if (u_on && strcmp(path, "/dev/urandom") == 0) {
		if (ius < nus && us[ius].kind == 'o') {
			errno = us[ius++].err;
			ev("{\"e\":\"rndopen\",\"ok\":0}");
			return (-1);
		}
		fd = __real_open("/dev/null", O_RDONLY);
		u_fd = fd;
		ev("{\"e\":\"rndopen\",\"ok\":1}");
		fdcount++;
		return (fd);
	}
	if ((fd = __real_open(path, flags, mode)) != -1)
		fdcount++;
	return (fd);
}

ssize_t
__wrap_read(int fd, void * buf, size_t n)
{
	size_t k;

	if (u_on && fd == u_fd && fd != -1) {
		if (ius >= nus || us[ius].kind == 'z' || us[ius].kind == 'c' || us[ius].kind == 'o') {
			if (ius < nus && us[ius].kind == 'z')
				ius++;
			ev("{\"e\":\"rnd\",\"want\":%zu,\"got\":0,\"data\":\"\"}", n);
			return (0);
		}
		if (us[ius].kind == 'e') {
			errno = us[ius++].err;
			ev("{\"e\":\"rnd\",\"want\":%zu,\"got\":-1,\"data\":\"\"}", n);
			return (-1);
		}
		k = us[ius].len < n ? us[ius].len : n;
		memcpy(buf, us[ius].p, k);
		{
			char h[64];
			snprintf(h, sizeof h, "{\"e\":\"rnd\",\"want\":%zu,\"got\":%zu,\"data\":\"", n, k);
			ev_hex(h, buf, k, "\"}");
		}
		if (k == us[ius].len)
			ius++;
		else {
			memmove(us[ius].p, us[ius].p + k, us[ius].len - k);
			us[ius].len -= k;
		}
		return ((ssize_t)k);
	}
	return (__real_read(fd, buf, n));
}

int
__wrap_close(int fd)
{
	if (u_on && fd == u_fd && fd != -1 && ius < nus && us[ius].kind == 'c') {
		errno = us[ius].err;
		if (us[ius++].err == EINTR)
			return (-1);
		__real_close(fd);
		fdcount--;
		u_fd = -1;
		errno = us[ius - 1].err;
		return (-1);
	}
	if (fd == u_fd)
		u_fd = -1;
	fdcount--;
	return (__real_close(fd));
}

/* ------------------------------------------------------------------ */
/* RDRAND: 0 real, 1 fails, 2 value given, 3 real but recorded */
static int rd_mode;
static uint8_t rd_val[256];
static size_t rd_len;

int
__wrap_generate_seed_rdrand(unsigned int * buf, size_t len)
{
	int rc;

	switch (rd_mode) {
	case 1:
		/* A failed RDRAND may have stored some of its output. */
		memset(buf, 0x77, 4);
		ev("{\"e\":\"rdrand\",\"ok\":0,\"data\":\"\"}");
		return (1);
	case 2:
		memset(buf, 0, len * sizeof(*buf));
		memcpy(buf, rd_val, rd_len < len * sizeof(*buf) ? rd_len : len * sizeof(*buf));
		rc = 0;
		break;
	default:
		rc = __real_generate_seed_rdrand(buf, len);
	}
	if (rd_mode) {
		if (rc == 0)
			ev_hex("{\"e\":\"rdrand\",\"ok\":1,\"data\":\"", buf, len * sizeof(*buf), "\"}");
		else
			ev("{\"e\":\"rdrand\",\"ok\":0,\"data\":\"\"}");
	}
	return (rc);
}

/* One step of the instruction: mode 4 takes words from the script (2 words of
 * hex given as the value), failing after `rd_steps` successful ones. */
static size_t rd_pos, rd_steps;
int
vh_rdrand_hook(unsigned int * p)
{
	if (rd_mode != 4)
		return (-1);
	if (rd_pos / 4 >= rd_steps || rd_pos + 4 > rd_len) {
		*p = 0;
		ev("{\"e\":\"step\",\"ok\":0,\"data\":\"\"}");
		return (0);
	}
	memcpy(p, rd_val + rd_pos, 4);
	rd_pos += 4;
	ev_hex("{\"e\":\"step\",\"ok\":1,\"data\":\"", p, 4, "\"}");
	return (1);
}

/* rdrand mode [hex [steps]] */
static void
c_rdrand(struct args * a)
{
	rd_pos = 0;
	rd_steps = a->n > 2 ? a_u64(a->v[2]) : 0;
	rd_mode = (int)a_u64(a->v[0]);
	if (a->n > 1) {
		struct bytes b = a_hex(a->v[1]);
		rd_len = b.len > 256 ? 256 : b.len;
		memcpy(rd_val, b.p, rd_len);
	}
}

/* ------------------------------------------------------------------ */
/* Clocks.  Script items: m<ns> or r<ns>: time of day returned by the next
 * call for the monotonic / real-time clock, "M<errno>"/"R<errno>": failure.
 * The last item of each kind repeats, plus `tail` ns per further call.
 * h<n>: the monotonic clock stands for n calls, and cycles of work and reading
 * it meanwhile are recorded as one event with their number. */
static struct { int clk; int err; int64_t ns; int64_t hold; } ck[65536];
static int64_t ck_hold, rep_n, ck_tail, ck_last[2];
static struct work { uint64_t N; uint32_t r, p; int have; } work, rep;

static void
rep_flush(void)
{

	if (rep_n)
		ev("{\"e\":\"rep\",\"c\":0,\"ns\":%lld,\"n\":%lld,\"N\":%llu,\"r\":%u,\"p\":%u}", (long long)ck_last[0],
		    (long long)rep_n, (unsigned long long)rep.N, rep.r, rep.p);
	rep_n = 0;
	if (work.have)
		ev("{\"e\":\"work\",\"N\":%llu,\"r\":%u,\"p\":%u,\"ok\":1}", (unsigned long long)work.N, work.r, work.p);
	work.have = 0;
}
static int nck, ck_on;
static int ck_lasterr[2], ick[2];
static struct { int err; int64_t ns; } ckres[2];

static int
ck_idx(clockid_t c)
{
	if (c == CLOCK_MONOTONIC)
		return (0);
	if (c == CLOCK_REALTIME)
		return (1);
	return (-1);
}

/* clock tail res_m res_r items...; res: <ns> or E<errno>; no args: real */
static void
c_clock(struct args * a)
{
	int i;

	ck_on = a->n > 0;
	nck = 0;
	ck_hold = rep_n = work.have = 0;
	ick[0] = ick[1] = 0;
	ck_last[0] = ck_last[1] = 0;
	ck_lasterr[0] = ck_lasterr[1] = 0;
	if (!ck_on)
		return;
	ck_tail = (int64_t)a_u64(a->v[0]);
	for (i = 0; i < 2; i++) {
		ckres[i].err = a->v[1 + i][0] == 'E' ? atoi(a->v[1 + i] + 1) : 0;
		ckres[i].ns = a->v[1 + i][0] == 'E' ? 0 : (int64_t)a_u64(a->v[1 + i]);
	}
	for (i = 3; i < a->n && nck < 65536; i++) {
		char k = a->v[i][0];
		ck[nck].clk = (k == 'm' || k == 'M' || k == 'h') ? 0 : 1;
		ck[nck].hold = k == 'h' ? strtoll(a->v[i] + 1, NULL, 10) : 0;
		ck[nck].err = (k == 'M' || k == 'R') ? atoi(a->v[i] + 1) : 0;
		ck[nck].ns = (k == 'M' || k == 'R') ? 0 : strtoll(a->v[i] + 1, NULL, 10);
		nck++;
	}
}

int
__wrap_clock_gettime(clockid_t c, struct timespec * ts)
{
	int k = ck_idx(c), i;

	if (!ck_on || k == -1)
		return (__real_clock_gettime(c, ts));
	for (i = ick[k]; ck_hold == 0 && i < nck && ck[i].clk != k; i++)
		continue;
	if (k == 0 && ck_hold == 0 && i < nck && ck[i].hold) {
		ck_hold = ck[i].hold;
		ick[k] = i + 1;
	}
	if (k == 0 && ck_hold > 0) {
		ts->tv_sec = ck_last[0] / 1000000000;
		ts->tv_nsec = ck_last[0] % 1000000000;
		if (work.have && (rep_n == 0 || (rep.N == work.N && rep.r == work.r && rep.p == work.p))) {
			rep = work;
			rep_n++;
			work.have = 0;
		} else {
			rep_flush();
			ev("{\"e\":\"clk\",\"c\":0,\"ok\":1,\"err\":0,\"ns\":%lld}", (long long)ck_last[0]);
		}
		if (--ck_hold == 0)
			rep_flush();
		return (0);
	}
	rep_flush();
	if (i < nck) {
		ick[k] = i + 1;
		ck_lasterr[k] = ck[i].err;
		ck_last[k] = ck[i].ns;
	} else {
		ick[k] = nck;
		ck_last[k] += ck_tail;
	}
	if (ck_lasterr[k]) {
		ev("{\"e\":\"clk\",\"c\":%d,\"ok\":0,\"err\":%d,\"ns\":0}", k, ck_lasterr[k]);
		errno = ck_lasterr[k];
		return (-1);
	}
	ts->tv_sec = ck_last[k] / 1000000000;
	ts->tv_nsec = ck_last[k] % 1000000000;
	ev("{\"e\":\"clk\",\"c\":%d,\"ok\":1,\"err\":0,\"ns\":%lld}", k, (long long)ck_last[k]);
	return (0);
}

int
__wrap_clock_getres(clockid_t c, struct timespec * ts)
{
	int k = ck_idx(c);

	if (!ck_on || k == -1)
		return (__real_clock_getres(c, ts));
	rep_flush();
	if (ckres[k].err) {
		ev("{\"e\":\"res\",\"c\":%d,\"ok\":0,\"err\":%d,\"ns\":0}", k, ckres[k].err);
		errno = ckres[k].err;
		return (-1);
	}
	ev("{\"e\":\"res\",\"c\":%d,\"ok\":1,\"err\":0,\"ns\":%lld}", k, (long long)ckres[k].ns);
	if (ts != NULL) {
		ts->tv_sec = ckres[k].ns / 1000000000;
		ts->tv_nsec = ckres[k].ns % 1000000000;
	}
	return (0);
}

/* ------------------------------------------------------------------ */
/* Limits: lim as rss data totalram memunit pagesize physpages, each a number,
 * E<errno> (failure) or, for the rlimits, "inf"; sysconf: L = -1 without an
 * error.  no args: real */
static int lim_on;
static struct { int err; int inf; int64_t v; } lim[7];

static void
c_lim(struct args * a)
{
	int i;

	lim_on = a->n >= 7;
	for (i = 0; lim_on && i < 7; i++) {
		lim[i].err = lim[i].inf = 0;
		lim[i].v = 0;
		if (a->v[i][0] == 'E')
			lim[i].err = atoi(a->v[i] + 1);
		else if (a->v[i][0] == 'L')
			lim[i].v = -1;
		else if (strcmp(a->v[i], "inf") == 0)
			lim[i].inf = 1;
		else
			lim[i].v = (int64_t)a_u64(a->v[i]);
	}
}

int
__wrap_getrlimit(int r, struct rlimit * rl)
{
	int k = r == RLIMIT_AS ? 0 : r == RLIMIT_RSS ? 1 : r == RLIMIT_DATA ? 2 : -1;

	if (!lim_on || k == -1)
		return (__real_getrlimit(r, rl));
	if (lim[k].err) {
		errno = lim[k].err;
		return (-1);
	}
	rl->rlim_cur = lim[k].inf ? RLIM_INFINITY : (rlim_t)lim[k].v;
	rl->rlim_max = RLIM_INFINITY;
	return (0);
}

int
__wrap_sysinfo(struct sysinfo * si)
{
	if (!lim_on)
		return (__real_sysinfo(si));
	if (lim[3].err || lim[4].err) {
		errno = lim[3].err ? lim[3].err : lim[4].err;
		return (-1);
	}
	memset(si, 0, sizeof(*si));
	si->totalram = (unsigned long)lim[3].v;
	si->mem_unit = (unsigned int)lim[4].v;
	si->freeram = si->totalram / 3;
	return (0);
}

long
__wrap_sysconf(int name)
{
	int k = name == _SC_PAGESIZE ? 5 : name == _SC_PHYS_PAGES ? 6 : -1;

	if (!lim_on || k == -1)
		return (__real_sysconf(name));
	if (lim[k].err) {
		errno = lim[k].err;
		return (-1);
	}
	return ((long)lim[k].v);
}

/* ------------------------------------------------------------------ */
/* Key derivation as seen by its callers: recorded; may be made to fail
 * (kdf_fail-th call with output) or replaced by scrypt with N=2, r=p=1 so that
 * any parameters can be used. */
static int kdf_log, kdf_fake, kdf_fail, kdf_n, kdf_meas_fail, kdf_meas_n, kdf_meas_fake;

static void
c_kdf(struct args * a)
{
	kdf_log = (int)a_u64(a->v[0]);
	kdf_fake = (int)a_u64(a->v[1]);
	kdf_fail = (int)a_u64(a->v[2]);
	kdf_meas_fail = (int)a_u64(a->v[3]);
	kdf_meas_fake = a->n > 4 ? (int)a_u64(a->v[4]) : 0;
	kdf_n = kdf_meas_n = 0;
}

int
__wrap_crypto_scrypt(const uint8_t * pw, size_t pwlen, const uint8_t * salt, size_t saltlen,
    uint64_t N, uint32_t r, uint32_t p, uint8_t * buf, size_t buflen)
{
	int rc;

	if (buflen == 0) {
		/* speed measurement */
		if (ck_hold > 0 && (kdf_log & 2) && kdf_meas_n + 1 != kdf_meas_fail) {
			if (work.have)
				rep_flush();
			work.N = N;
			work.r = r;
			work.p = p;
			work.have = 1;
		} else if (kdf_log & 2)
			ev("{\"e\":\"work\",\"N\":%llu,\"r\":%u,\"p\":%u,\"ok\":%d}",
			    (unsigned long long)N, r, p, kdf_meas_n + 1 != kdf_meas_fail);
		if (++kdf_meas_n == kdf_meas_fail) {
			errno = ENOMEM;
			return (-1);
		}
		if (kdf_meas_fake)
			return (0);
		return (__real_crypto_scrypt(pw, pwlen, salt, saltlen, N, r, p, buf, buflen));
	}
	if (kdf_log & 1) {
		char h[160];
		snprintf(h, sizeof h, "{\"e\":\"kdf\",\"N\":%llu,\"r\":%u,\"p\":%u,\"len\":%zu,\"pw\":\"",
		    (unsigned long long)N, r, p, buflen);
		ev_hex(h, pw, pwlen, "");
		ev_cat("\",\"salt\":\"", salt, saltlen, "\"}");
	}
	if (++kdf_n == kdf_fail) {
		errno = ENOMEM;
		return (-1);
	}
	if (kdf_fake == 2) {
		/* a known key */
		size_t i;
		for (i = 0; i < buflen; i++)
			buf[i] = (uint8_t)(0x80 ^ (i * 37 + 11));
		rc = 0;
	} else if (kdf_fake)
		rc = __real_crypto_scrypt(pw, pwlen, salt, saltlen, 2, 1, 1, buf, buflen);
	else
		rc = __real_crypto_scrypt(pw, pwlen, salt, saltlen, N, r, p, buf, buflen);
	return (rc);
}

/* ------------------------------------------------------------------ */
/* CPU features, to be set before the first use: cpu aesni rdrand shani sse2
 * ssse3, each 0/1.  What this CPU does not have stays off. */
static void
c_cpu(struct args * a)
{
	unsigned int r1[4] = {0}, r7[4] = {0}, m[4];
	int f[5];

	cpuid_real(0, 0, m);
	if (m[0] >= 1)
		cpuid_real(1, 0, r1);
	if (m[0] >= 7)
		cpuid_real(7, 0, r7);
	f[0] = a_u64(a->v[0]) && (r1[2] >> 25 & 1);
	f[1] = a_u64(a->v[1]) && (r1[2] >> 30 & 1);
	f[2] = a_u64(a->v[2]) && (r7[1] >> 29 & 1);
	f[3] = a_u64(a->v[3]) && (r1[3] >> 26 & 1);
	f[4] = a_u64(a->v[4]) && (r1[2] >> 9 & 1);
#define SET(n, i) do {						\
	cpusupport_x86_##n##_present_1 = f[i];			\
	cpusupport_x86_##n##_init_1 = 1;			\
} while (0)
	SET(aesni, 0);
	SET(rdrand, 1);
	SET(shani, 2);
	SET(sse2, 3);
	SET(ssse3, 4);
	out("\"cpu\":[%d,%d,%d,%d,%d],", f[0], f[1], f[2], f[3], f[4]);
}

/* CPU identification: a script, or the CPU's own. */
static int id_on, id_n;
static unsigned int id_tab[16][6];
int
vh_cpuid_hook(unsigned int leaf, unsigned int sub, unsigned int * r)
{
	int i;

	if (!id_on)
		return (0);
	memset(r, 0, 4 * sizeof(*r));
	for (i = 0; i < id_n; i++)
		if (id_tab[i][0] == leaf && id_tab[i][1] == sub)
			memcpy(r, &id_tab[i][2], 4 * sizeof(*r));
	return (1);
}

/* cpuid leaf,sub,a,b,c,d ... */
static void
c_cpuid(struct args * a)
{
	int i, j;

	id_on = a->n > 0;
	id_n = 0;
	for (i = 0; i < a->n && i < 16; i++, id_n++) {
		char * q = a->v[i];
		for (j = 0; j < 6; j++)
			id_tab[i][j] = (unsigned int)strtoul(q, &q, 0), q += *q == ',';
	}
}

/* What the code makes of it, without and with its cache. */
static void
c_cpudetect(struct args * a)
{
	(void)a;
	out("\"det\":[%d,%d,%d,%d,%d],", !!cpusupport_x86_aesni_detect_1(), !!cpusupport_x86_rdrand_detect_1(),
	    !!cpusupport_x86_shani_detect_1(), !!cpusupport_x86_sse2_detect_1(), !!cpusupport_x86_ssse3_detect_1());
	out("\"cpu\":[%d,%d,%d,%d,%d],", !!cpusupport_x86_aesni(), !!cpusupport_x86_rdrand(),
	    !!cpusupport_x86_shani(), !!cpusupport_x86_sse2(), !!cpusupport_x86_ssse3());
}

/* ------------------------------------------------------------------ */
/* Accelerated cores: each may be made faulty, and its calls are counted.
 * Fault kinds: 0 none, 1 always wrong, 2 fails (where it can), 3 wrong only on
 * some inputs is not a fault a self-test can find, so there is none. */
static int f_shani, f_sse2, f_smix2, f_aesblk, f_aesexp, f_smix1, f_aessoft;
static long n_shani, n_sse2, n_smix2, n_smix1, n_aesblk, n_aesexp;
static int pbk_stub, smix_stub;

REAL(void, SHA256_Transform_shani, uint32_t *, const uint8_t *);
REAL(void, SHA256_Transform_sse2, uint32_t *, const uint8_t *, uint32_t *, uint32_t *);
REAL(void, crypto_scrypt_smix_sse2, uint8_t *, size_t, uint64_t, void *, void *);
REAL(void, crypto_scrypt_smix, uint8_t *, size_t, uint64_t, void *, void *);
REAL(void, crypto_aes_encrypt_block_aesni, const uint8_t *, uint8_t *, const void *);
REAL(void *, crypto_aes_key_expand_aesni, const uint8_t *, size_t);
REAL(void, AES_encrypt, const unsigned char *, unsigned char *, const void *);
REAL(void, libcperciva_PBKDF2_SHA256, const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint8_t *, size_t);
REAL(void, PBKDF2_SHA256, const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint8_t *, size_t);

void
__wrap_SHA256_Transform_shani(uint32_t * st, const uint8_t * b)
{
	n_shani++;
	__real_SHA256_Transform_shani(st, b);
	if (f_shani)
		st[f_shani & 7] ^= 1u << (f_shani & 31);
}

void
__wrap_SHA256_Transform_sse2(uint32_t * st, const uint8_t * b, uint32_t * W, uint32_t * S)
{
	n_sse2++;
	__real_SHA256_Transform_sse2(st, b, W, S);
	if (f_sse2)
		st[f_sse2 & 7] ^= 1u << (f_sse2 & 31);
}

void
__wrap_crypto_aes_encrypt_block_aesni(const uint8_t * in, uint8_t * o, const void * k)
{
	n_aesblk++;
	__real_crypto_aes_encrypt_block_aesni(in, o, k);
	if (f_aesblk)
		o[f_aesblk & 15] ^= 4;
}

/* OpenSSL's */
void
__wrap_AES_encrypt(const unsigned char * in, unsigned char * o, const void * k)
{
	__real_AES_encrypt(in, o, k);
	if (f_aessoft)
		o[f_aessoft & 15] ^= 8;
}

void *
__wrap_crypto_aes_key_expand_aesni(const uint8_t * k, size_t len)
{
	void * p;

	n_aesexp++;
	if (f_aesexp == 2)
		return (NULL);
	/* 3, 4: wrong for one key length only */
	p = __real_crypto_aes_key_expand_aesni(k, len);
	if (p != NULL && (f_aesexp == 1 || (f_aesexp == 3 && len == 16) || (f_aesexp == 4 && len == 32))) {
		/* as if another key had been given */
		uint8_t k2[32];
		void * p2;
		memcpy(k2, k, len);
		k2[0] ^= 1;
		p2 = __real_crypto_aes_key_expand_aesni(k2, len);
		__wrap_free(p);
		p = p2;
	}
	return (p);
}

/* With the stubs, only the calls and where they point are recorded. */
static uint8_t * smix_base;
static uint64_t smix_calls, smix_bad, smix_r, smix_N;
static uint8_t * seen;
static uint64_t seen_n;

static int
stub(uint8_t * B, size_t r, uint64_t N)
{
	uint64_t off;

	if (!smix_stub)
		return (0);
	if (smix_stub == 1) {
		if (smix_calls == 0) {
			smix_r = r;
			smix_N = N;
		}
		smix_calls++;
		off = (uint64_t)(B - smix_base);
		if (B < smix_base || off % (128 * r) || off / (128 * r) >= seen_n ||
		    seen[off / (128 * r)] || r != smix_r || N != smix_N)
			smix_bad++;
		else
			seen[off / (128 * r)] = 1;
	}
	return (1);
}

void
__wrap_crypto_scrypt_smix_sse2(uint8_t * B, size_t r, uint64_t N, void * V, void * XY)
{
	n_smix2++;
	if (stub(B, r, N))
		return;
	__real_crypto_scrypt_smix_sse2(B, r, N, V, XY);
	if (f_smix2)
		B[f_smix2 % (128 * r)] ^= 1;
}

void
__wrap_crypto_scrypt_smix(uint8_t * B, size_t r, uint64_t N, void * V, void * XY)
{
	n_smix1++;
	if (stub(B, r, N))
		return;
	__real_crypto_scrypt_smix(B, r, N, V, XY);
	if (f_smix1)
		B[f_smix1 % (128 * r)] ^= 1;
}

void
__wrap_PBKDF2_SHA256(const uint8_t * pw, size_t pwlen, const uint8_t * salt, size_t saltlen,
    uint64_t c, uint8_t * buf, size_t dk)
{
	if (pbk_stub) {
		/* The first call fills the array of blocks. */
		if (smix_base == NULL)
			smix_base = buf;
		ev("{\"e\":\"pbkdf2\",\"saltlen\":%zu,\"c\":%llu,\"dklen\":%zu}", saltlen,
		    (unsigned long long)c, dk);
		return;
	}
	__real_PBKDF2_SHA256(pw, pwlen, salt, saltlen, c, buf, dk);
}

/* stub pbkdf2 smix p: smix 1 = record, at most p blocks */
static void
c_stub(struct args * a)
{
	pbk_stub = (int)a_u64(a->v[0]);
	smix_stub = (int)a_u64(a->v[1]);
	if (seen != NULL)
		__real_free(seen);
	seen = NULL;
	seen_n = a->n > 2 ? a_u64(a->v[2]) : 0;
	if (seen_n)
		seen = __real_calloc(seen_n, 1);
	smix_calls = smix_bad = 0;
	smix_base = NULL;
}

static void
c_stubreport(struct args * a)
{
	uint64_t i, n = 0;

	(void)a;
	for (i = 0; i < seen_n; i++)
		n += seen[i];
	out("\"smixcalls\":%llu,\"smixbad\":%llu,\"smixblocks\":%llu,\"smixN\":%llu,\"smixr\":%llu,",
	    (unsigned long long)smix_calls, (unsigned long long)smix_bad, (unsigned long long)n,
	    (unsigned long long)smix_N, (unsigned long long)smix_r);
}

/* fault shani sse2 smix2 aesblk aesexp [smix1 aessoft] */
static void
c_fault(struct args * a)
{
	f_shani = (int)a_u64(a->v[0]);
	f_sse2 = (int)a_u64(a->v[1]);
	f_smix2 = (int)a_u64(a->v[2]);
	f_aesblk = (int)a_u64(a->v[3]);
	f_aesexp = (int)a_u64(a->v[4]);
	f_smix1 = a->n > 5 ? (int)a_u64(a->v[5]) : 0;
	f_aessoft = a->n > 6 ? (int)a_u64(a->v[6]) : 0;
}

static void
c_cores(struct args * a)
{
	(void)a;
	out("\"cores\":{\"shani\":%ld,\"sse2\":%ld,\"smix2\":%ld,\"smix1\":%ld,\"aesblk\":%ld,\"aesexp\":%ld},",
	    n_shani, n_sse2, n_smix2, n_smix1, n_aesblk, n_aesexp);
	n_shani = n_sse2 = n_smix2 = n_smix1 = n_aesblk = n_aesexp = 0;
}

struct cmd cmds_wrap[] = {
	{ "trk", c_trk }, { "live", c_live }, { "needles", c_needles }, { "stackscan", c_stackscan },
	{ "urandom", c_urandom }, { "rdrand", c_rdrand }, { "clock", c_clock }, { "lim", c_lim },
	{ "kdf", c_kdf }, { "cpu", c_cpu }, { "cpudetect", c_cpudetect }, { "cpuid", c_cpuid }, { "stub", c_stub },
	{ "stubreport", c_stubreport }, { "fault", c_fault }, { "cores", c_cores },
	{ NULL, NULL }
};
