/* Encryption, decryption and parameter display through the library
 * interfaces, on scripted streams. */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <openssl/sha.h>
#include "vh.h"
#include "memlimit.h"
#include "scryptenc.h"
#include "scryptenc_cpuperf.h"
#include "scryptenc_print_error.h"
#include "monoclock.h"

extern void * __real_realloc(void *, size_t);

/* ---- streams ---- */
struct instr { uint8_t * p; size_t len, pos; long err; int nchunk, ichunk; size_t chunk[256]; int failed; FILE * f; };
struct outstr { uint8_t * p; size_t len, cap; long err; FILE * f; };

static ssize_t
in_read(void * c, char * buf, size_t n)
{
	struct instr * s = c;
	size_t m = n;

	if (s->nchunk) {
		size_t k = s->chunk[s->ichunk];
		if (++s->ichunk == s->nchunk)
			s->ichunk = 0;
		if (k && m > k)
			m = k;
	}
	if (s->err >= 0 && s->pos + m > (size_t)s->err)
		m = (size_t)s->err - s->pos;
	if (m > s->len - s->pos)
		m = s->len - s->pos;
	if (m == 0 && n > 0 && s->err >= 0 && s->pos == (size_t)s->err) {
		ev("{\"e\":\"rd\",\"want\":%zu,\"n\":-1}", n);
		errno = EIO;
		return (-1);
	}
	if (m)
		memcpy(buf, s->p + s->pos, m);
	s->pos += m;
	ev("{\"e\":\"rd\",\"want\":%zu,\"n\":%zu}", n, m);
	return ((ssize_t)m);
}

static ssize_t
out_write(void * c, const char * buf, size_t n)
{
	struct outstr * s = c;
	size_t m = n;

	if (s->err >= 0 && s->len + m > (size_t)s->err)
		m = (size_t)s->err - s->len;
	if (s->len + m > s->cap) {
		s->cap = (s->len + m) * 2;
		s->p = __real_realloc(s->p, s->cap);
	}
	memcpy(s->p + s->len, buf, m);
	s->len += m;
	ev_hex("{\"e\":\"wr\",\"data\":\"", buf, m, m < n ? "\",\"ok\":0}" : "\",\"ok\":1}");
	if (m < n)
		errno = ENOSPC;
	return ((ssize_t)m);
}

static void
in_open(struct instr * s, const char * hex, const char * chunks, const char * err, int unbuf)
{
	cookie_io_functions_t io = { .read = in_read };
	struct bytes b = a_hex(hex);
	char * t = strdup(chunks), * q;

	memset(s, 0, sizeof(*s));
	s->p = b.p;
	s->len = b.len;
	s->err = atol(err);
	for (q = strtok(t, ","); q != NULL && s->nchunk < 256; q = strtok(NULL, ","))
		s->chunk[s->nchunk++] = a_u64(q);
	if (s->nchunk == 1 && s->chunk[0] == 0)
		s->nchunk = 0;
	free(t);
	s->f = fopencookie(s, "r", io);
	if (unbuf)
		setvbuf(s->f, NULL, _IONBF, 0);
}

static void
out_open(struct outstr * s, const char * err, int unbuf)
{
	cookie_io_functions_t io = { .write = out_write };

	memset(s, 0, sizeof(*s));
	s->err = atol(err);
	s->f = fopencookie(s, "w", io);
	if (unbuf)
		setvbuf(s->f, NULL, _IONBF, 0);
}

static int
out_close(struct outstr * s)
{
	int rc = fclose(s->f);

	ev("{\"e\":\"close\",\"ok\":%d}", rc == 0);
	out_hex("out", s->p, s->len);
	out("\"outlen\":%zu,\"fclose\":%d,", s->len, rc != 0);
	free(s->p);
	return (rc);
}

static void
in_close(struct instr * s)
{
	fclose(s->f);
	out("\"consumed\":%zu,", s->pos);
	free(s->p);
}

/* ---- standard error of one call ---- */
static int err_saved = -1, err_fd = -1;
static void
err_begin(void)
{
	fflush(stderr);
	err_saved = dup(2);
	err_fd = memfd_create("err", 0);
	dup2(err_fd, 2);
}
static void
err_end(void)
{
	static char buf[65536];
	ssize_t n;

	fflush(stderr);
	dup2(err_saved, 2);
	close(err_saved);
	n = pread(err_fd, buf, sizeof(buf), 0);
	close(err_fd);
	out_hex("err", buf, n > 0 ? (size_t)n : 0);
}

/* ---- parameters: maxmem frac time logN r p verbose force ---- */
struct call {
	int op, rc, verbose, force;
	struct scryptenc_params P;
	struct bytes in, pw;
	uint8_t * outbuf;
	size_t outlen;
	FILE * inf, * outf;
	struct scryptdec_file_cookie * C;
};

static void
params(struct call * c, char ** v)
{
	memset(&c->P, 0, sizeof(c->P));
	c->P.maxmem = a_u64(v[0]);
	c->P.maxmemfrac = strtod(v[1], NULL);
	c->P.maxtime = strtod(v[2], NULL);
	c->P.logN = atoi(v[3]);
	c->P.r = (uint32_t)a_u64(v[4]);
	c->P.p = (uint32_t)a_u64(v[5]);
	c->verbose = atoi(v[6]);
	c->force = atoi(v[7]);
}

static void
do_call(void * v)
{
	struct call * c = v;

	switch (c->op) {
	case 0:
		c->rc = scryptenc_buf(c->in.p, c->in.len, c->outbuf, c->pw.p, c->pw.len, &c->P, c->verbose, c->force);
		break;
	case 1:
		c->rc = scryptdec_buf(c->in.p, c->in.len, c->outbuf, &c->outlen, c->pw.p, c->pw.len, &c->P, c->verbose, c->force);
		break;
	case 2:
		c->rc = scryptenc_file(c->inf, c->outf, c->pw.p, c->pw.len, &c->P, c->verbose, c->force);
		break;
	case 3:
		c->rc = scryptdec_file(c->inf, c->outf, c->pw.p, c->pw.len, &c->P, c->verbose, c->force);
		break;
	case 4:
		c->rc = scryptdec_file_prep(c->inf, c->pw.p, c->pw.len, &c->P, c->verbose, c->force, &c->C);
		break;
	case 5:
		c->rc = scryptdec_file_copy(c->C, c->outf);
		break;
	case 6:
		scryptdec_file_cookie_free(c->C);
		break;
	case 7:
		c->rc = scryptdec_file_printparams(c->inf);
		break;
	}
}

static void
go(struct call * c)
{
	err_begin();
	trk_start();
	call_on_stack(do_call, c);
	trk_stop();
	err_end();
	trk_report();
	out("\"rc\":%d,", c->rc);
}

static void
rep_params(struct call * c)
{
	out("\"params\":[%d,%u,%u],", c->P.logN, c->P.r, c->P.p);
}

/* buf op data pw params(8): op 0 enc, 1 dec */
static void
c_buf(struct args * a)
{
	struct call c;
	struct guarded in, o;
	struct bytes b = a_hex(a->v[1]);
	size_t i, n;

	memset(&c, 0, sizeof(c));
	c.op = atoi(a->v[0]);
	in = g_new(b.len, 1);
	memcpy(in.p, b.p, b.len);
	c.in.p = in.p;
	c.in.len = b.len;
	c.pw = a_hex(a->v[2]);
	params(&c, a->v + 3);
	n = c.op == 0 ? b.len + 128 : b.len;
	o = g_new(n, 3);
	memset(o.p, 0xee, n);
	c.outbuf = o.p;
	c.outlen = (size_t)-1;
	go(&c);
	rep_params(&c);
	out("\"guards\":%d,", g_ok(&o) && g_ok(&in) && memcmp(in.p, b.p, b.len) == 0);
	for (i = 0; i < n && o.p[i] == 0xee; i++)
		continue;
	out("\"untouched\":%d,\"outlen\":%zd,", i == n, c.rc == 0 ? (c.op == 0 ? (ssize_t)n : (ssize_t)c.outlen) : -1);
	if (c.rc == 0 && (c.op == 0 || c.outlen <= n))
		out_hex("out", o.p, c.op == 0 ? n : c.outlen);
	else
		out("\"out\":\"\",");
	g_free(&in);
	g_free(&o);
	free(b.p);
	free(c.pw.p);
}

/* huge n pw params(8) at...: n zero bytes are encrypted and decrypted as
 * buffers, and decrypted with the byte at each position (from the end, if
 * negative) altered. */
static void
sha_hex(const char * key, const uint8_t * p, size_t n)
{
	uint8_t d[32];
	SHA256(p, n, d);
	out_hex(key, d, 32);
}

static void
c_huge(struct args * a)
{
	struct call c;
	size_t n = a_u64(a->v[0]), i;
	uint8_t * in, * box, * dst;
	int k;

	in = mmap(NULL, n + 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	box = mmap(NULL, n + 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dst = mmap(NULL, n + 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (in == MAP_FAILED || box == MAP_FAILED || dst == MAP_FAILED) {
		out("\"unable\":1,");
		return;
	}
	memset(&c, 0, sizeof(c));
	c.pw = a_hex(a->v[1]);
	params(&c, a->v + 2);
	c.op = 0;
	c.in.p = in;
	c.in.len = n;
	c.outbuf = box;
	do_call(&c);
	out("\"enc\":%d,", c.rc);
	out_hex("head", box, 96);
	out_hex("tail", box + n + 96, 32);
	sha_hex("sha", box, n + 128);
	memset(dst, 0xee, n + 128 < 4096 ? n + 128 : 4096);
	c.op = 1;
	c.in.p = box;
	c.in.len = n + 128;
	c.outbuf = dst;
	c.outlen = (size_t)-1;
	c.P.logN = 0;
	c.P.r = c.P.p = 0;
	do_call(&c);
	out("\"dec\":%d,\"outlen\":[%zu,%zu],", c.rc, c.outlen >> 20, c.outlen & 0xfffff);
	sha_hex("sha2", dst, n);
	out("\"altered\":[");
	for (k = 10; k < a->n; k++) {
		long long at = atoll(a->v[k]);
		i = at < 0 ? n + 128 - (size_t)-at : (size_t)at;
		box[i] ^= 0x10;
		c.P.logN = 0;
		c.P.r = c.P.p = 0;
		do_call(&c);
		box[i] ^= 0x10;
		out("%s%d", k > 10 ? "," : "", c.rc);
	}
	out("],");
	munmap(in, n + 128);
	munmap(box, n + 128);
	munmap(dst, n + 128);
	free(c.pw.p);
}

/* file op data chunks rderr wrerr unbuf pw params(8): op 2 enc, 3 dec */
static void
c_file(struct args * a)
{
	struct call c;
	struct instr in;
	struct outstr o;
	int unbuf = atoi(a->v[5]);

	memset(&c, 0, sizeof(c));
	c.op = atoi(a->v[0]);
	in_open(&in, a->v[1], a->v[2], a->v[3], unbuf & 1);
	out_open(&o, a->v[4], unbuf & 2);
	c.pw = a_hex(a->v[6]);
	params(&c, a->v + 7);
	c.inf = in.f;
	c.outf = o.f;
	go(&c);
	rep_params(&c);
	ev("{\"e\":\"ret\",\"rc\":%d}", c.rc);
	out_close(&o);
	in_close(&in);
	free(c.pw.p);
}

/* two-step decryption: prep k data chunks rderr unbuf pw params(8);
 * copy k wrerr unbuf; dfree k */
static struct { struct instr in; struct scryptdec_file_cookie * C; int used; } dh[16];

static void
c_prep(struct args * a)
{
	struct call c;
	uint64_t k = a_u64(a->v[0]) & 15;

	memset(&c, 0, sizeof(c));
	c.op = 4;
	in_open(&dh[k].in, a->v[1], a->v[2], a->v[3], atoi(a->v[4]) & 1);
	c.pw = a_hex(a->v[5]);
	params(&c, a->v + 6);
	c.inf = dh[k].in.f;
	go(&c);
	ev("{\"e\":\"prep\",\"rc\":%d}", c.rc);
	rep_params(&c);
	free(c.pw.p);
	dh[k].C = c.rc == 0 ? c.C : NULL;
	dh[k].used = c.rc == 0;
	if (c.rc != 0)
		in_close(&dh[k].in);
}

static void
c_copy(struct args * a)
{
	struct call c;
	struct outstr o;
	uint64_t k = a_u64(a->v[0]) & 15;

	memset(&c, 0, sizeof(c));
	if (dh[k].C == NULL) {
		out("\"nohandle\":1,");
		return;
	}
	c.op = 5;
	c.C = dh[k].C;
	out_open(&o, a->v[1], atoi(a->v[2]) & 2);
	c.outf = o.f;
	go(&c);
	ev("{\"e\":\"ret\",\"rc\":%d}", c.rc);
	out_close(&o);
}

static void
c_dfree(struct args * a)
{
	struct call c;
	uint64_t k = a_u64(a->v[0]) & 15;

	memset(&c, 0, sizeof(c));
	c.op = 6;
	c.C = dh[k].C;	/* may be NULL */
	go(&c);
	dh[k].C = NULL;
	if (dh[k].used) {
		dh[k].used = 0;
		in_close(&dh[k].in);
	}
}

/* info data chunks rderr unbuf */
static void
c_info(struct args * a)
{
	struct call c;
	struct instr in;

	memset(&c, 0, sizeof(c));
	c.op = 7;
	in_open(&in, a->v[0], a->v[1], a->v[2], atoi(a->v[3]) & 1);
	c.inf = in.f;
	go(&c);
	in_close(&in);
}

/* memtouse maxmem frac */
static void
c_memtouse(struct args * a)
{
	size_t m = 0;
	int rc = memtouse(a_u64(a->v[0]), strtod(a->v[1], NULL), &m);

	out("\"rc\":%d,\"mem\":%zu,", rc, m);
}

/* cpuperf: exact result as a hexadecimal floating-point number */
static void
c_cpuperf(struct args * a)
{
	double opps = -1;
	int rc;

	(void)a;
	err_begin();
	rc = scryptenc_cpuperf(&opps);
	err_end();
	out("\"rc\":%d,\"opps\":\"%a\",", rc, opps);
}

/* mono which: 0 monoclock_get, 1 cputime, 2 getres */
static void
c_mono(struct args * a)
{
	struct timeval tv = { -1, -1 };
	double d = -1;
	int rc, w = atoi(a->v[0]);

	err_begin();
	rc = w == 0 ? monoclock_get(&tv) : w == 1 ? monoclock_get_cputime(&tv) : monoclock_getres(&d);
	err_end();
	out("\"rc\":%d,\"sec\":%lld,\"usec\":%lld,\"res\":\"%a\",", rc, (long long)tv.tv_sec, (long long)tv.tv_usec, d);
}

/* printerr rc in out */
static void
c_printerr(struct args * a)
{
	err_begin();
	errno = EIO;
	scryptenc_print_error(atoi(a->v[0]), a->v[1][0] == '~' ? NULL : a->v[1], a->v[2][0] == '~' ? NULL : a->v[2]);
	err_end();
}

/* Files of the command: io inpath rderr outpath wrerr closeerr.  Reads and
 * writes are recorded and fail where asked; what is written goes to the file. */
extern FILE * __real_fopen(const char *, const char *);
extern int __real_fclose(FILE *);
static struct { int on; char * in, * out; long rderr, wrerr; int closeerr; } io;
static struct iof { FILE * f; long pos; int wr; } iofs[8];

static ssize_t
io_read(void * v, char * buf, size_t n)
{
	struct iof * s = v;
	ssize_t r;

	if (io.rderr >= 0 && s->pos + (long)n > io.rderr)
		n = (size_t)(io.rderr - s->pos);
	if (n == 0) {
		ev("{\"e\":\"rd\",\"want\":0,\"n\":-1}");
		errno = EIO;
		return (-1);
	}
	r = read(fileno(s->f), buf, n);
	if (r > 0)
		s->pos += r;
	ev("{\"e\":\"rd\",\"want\":%zu,\"n\":%zd}", n, r);
	return (r);
}

static ssize_t
io_write(void * v, const char * buf, size_t n)
{
	struct iof * s = v;
	size_t m = n;

	if (io.wrerr >= 0 && s->pos + (long)n > io.wrerr)
		m = (size_t)(io.wrerr - s->pos);
	if (m > 0 && write(fileno(s->f), buf, m) != (ssize_t)m)
		_exit(96);
	s->pos += (long)m;
	ev_hex("{\"e\":\"wr\",\"data\":\"", buf, m, m < n ? "\",\"ok\":0}" : "\",\"ok\":1}");
	if (m < n)
		errno = ENOSPC;
	return ((ssize_t)m);
}

static int
io_close(void * v)
{
	struct iof * s = v;
	int rc = __real_fclose(s->f), wr = s->wr;

	s->f = NULL;
	if (wr) {
		ev("{\"e\":\"closed\",\"ok\":%d}", !io.closeerr);
		if (io.closeerr) {
			errno = EIO;
			return (-1);
		}
	}
	return (rc);
}

FILE *
io_fopen(const char * path, const char * mode)
{
	cookie_io_functions_t fn = { .read = io_read, .write = io_write, .close = io_close };
	int i, wr = mode[0] == 'w';

	if (!io.on || strcmp(path, wr ? io.out : io.in) != 0)
		return (NULL);
	for (i = 0; i < 8 && iofs[i].f != NULL; i++)
		continue;
	if (i == 8 || (iofs[i].f = __real_fopen(path, mode)) == NULL)
		return (NULL);
	setvbuf(iofs[i].f, NULL, _IONBF, 0);
	iofs[i].pos = 0;
	iofs[i].wr = wr;
	return (fopencookie(&iofs[i], mode, fn));
}

static void
c_io(struct args * a)
{
	io.on = a->n >= 5;
	if (!io.on)
		return;
	io.in = strdup(a->v[0]);
	io.rderr = atol(a->v[1]);
	io.out = strdup(a->v[2]);
	io.wrerr = atol(a->v[3]);
	io.closeerr = atoi(a->v[4]);
}

struct cmd cmds_enc[] = {
	{ "io", c_io },
	{ "buf", c_buf }, { "huge", c_huge }, { "file", c_file }, { "prep", c_prep }, { "copy", c_copy }, { "dfree", c_dfree },
	{ "info", c_info }, { "memtouse", c_memtouse }, { "cpuperf", c_cpuperf }, { "mono", c_mono },
	{ "printerr", c_printerr },
	{ NULL, NULL }
};
