/* The cryptographic primitives. */
#include <errno.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "vh.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "crypto_verify_bytes.h"
#include "entropy.h"
#include "insecure_memzero.h"
#include "sha256.h"
#include "scrypt-kdf.h"

static struct guarded
gcopy(struct bytes b, size_t mis)
{
	struct guarded g = g_new(b.len, mis);

	if (b.len)
		memcpy(g.p, b.p, b.len);
	return (g);
}

/* kdf_call which pw salt N r p buflen mis: which 0 crypto_scrypt, 1 scrypt_kdf,
 * 2 reference implementation; buflen may exceed what is allocated if the
 * allocation size is given as a further argument. */
struct scall { int which; struct guarded pw, salt, o; int pwnull, saltnull; uint64_t N; uint32_t r, p; size_t buflen; int rc; };
int ref_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);

static void
do_scrypt(void * v)
{
	struct scall * s = v;
	const uint8_t * pw = s->pwnull ? NULL : s->pw.p, * salt = s->saltnull ? NULL : s->salt.p;

	if (s->which == 1)
		s->rc = scrypt_kdf(pw, s->pw.len, salt, s->salt.len, s->N, s->r, s->p, s->o.p, s->buflen);
	else if (s->which == 2)
		s->rc = ref_crypto_scrypt(pw, s->pw.len, salt, s->salt.len, s->N, s->r, s->p, s->o.p, s->buflen);
	else
		s->rc = crypto_scrypt(pw, s->pw.len, salt, s->salt.len, s->N, s->r, s->p, s->o.p, s->buflen);
}

/* scryptz pm pn PW sm sn SALT N r p buflen pos...: passphrase and salt are pm
 * (sm) MiB and pn (sn) bytes of zeros followed by PW (SALT); shows the 32 bytes
 * at the positions given. */
static uint8_t *
zeros_then(size_t n, struct bytes t)
{
	uint8_t * p = mmap(NULL, n + t.len + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

	if (p == MAP_FAILED)
		_exit(97);
	memcpy(p + n, t.p, t.len);
	return (p);
}

static void
c_scryptz(struct args * a)
{
	struct bytes pt = a_hex(a->v[2]), st = a_hex(a->v[5]);
	size_t pn = (a_u64(a->v[0]) << 20) + a_u64(a->v[1]), sn = (a_u64(a->v[3]) << 20) + a_u64(a->v[4]), len = a_u64(a->v[9]), pos;
	uint8_t * pw = zeros_then(pn, pt), * salt = zeros_then(sn, st), * o;
	struct bytes none = { (uint8_t *)"", 0 };
	int i, rc;

	o = zeros_then(len + 4096, none);
	memset(o + len, 0xee, 4096);
	rc = crypto_scrypt(pw, pn + pt.len, salt, sn + st.len, a_u64(a->v[6]), (uint32_t)a_u64(a->v[7]), (uint32_t)a_u64(a->v[8]), o, len);
	out("\"rc\":%d,\"b\":[", rc);
	for (i = 10; i < a->n; i++) {
		pos = a_u64(a->v[i]);
		out("%s{\"i\":\"%08x\",", i > 10 ? "," : "", (unsigned)(pos / 32 + 1));
		out_hex("out", o + pos, 32);
		out("\"at\":%d}", i - 10);
	}
	for (i = 0; i < 4096 && o[len + (size_t)i] == 0xee; i++)
		continue;
	out("],\"slack\":%d,", i == 4096);
	munmap(pw, pn + pt.len + 1);
	munmap(salt, sn + st.len + 1);
	munmap(o, len + 4097);
}

static void
c_scrypt(struct args * a)
{
	struct scall s;
	struct bytes pw = a_hex(a->v[1]), salt = a_hex(a->v[2]);
	size_t mis = a->n > 7 ? a_u64(a->v[7]) : 0, alloc, i, n;

	s.which = atoi(a->v[0]);
	s.pwnull = pw.p == NULL;
	s.saltnull = salt.p == NULL;
	s.pw = gcopy(pw, mis);
	s.salt = gcopy(salt, mis * 3);
	s.N = a_u64(a->v[3]);
	s.r = (uint32_t)a_u64(a->v[4]);
	s.p = (uint32_t)a_u64(a->v[5]);
	s.buflen = a_u64(a->v[6]);
	alloc = a->n > 8 ? a_u64(a->v[8]) : s.buflen;
	s.o = g_new(alloc, mis * 5);
	memset(s.o.p, 0xee, alloc);
	trk_start();
	call_on_stack(do_scrypt, &s);
	trk_stop();
	out("\"rc\":%d,\"errno\":%d,", s.rc, errno);
	trk_report();
	for (i = n = 0; i < alloc; i++)
		n += s.o.p[i] == 0xee;
	out("\"untouched\":%d,", n == alloc);
	out("\"guards\":%d,", g_ok(&s.o) && g_ok(&s.pw) && g_ok(&s.salt) &&
	    (!pw.len || memcmp(pw.p, s.pw.p, pw.len) == 0) && (!salt.len || memcmp(salt.p, s.salt.p, salt.len) == 0));
	out_hex("out", s.o.p, s.rc == 0 ? alloc : 0);
	g_free(&s.o);
	g_free(&s.pw);
	g_free(&s.salt);
	free(pw.p);
	free(salt.p);
}

/* sha mis part...: hash of the parts; sha also checks SHA256_Buf */
static void
c_sha(struct args * a)
{
	SHA256_CTX * ctx;
	struct guarded cg = g_new(sizeof(SHA256_CTX), 0), dg = g_new(32, a_u64(a->v[0]));
	size_t mis = a_u64(a->v[0]);
	int i, ok = 1;

	ctx = (void *)cg.p;
	SHA256_Init(ctx);
	for (i = 1; i < a->n; i++) {
		struct bytes b = a_hex(a->v[i]);
		struct guarded g = gcopy(b, mis + (size_t)i);
		SHA256_Update(ctx, b.p == NULL ? NULL : g.p, b.len);
		ok &= g_ok(&g);
		g_free(&g);
		free(b.p);
	}
	SHA256_Final(dg.p, ctx);
	ok &= g_ok(&cg) && g_ok(&dg);
	out_hex("out", dg.p, 32);
	out("\"guards\":%d,", ok);
	g_free(&cg);
	g_free(&dg);
}

static void
c_shabuf(struct args * a)
{
	struct bytes b = a_hex(a->v[1]);
	struct guarded g = gcopy(b, a_u64(a->v[0])), dg = g_new(32, a_u64(a->v[0]));

	SHA256_Buf(b.p == NULL ? NULL : g.p, b.len, dg.p);
	out_hex("out", dg.p, 32);
	out("\"guards\":%d,", g_ok(&g) && g_ok(&dg));
	g_free(&g);
	g_free(&dg);
	free(b.p);
}

/* sharep chunk count tail: chunk repeated count times, then tail; the updates
 * are of the whole of a buffer holding as many chunks as fit in 1 MB */
static void
c_sharep(struct args * a)
{
	struct bytes b = a_hex(a->v[0]), t = a_hex(a->v[2]);
	uint64_t n = a_u64(a->v[1]), k, i;
	uint8_t * big, d[32];
	SHA256_CTX ctx;

	k = (1 << 20) / b.len;
	if (k == 0)
		k = 1;
	big = malloc(k * b.len);
	for (i = 0; i < k; i++)
		memcpy(big + i * b.len, b.p, b.len);
	SHA256_Init(&ctx);
	while (n > 0) {
		uint64_t m = n < k ? n : k;
		SHA256_Update(&ctx, big, m * b.len);
		n -= m;
	}
	SHA256_Update(&ctx, t.p, t.len);
	SHA256_Final(d, &ctx);
	out_hex("out", d, 32);
	free(big);
	free(b.p);
	free(t.p);
}

/* shazero n tail: n zero bytes in one update (never touched memory), then tail */
static void
c_shazero(struct args * a)
{
	size_t n = a_u64(a->v[0]);
	struct bytes t = a_hex(a->v[1]);
	uint8_t d[32], * z;
	SHA256_CTX ctx;

	z = mmap(NULL, n + 1, PROT_READ, MAP_ANON | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
	SHA256_Init(&ctx);
	SHA256_Update(&ctx, z, n);
	SHA256_Update(&ctx, t.p, t.len);
	SHA256_Final(d, &ctx);
	out_hex("out", d, 32);
	munmap(z, n + 1);
	free(t.p);
}

/* verifyzero n pos: n zero bytes compared with the same except at pos (-1: none) */
static void
c_verifyzero(struct args * a)
{
	size_t n = a_u64(a->v[0]);
	long long pos = atoll(a->v[1]);
	uint8_t * x, * y;

	x = mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_ANON | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
	y = mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_ANON | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
	if (pos >= 0)
		y[pos] = 0x10;
	out("\"out\":%d,", crypto_verify_bytes(x, y, n) != 0);
	munmap(x, n + 1);
	munmap(y, n + 1);
}

/* Contexts that live across commands, for interleaving: shas_init k,
 * shas_upd k hex, shas_fin k */
static SHA256_CTX sctx[8];
static HMAC_SHA256_CTX hctx[8];
static void c_shas_init(struct args * a) { SHA256_Init(&sctx[a_u64(a->v[0]) & 7]); }
static void c_shas_upd(struct args * a)
{
	struct bytes b = a_hex(a->v[1]);
	SHA256_Update(&sctx[a_u64(a->v[0]) & 7], b.p, b.len);
	free(b.p);
}
static void c_shas_fin(struct args * a)
{
	uint8_t d[32];
	SHA256_Final(d, &sctx[a_u64(a->v[0]) & 7]);
	out_hex("out", d, 32);
}
static void c_hmacs_init(struct args * a)
{
	struct bytes k = a_hex(a->v[1]);
	HMAC_SHA256_Init(&hctx[a_u64(a->v[0]) & 7], k.p, k.len);
	free(k.p);
}
static void c_hmacs_upd(struct args * a)
{
	struct bytes b = a_hex(a->v[1]);
	HMAC_SHA256_Update(&hctx[a_u64(a->v[0]) & 7], b.p, b.len);
	free(b.p);
}
static void c_hmacs_fin(struct args * a)
{
	uint8_t d[32];
	HMAC_SHA256_Final(d, &hctx[a_u64(a->v[0]) & 7]);
	out_hex("out", d, 32);
}

static void
c_hmac(struct args * a)
{
	HMAC_SHA256_CTX ctx;
	size_t mis = a_u64(a->v[0]);
	struct bytes k = a_hex(a->v[1]);
	struct guarded kg = gcopy(k, mis), dg = g_new(32, mis);
	int i, ok = 1;

	HMAC_SHA256_Init(&ctx, k.p == NULL ? NULL : kg.p, k.len);
	for (i = 2; i < a->n; i++) {
		struct bytes b = a_hex(a->v[i]);
		struct guarded g = gcopy(b, mis + (size_t)i);
		HMAC_SHA256_Update(&ctx, b.p == NULL ? NULL : g.p, b.len);
		ok &= g_ok(&g);
		g_free(&g);
		free(b.p);
	}
	HMAC_SHA256_Final(dg.p, &ctx);
	ok &= g_ok(&kg) && g_ok(&dg);
	out_hex("out", dg.p, 32);
	out("\"guards\":%d,", ok);
	g_free(&kg);
	g_free(&dg);
	free(k.p);
}

static void
c_hmacbuf(struct args * a)
{
	struct bytes k = a_hex(a->v[1]), b = a_hex(a->v[2]);
	struct guarded kg = gcopy(k, a_u64(a->v[0])), g = gcopy(b, a_u64(a->v[0]) + 1), dg = g_new(32, a_u64(a->v[0]));

	HMAC_SHA256_Buf(k.p == NULL ? NULL : kg.p, k.len, b.p == NULL ? NULL : g.p, b.len, dg.p);
	out_hex("out", dg.p, 32);
	out("\"guards\":%d,", g_ok(&g) && g_ok(&dg) && g_ok(&kg));
	g_free(&g);
	g_free(&dg);
	g_free(&kg);
	free(b.p);
	free(k.p);
}

static void
c_pbkdf2(struct args * a)
{
	size_t mis = a_u64(a->v[0]), len = a_u64(a->v[4]);
	struct bytes pw = a_hex(a->v[1]), salt = a_hex(a->v[2]);
	struct guarded pg = gcopy(pw, mis), sg = gcopy(salt, mis), o = g_new(len, mis);

	PBKDF2_SHA256(pw.p == NULL ? NULL : pg.p, pw.len, salt.p == NULL ? NULL : sg.p, salt.len, a_u64(a->v[3]), o.p, len);
	if (a->n > 5 && a_u64(a->v[5]) < len)	/* only the end */
		out_hex("out", o.p + len - a_u64(a->v[5]), a_u64(a->v[5]));
	else
		out_hex("out", o.p, len);
	out("\"guards\":%d,", g_ok(&pg) && g_ok(&sg) && g_ok(&o));
	g_free(&pg);
	g_free(&sg);
	g_free(&o);
	free(pw.p);
	free(salt.p);
}

static void
c_verify(struct args * a)
{
	struct bytes x = a_hex(a->v[1]), y = a_hex(a->v[2]);
	size_t mis = a_u64(a->v[0]);
	struct guarded xg = gcopy(x, mis), yg = gcopy(y, mis * 2);

	out("\"out\":%d,", crypto_verify_bytes(xg.p, yg.p, x.len) != 0);
	g_free(&xg);
	g_free(&yg);
	free(x.p);
	free(y.p);
}

/* AES: keys and streams are named by number */
static struct crypto_aes_key * keys[64];
static struct crypto_aesctr * strs[64];

static void
c_aeskey(struct args * a)
{
	struct bytes k = a_hex(a->v[1]);
	struct guarded g = gcopy(k, a->n > 2 ? a_u64(a->v[2]) : 0);

	trk_start();
	keys[a_u64(a->v[0]) & 63] = crypto_aes_key_expand(g.p, k.len);
	trk_stop();
	out("\"ok\":%d,", keys[a_u64(a->v[0]) & 63] != NULL);
	g_free(&g);
	free(k.p);
}

static void
c_aeskeyfree(struct args * a)
{
	trk_start();
	crypto_aes_key_free(keys[a_u64(a->v[0]) & 63]);
	trk_stop();
	keys[a_u64(a->v[0]) & 63] = NULL;
	trk_report();
}

static void
c_aesblk(struct args * a)
{
	struct bytes b = a_hex(a->v[1]);
	size_t mis = a->n > 2 ? a_u64(a->v[2]) : 0;
	int inplace = a->n > 3 && a_u64(a->v[3]);
	struct guarded g = gcopy(b, mis), o = g_new(16, mis * 3);

	crypto_aes_encrypt_block(g.p, inplace ? g.p : o.p, keys[a_u64(a->v[0]) & 63]);
	out_hex("out", inplace ? g.p : o.p, 16);
	out("\"guards\":%d,", g_ok(&g) && g_ok(&o));
	g_free(&g);
	g_free(&o);
	free(b.p);
}

static void
c_aesintr(struct args * a)
{
	(void)a;
	out("\"intr\":%d,", crypto_aes_can_use_intrinsics());
}

/* ctrinit s k nonce how: 0 crypto_aesctr_init, 1 alloc + init2, 2 init2 on the
 * existing stream (k = "~": key retained) */
static void
c_ctrinit(struct args * a)
{
	uint64_t s = a_u64(a->v[0]) & 63, nonce = a_u64(a->v[2]);
	struct crypto_aes_key * k = a->v[1][0] == '~' ? NULL : keys[a_u64(a->v[1]) & 63];
	int how = atoi(a->v[3]);

	trk_start();
	switch (how) {
	case 0:
		strs[s] = crypto_aesctr_init(k, nonce);
		break;
	case 1:
		if ((strs[s] = crypto_aesctr_alloc()) != NULL)
			crypto_aesctr_init2(strs[s], k, nonce);
		break;
	case 2:
		crypto_aesctr_init2(strs[s], k, nonce);
		break;
	}
	trk_stop();
	out("\"ok\":%d,", strs[s] != NULL);
}

static void
c_ctrfree(struct args * a)
{
	trk_start();
	crypto_aesctr_free(strs[a_u64(a->v[0]) & 63]);
	trk_stop();
	strs[a_u64(a->v[0]) & 63] = NULL;
	trk_report();
}

/* ctr s data mis inplace */
static void
c_ctr(struct args * a)
{
	struct bytes b = a_hex(a->v[1]);
	size_t mis = a_u64(a->v[2]);
	int inplace = atoi(a->v[3]);
	struct guarded g = gcopy(b, mis), o = g_new(b.len, mis * 5 + 3);

	crypto_aesctr_stream(strs[a_u64(a->v[0]) & 63], g.p, inplace ? g.p : o.p, b.len);
	out_hex("out", inplace ? g.p : o.p, b.len);
	out("\"guards\":%d,", g_ok(&g) && g_ok(&o) && (inplace || memcmp(g.p, b.p, b.len) == 0));
	g_free(&g);
	g_free(&o);
	free(b.p);
}

/* ctrskip s n chunk: advances by n bytes, discarding the output */
static void
c_ctrskip(struct args * a)
{
	uint64_t n = a_u64(a->v[1]), c = a_u64(a->v[2]);
	uint8_t * b = calloc(c, 1);

	while (n > 0) {
		uint64_t m = n < c ? n : c;
		crypto_aesctr_stream(strs[a_u64(a->v[0]) & 63], b, b, m);
		n -= m;
	}
	free(b);
}

static void
c_ctrbuf(struct args * a)
{
	struct bytes b = a_hex(a->v[2]);
	size_t mis = a_u64(a->v[3]);
	struct guarded g = gcopy(b, mis), o = g_new(b.len, mis * 3);

	crypto_aesctr_buf(keys[a_u64(a->v[0]) & 63], a_u64(a->v[1]), g.p, o.p, b.len);
	out_hex("out", o.p, b.len);
	out("\"guards\":%d,", g_ok(&g) && g_ok(&o));
	g_free(&g);
	g_free(&o);
	free(b.p);
}

/* The object representation of a stream, and setting it: used to start far
 * into the stream where the representation is understood (see S19). */
static void
c_ctrpeek(struct args * a)
{
	void * p = strs[a_u64(a->v[0]) & 63];

	out_hex("mem", p, malloc_usable_size(p));
}

static void
c_ctrpoke(struct args * a)
{
	struct bytes b = a_hex(a->v[1]);

	memcpy(strs[a_u64(a->v[0]) & 63], b.p, b.len);
	free(b.p);
}

/* entropy n mis: crypto_entropy_read */
static void
c_entropy(struct args * a)
{
	size_t n = a_u64(a->v[0]);
	struct guarded g = g_new(n, a->n > 1 ? a_u64(a->v[1]) : 0);
	int rc;

	memset(g.p, 0xee, n);
	trk_start();
	rc = crypto_entropy_read(g.p, n);
	trk_stop();
	out("\"rc\":%d,\"guards\":%d,", rc, g_ok(&g));
	trk_report();
	out_hex("out", g.p, rc == 0 ? n : 0);
	g_free(&g);
}

/* entropyn n k: k requests of n bytes, only the last is reported */
static void
c_osentropy(struct args * a)
{
	size_t n = a_u64(a->v[0]);
	struct guarded g = g_new(n, 0);
	int rc;

	trk_start();
	rc = entropy_read(g.p, n);
	trk_stop();
	out("\"rc\":%d,\"guards\":%d,", rc, g_ok(&g));
	trk_report();
	out_hex("out", g.p, rc == 0 ? n : 0);
	g_free(&g);
}

/* osentropys n1 n2...: one cookie, several fills */
static void
c_osentropys(struct args * a)
{
	struct entropy_read_cookie * er;
	int i, rc = -1, done = -1;

	trk_start();
	er = entropy_read_init();
	trk_stop();
	out("\"init\":%d,\"fills\":[", er != NULL);
	for (i = 0; er != NULL && i < a->n; i++) {
		size_t n = a_u64(a->v[i]);
		struct guarded g = g_new(n, 0);
		trk_start();
		rc = entropy_read_fill(er, g.p, n);
		trk_stop();
		out("%s{\"rc\":%d,\"guards\":%d,", i ? "," : "", rc, g_ok(&g));
		out_hex("out", g.p, rc == 0 ? n : 0);
		out("\"n\":%zu}", n);
		g_free(&g);
		if (rc)
			break;
	}
	out("],");
	if (er != NULL) {
		trk_start();
		done = entropy_read_done(er);
		trk_stop();
	}
	out("\"done\":%d,", done);
	trk_report();
}

struct cmd cmds_crypto[] = {
	{ "scrypt", c_scrypt }, { "scryptz", c_scryptz }, { "sha", c_sha }, { "shabuf", c_shabuf }, { "sharep", c_sharep }, { "shazero", c_shazero }, { "verifyzero", c_verifyzero },
	{ "shas_init", c_shas_init }, { "shas_upd", c_shas_upd }, { "shas_fin", c_shas_fin },
	{ "hmacs_init", c_hmacs_init }, { "hmacs_upd", c_hmacs_upd }, { "hmacs_fin", c_hmacs_fin },
	{ "hmac", c_hmac }, { "hmacbuf", c_hmacbuf }, { "pbkdf2", c_pbkdf2 }, { "verify", c_verify },
	{ "aeskey", c_aeskey }, { "aeskeyfree", c_aeskeyfree }, { "aesblk", c_aesblk }, { "aesintr", c_aesintr },
	{ "ctrinit", c_ctrinit }, { "ctrfree", c_ctrfree }, { "ctr", c_ctr }, { "ctrskip", c_ctrskip },
	{ "ctrbuf", c_ctrbuf }, { "ctrpeek", c_ctrpeek }, { "ctrpoke", c_ctrpoke },
	{ "entropy", c_entropy }, { "osentropy", c_osentropy }, { "osentropys", c_osentropys },
	{ NULL, NULL }
};
