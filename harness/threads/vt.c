/* Runs the code under test in several threads, one of which runs at any time;
 * which one is a schedule's choice.  The code under test is compiled with the
 * calls a race detector would have it make, and this program supplies them:
 * each access to static data and each entry of a function is a point where
 * the schedule may have another thread continue.
 *
 * stdin, a line each:
 *   cpu HEX HEX HEX HEX HEX   cpuid: largest leaf; ecx, edx of leaf 1; ebx of leaf 7; not used
 *   fault SHANI SHASSE2 SMIXSSE2 SMIX   which cores compute something else
 *   op THREAD KIND ARGS...    an operation (thread -1: before the others start)
 *   go KINDS T:K,T:K,...      runs: thread T for K points (0: to its end), ...
 *                             KINDS: s static data, f functions
 *   clear                     forgets the operations
 * stdout, a line per go: JSON.
 */
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "crypto_scrypt.h"
#include "sha256.h"

#define MAXT 4
void __real_funlockfile(FILE *);
#define MAXSEG 64
#define MAXOP 64
struct op { int t; char kind[12]; struct { uint8_t * p; size_t n; } a[2]; uint64_t v[4]; uint8_t * out; size_t len; int rc, done; };
static struct op ops[MAXOP];
static int nops, nthreads;
static unsigned fault[4];
static unsigned cpu[5] = {7, ~0u, ~0u, ~0u, 0};

static int active, freerun;
static __thread int me = -1;
int __real_pthread_mutex_lock(pthread_mutex_t *);
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static volatile int baton = -1;
static int finished[MAXT];
static unsigned long count[MAXT][2];
static int kinds;
static struct { int t; unsigned long k; } seg[MAXSEG];
static int nseg, iseg;
static unsigned long left;
static long live;

/* The next segment of a thread that has not finished. */
static int
next(void)
{
	int t;

	while (iseg < nseg) {
		t = seg[iseg].t;
		left = seg[iseg].k;
		iseg++;
		if (t < nthreads && !finished[t])
			return (t);
	}
	left = 0;
	for (t = 0; t < nthreads; t++)
		if (!finished[t])
			return (t);
	return (-1);
}

static void
await(void)
{
	struct timespec ts;

	__real_pthread_mutex_lock(&mu);
	clock_gettime(CLOCK_REALTIME, &ts);
	ts.tv_sec += 5;
	while (baton != me && !freerun) {
		if (pthread_cond_timedwait(&cv, &mu, &ts) == ETIMEDOUT)
			freerun = 1;
	}
	pthread_mutex_unlock(&mu);
}

static void
give(int t)
{

	__real_pthread_mutex_lock(&mu);
	baton = t;
	pthread_cond_broadcast(&cv);
	pthread_mutex_unlock(&mu);
}

static void
yield(int kind)
{
	int e = errno, t;

	if (!active || me < 0 || freerun)
		return;
	count[me][kind]++;
	if ((kinds & (1 << kind)) && left > 0 && --left == 0 && (t = next()) != me && t >= 0) {
		give(t);
		await();
	}
	errno = e;
}

/* Locks: whoever finds one taken lets another thread continue. */
static void
other(void)
{
	int t, k;

	for (k = 1; k < nthreads; k++) {
		t = (me + k) % nthreads;
		if (!finished[t]) {
			left = 0;
			give(t);
			await();
			return;
		}
	}
}

int __real_pthread_mutex_lock(pthread_mutex_t *);
int
__wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
	int rc;

	if (!active || me < 0 || freerun)
		return (__real_pthread_mutex_lock(m));
	while ((rc = pthread_mutex_trylock(m)) == EBUSY && !freerun)
		other();
	return (rc == EBUSY ? __real_pthread_mutex_lock(m) : rc);
}
void
__wrap_flockfile(FILE * f)
{

	if (!active || me < 0 || freerun)
		return;
	while (ftrylockfile(f) && !freerun)
		other();
}
void
__wrap_funlockfile(FILE * f)
{

	if (active && me >= 0 && !freerun)
		__real_funlockfile(f);
}

extern char __data_start, _end;
static void
touch(const void * p, size_t n)
{

	if ((const char *)p + n > &__data_start && (const char *)p < &_end)
		yield(0);
}

/* What the compiler has the code call. */
void __tsan_init(void) {}
void __tsan_func_entry(void * p) { (void)p; yield(1); }
void __tsan_func_exit(void) {}
#define ACC(n)	void __tsan_read##n(void * p) { touch(p, n); } void __tsan_write##n(void * p) { touch(p, n); } \
	void __tsan_unaligned_read##n(void * p) { touch(p, n); } void __tsan_unaligned_write##n(void * p) { touch(p, n); } \
	void __tsan_volatile_read##n(void * p) { touch(p, n); } void __tsan_volatile_write##n(void * p) { touch(p, n); } \
	void __tsan_unaligned_volatile_read##n(void * p) { touch(p, n); } void __tsan_unaligned_volatile_write##n(void * p) { touch(p, n); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void * p, size_t n) { touch(p, n); }
void __tsan_write_range(void * p, size_t n) { touch(p, n); }
#define ATOM(b, T) \
	T __tsan_atomic##b##_load(const volatile T * p, int m) { (void)m; touch((const void *)p, sizeof(T)); return (__atomic_load_n(p, __ATOMIC_SEQ_CST)); } \
	void __tsan_atomic##b##_store(volatile T * p, T v, int m) { (void)m; touch((const void *)p, sizeof(T)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_exchange(volatile T * p, T v, int m) { (void)m; touch((const void *)p, sizeof(T)); return (__atomic_exchange_n(p, v, __ATOMIC_SEQ_CST)); } \
	T __tsan_atomic##b##_fetch_add(volatile T * p, T v, int m) { (void)m; touch((const void *)p, sizeof(T)); return (__atomic_fetch_add(p, v, __ATOMIC_SEQ_CST)); } \
	T __tsan_atomic##b##_fetch_sub(volatile T * p, T v, int m) { (void)m; touch((const void *)p, sizeof(T)); return (__atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST)); } \
	T __tsan_atomic##b##_fetch_or(volatile T * p, T v, int m) { (void)m; touch((const void *)p, sizeof(T)); return (__atomic_fetch_or(p, v, __ATOMIC_SEQ_CST)); } \
	T __tsan_atomic##b##_fetch_and(volatile T * p, T v, int m) { (void)m; touch((const void *)p, sizeof(T)); return (__atomic_fetch_and(p, v, __ATOMIC_SEQ_CST)); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T * p, T * c, T v, int m, int f) { (void)m; (void)f; touch((const void *)p, sizeof(T)); return (__atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T * p, T * c, T v, int m, int f) { (void)m; (void)f; touch((const void *)p, sizeof(T)); return (__atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; yield(1); }
void __tsan_atomic_signal_fence(int m) { (void)m; }

void * __real_memcpy(void *, const void *, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { if (n) { touch(d, n); touch(s, n); } return (__real_memcpy(d, s, n)); }
void * __real_memmove(void *, const void *, size_t);
void * __wrap_memmove(void * d, const void * s, size_t n) { if (n) { touch(d, n); touch(s, n); } return (__real_memmove(d, s, n)); }
void * __real_memset(void *, int, size_t);
void * __wrap_memset(void * d, int c, size_t n) { if (n) touch(d, n); return (__real_memset(d, c, n)); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void * d, const void * s, size_t n) { if (n) { touch(d, n); touch(s, n); } return (__real_memcmp(d, s, n)); }

/* Memory obtained and not released. */
void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void * __real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void * __wrap_malloc(size_t n) { void * p; yield(1); if ((p = __real_malloc(n)) != NULL && active) live++; return (p); }
void * __wrap_calloc(size_t n, size_t m) { void * p; yield(1); if ((p = __real_calloc(n, m)) != NULL && active) live++; return (p); }
void * __wrap_realloc(void * q, size_t n) { void * p; yield(1); if ((p = __real_realloc(q, n)) != NULL && q == NULL && active) live++; return (p); }
void __wrap_free(void * p) { yield(1); if (p != NULL && active) live--; __real_free(p); }
int __wrap_posix_memalign(void ** p, size_t a, size_t n) { int rc; yield(1); if ((rc = __real_posix_memalign(p, a, n)) == 0 && active) live++; return (rc); }
void * __wrap_mmap(void * a, size_t n, int pr, int f, int fd, off_t o) { void * p; yield(1); if ((p = __real_mmap(a, n, pr, f, fd, o)) != MAP_FAILED && active) live++; return (p); }
int __wrap_munmap(void * p, size_t n) { int rc; yield(1); if ((rc = __real_munmap(p, n)) == 0 && active) live--; return (rc); }

/* Machines, and cores that compute something else. */
int
vh_cpuid_hook(unsigned int leaf, unsigned int sub, unsigned int * r)
{

	(void)sub;
	r[0] = r[1] = r[2] = r[3] = 0;
	if (leaf == 0)
		r[0] = cpu[0];
	else if (leaf == 1) {
		r[2] = cpu[1];
		r[3] = cpu[2];
	} else if (leaf == 7)
		r[1] = cpu[3];
	return (1);
}
void __real_SHA256_Transform_shani(uint32_t *, const uint8_t *);
void __wrap_SHA256_Transform_shani(uint32_t * s, const uint8_t * b) { __real_SHA256_Transform_shani(s, b); if (fault[0]) s[3] ^= 4; }
void __real_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *);
void __wrap_SHA256_Transform_sse2(uint32_t * s, const uint8_t * b, uint32_t * W, uint32_t * S) { __real_SHA256_Transform_sse2(s, b, W, S); if (fault[1]) s[5] ^= 64; }
void __real_crypto_scrypt_smix_sse2(uint8_t *, size_t, uint64_t, void *, void *);
void __wrap_crypto_scrypt_smix_sse2(uint8_t * B, size_t r, uint64_t N, void * V, void * XY) { __real_crypto_scrypt_smix_sse2(B, r, N, V, XY); if (fault[2]) B[0] ^= 1; }
void __real_crypto_scrypt_smix(uint8_t *, size_t, uint64_t, void *, void *);
void __wrap_crypto_scrypt_smix(uint8_t * B, size_t r, uint64_t N, void * V, void * XY) { __real_crypto_scrypt_smix(B, r, N, V, XY); if (fault[3]) B[7] ^= 1; }

static void
perform(struct op * o)
{
	SHA256_CTX c;
	HMAC_SHA256_CTX h;
	size_t k;

	if (!strcmp(o->kind, "scrypt"))
		o->rc = crypto_scrypt(o->a[0].p, o->a[0].n, o->a[1].p, o->a[1].n, o->v[0], (uint32_t)o->v[1], (uint32_t)o->v[2], o->out, o->len);
	else if (!strcmp(o->kind, "sha"))
		SHA256_Buf(o->a[1].p, o->a[1].n, o->out);
	else if (!strcmp(o->kind, "shaparts")) {
		SHA256_Init(&c);
		for (k = 0; k < o->a[1].n; k += 37)
			SHA256_Update(&c, &o->a[1].p[k], o->a[1].n - k < 37 ? o->a[1].n - k : 37);
		SHA256_Final(o->out, &c);
	} else if (!strcmp(o->kind, "hmac"))
		HMAC_SHA256_Buf(o->a[0].p, o->a[0].n, o->a[1].p, o->a[1].n, o->out);
	else if (!strcmp(o->kind, "hmacparts")) {
		HMAC_SHA256_Init(&h, o->a[0].p, o->a[0].n);
		for (k = 0; k < o->a[1].n; k += 37)
			HMAC_SHA256_Update(&h, &o->a[1].p[k], o->a[1].n - k < 37 ? o->a[1].n - k : 37);
		HMAC_SHA256_Final(o->out, &h);
	} else if (!strcmp(o->kind, "pbkdf2"))
		PBKDF2_SHA256(o->a[0].p, o->a[0].n, o->a[1].p, o->a[1].n, o->v[0], o->out, o->len);
	else
		abort();
	o->done = 1;
}

static void *
thread(void * v)
{
	int i;

	me = (int)(intptr_t)v;
	await();
	for (i = 0; i < nops; i++)
		if (ops[i].t == me)
			perform(&ops[i]);
	finished[me] = 1;
	left = 0;
	give(next());
	return (NULL);
}

static void
run(int fd)
{
	pthread_t th[MAXT];
	FILE * f = fdopen(fd, "w");
	size_t k;
	int i;

	alarm(60);
	for (i = 0; i < nops; i++)
		if (ops[i].t < 0)
			perform(&ops[i]);
	for (i = 0; i < nthreads; i++)
		pthread_create(&th[i], NULL, thread, (void *)(intptr_t)i);
	active = 1;
	give(next());
	for (i = 0; i < nthreads; i++)
		pthread_join(th[i], NULL);
	active = 0;
	fprintf(f, "{\"live\":%ld,\"free\":%d,\"points\":[", live, freerun);
	for (i = 0; i < nthreads; i++)
		fprintf(f, "%s[%lu,%lu]", i ? "," : "", count[i][0], count[i][1]);
	fprintf(f, "],\"res\":[");
	for (i = 0; i < nops; i++) {
		fprintf(f, "%s{\"rc\":%d,\"out\":\"", i ? "," : "", ops[i].rc);
		for (k = 0; k < ops[i].len && ops[i].rc == 0; k++)
			fprintf(f, "%02x", ops[i].out[k]);
		fprintf(f, "\"}");
	}
	fprintf(f, "]}");
	fclose(f);
	_exit(0);
}

static void
unhex(struct op * o, int j, const char * s)
{
	size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0, k;
	unsigned x;

	o->a[j].p = malloc(n + 1);
	o->a[j].n = n;
	for (k = 0; k < n; k++) {
		sscanf(&s[2 * k], "%2x", &x);
		o->a[j].p[k] = (uint8_t)x;
	}
}

int
main(void)
{
	static char line[1 << 20];
	char * w[16], * s;
	int n, p[2], st, i;
	pid_t pid;

	while (fgets(line, sizeof(line), stdin) != NULL) {
		for (n = 0, s = strtok(line, " \n"); s != NULL && n < 16; s = strtok(NULL, " \n"))
			w[n++] = s;
		if (n == 0)
			continue;
		if (!strcmp(w[0], "cpu")) {
			for (i = 0; i < 5; i++)
				cpu[i] = (unsigned)strtoul(w[i + 1], NULL, 16);
		} else if (!strcmp(w[0], "fault")) {
			for (i = 0; i < 4; i++)
				fault[i] = (unsigned)atoi(w[i + 1]);
		} else if (!strcmp(w[0], "clear")) {
			nops = nthreads = 0;
		} else if (!strcmp(w[0], "op")) {
			struct op * o = &ops[nops++];

			memset(o, 0, sizeof(*o));
			o->t = atoi(w[1]);
			if (o->t >= nthreads)
				nthreads = o->t + 1;
			strcpy(o->kind, w[2]);
			unhex(o, 0, w[3]);
			unhex(o, 1, w[4]);
			for (i = 0; i < 3; i++)
				o->v[i] = strtoull(w[5 + i], NULL, 10);
			o->len = strtoull(w[8], NULL, 10);
			o->out = malloc(o->len + 1);
		} else if (!strcmp(w[0], "go")) {
			kinds = (strchr(w[1], 's') ? 1 : 0) | (strchr(w[1], 'f') ? 2 : 0);
			nseg = iseg = 0;
			for (s = n > 2 ? w[2] : NULL; s != NULL && *s && nseg < MAXSEG; s = strchr(s, ',') ? strchr(s, ',') + 1 : NULL) {
				seg[nseg].t = atoi(s);
				seg[nseg++].k = strtoul(strchr(s, ':') + 1, NULL, 10);
			}
			fflush(stdout);
			if (pipe(p))
				return (1);
			if ((pid = fork()) == 0) {
				close(p[0]);
				run(p[1]);
			}
			close(p[1]);
			for (i = 0; (n = (int)read(p[0], line + i, sizeof(line) - 1 - (size_t)i)) > 0; i += n)
				continue;
			close(p[0]);
			line[i] = '\0';
			waitpid(pid, &st, 0);
			if (st == 0 && i > 0)
				printf("%s\n", line);
			else
				printf("{\"status\":%d}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
		}
	}
	return (0);
}
