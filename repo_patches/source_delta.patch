From e4c190af858334cadf932983c433bfbd8f0cbf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/13] fix: report errors detected while closing or flushing
 the output

The last part of the output is normally still in the stdio buffer when
scryptenc_file() or scryptdec_file_copy() returns, so a write error (e.g.
a full disk) might only be seen by fclose() or fflush().  Exiting with
status 0 in that case tells the user that a truncated file is complete.
---
 main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..19b08b4 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,14 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if (outfile != stdout) {
+		if (fclose(outfile)) {
+			warnp("fclose");
+			if (rc == SCRYPT_OK)
+				rc = SCRYPT_EWRFILE;
+		}
+	} else if ((rc == SCRYPT_OK) && fflush(outfile))
+		rc = SCRYPT_EWRFILE;
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0


From efc1992a3b19d3ceb549d0d24849551542ed3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 02/13] fix: ignore explicit parameters when decrypting

scryptdec_file_prep() requires the explicit parameters to be zero, so
"scrypt dec --logN x -r y -p z" died with a failed assertion.  The man page
says that decryption always uses the values from the header.
---
 main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/main.c b/main.c
index 19b08b4..fb42c04 100644
--- a/main.c
+++ b/main.c
@@ -352,6 +352,13 @@ main(int argc, char * argv[])
 		goto err0;
 	}
 
+	/* Decryption always uses the parameters from the header. */
+	if (dec) {
+		params.logN = 0;
+		params.r = 0;
+		params.p = 0;
+	}
+
 	/* We can't have a maxmemfrac of 0. */
 	if (params.maxmemfrac == 0.0) {
 		warn0("-m must be greater than 0");
-- 
2.43.0


From 4393668b46ddf6a07fb621433831c84c97747a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/13] fix: reject NaN in PARSENUM for floating-point values

A NaN is not between min and max, but every comparison with it is false so
it was accepted: "-m nan" died with a failed assertion, and "-t nan"
disabled the time limit.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 77649a1dd2052eeec09f8ed26e7e7618bc1f8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 04/13] fix: reject negative values in PARSENUM for unsigned
 integers

strtoumax() negates a number which starts with '-' modulo 2^64 without
reporting an error, so "-r -18446744073709551614" was accepted as "-r 2".
---
 libcperciva/util/parsenum.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..d5e8106 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -181,14 +182,21 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
     uintmax_t typemax, int base, int trailing)
 {
 	char * eptr;
+	const char * nptr;
 	uintmax_t val;
 
 	/* Sanity check. */
 	assert(s != NULL);
 
+	/* Find the first non-whitespace character. */
+	for (nptr = s; isspace((unsigned char)(*nptr)); nptr++)
+		continue;
+
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
+	else if ((*nptr == '-') && (val != 0))
+		errno = ERANGE;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
 	return (val);
-- 
2.43.0


From 98625ee80629d913b8ae0c36d9c94a878d560e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 05/13] fix: avoid integer overflow when displaying scrypt
 parameters

128 * r was computed modulo 2^32, and both it and the number of salsa20/8
cores could overflow 64 bits, so "scrypt info" or "scrypt dec -v" could
say that a file requiring 8 GB needs "at least 0 B" of memory.
---
 lib/scryptenc/scryptenc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..cfa06ad 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,8 +72,10 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	uint64_t mem_minimum = ((uint64_t)(r) * 128 <= UINT64_MAX / N) ?
+	    (uint64_t)(r) * 128 * N : UINT64_MAX;
+	double expected_seconds = opps > 0 ?
+	    4.0 * (double)N * (double)r * (double)p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
 	char * human_mem_minimum = humansize(mem_minimum);
 
-- 
2.43.0


From a9bd60ff08b23c05b1dcfc30c507518edb354ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 06/13] fix: do not print invalid parameters in
 scryptdec_file_printparams

If the header had log2(N) > 63, the shift in display_params() was undefined
behaviour, and "scrypt info" printed a value of N unrelated to the header.
---
 lib/scryptenc/scryptenc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index cfa06ad..bbb2cb7 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -336,6 +336,10 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Check that the parameters are valid, ignoring resource limits. */
+	if ((rc = checkparams(0, 0, 0, logN, r, p, 0, 1)) != 0)
+		goto err0;
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From 063e836c5226ead85ec375707d0514cfa401266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/13] fix: free the expanded AES key if writing the output
 fails

The key was leaked, without being zeroed, by scryptenc_file() and
scryptdec_file_copy().
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index bbb2cb7..ac5c5ab 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -633,6 +633,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -851,6 +852,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From 00f9870548e5e35e8c1b18eaec12166a6c7e01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 08/13] fix: avoid integer overflow in crypto_scrypt with a
 large p

i * 128 was computed modulo 2^32, so for p > 2^25 (which is permitted when
r < 32) some of the blocks B_i were mixed repeatedly and others not at all,
and the result was not scrypt(P, S, N, r, p, dkLen).
---
 lib-platform/crypto/crypto_scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..3beabe8 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -63,7 +63,7 @@ crypto_scrypt_internal(const uint8_t * passwd, size_t passwdlen,
 	uint32_t * V;
 	uint32_t * XY;
 	size_t r = _r, p = _p;
-	uint32_t i;
+	size_t i;
 
 	/* Sanity-check parameters. */
 	if ((r == 0) || (p == 0)) {
-- 
2.43.0


From b86d34ad873482e51d0b55e675c3cb60558c86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 09/13] fix: report failure to allocate memory in the scrypt
 self-test

crypto_scrypt() tests its SMix routines the first time it is called; if
memory could not be allocated for those tests, it considered the code to be
broken: it disabled the SSE2 code for the rest of the process, or called
abort().  Return an error instead, and try again the next time.
---
 lib-platform/crypto/crypto_scrypt.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 3beabe8..88845fe 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -191,6 +191,7 @@ static struct scrypt_test {
 	}
 };
 
+/* Return 0 if ${smix} works; 1 if it is broken; or -1 if we can't tell. */
 static int
 testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 {
@@ -204,10 +205,10 @@ testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 		return (-1);
 
 	/* Does it match? */
-	return (memcmp(testcase.result, hbuf, TESTLEN));
+	return (memcmp(testcase.result, hbuf, TESTLEN) != 0);
 }
 
-static void
+static int
 selectsmix(void)
 {
 
@@ -215,18 +216,24 @@ selectsmix(void)
 	/* If we're running on an SSE2-capable CPU, try that code. */
 	if (cpusupport_x86_sse2()) {
 		/* If SSE2ized smix works, use it. */
-		if (!testsmix(crypto_scrypt_smix_sse2)) {
+		switch (testsmix(crypto_scrypt_smix_sse2)) {
+		case 0:
 			smix_func = crypto_scrypt_smix_sse2;
-			return;
+			return (0);
+		case -1:
+			return (-1);
 		}
 		warn0("Disabling broken SSE2 scrypt support - please report bug!");
 	}
 #endif
 
 	/* If generic smix works, use it. */
-	if (!testsmix(crypto_scrypt_smix)) {
+	switch (testsmix(crypto_scrypt_smix)) {
+	case 0:
 		smix_func = crypto_scrypt_smix;
-		return;
+		return (0);
+	case -1:
+		return (-1);
 	}
 	warn0("Generic scrypt code is broken - please report bug!");
 
@@ -249,8 +256,8 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
     uint8_t * buf, size_t buflen)
 {
 
-	if (smix_func == NULL)
-		selectsmix();
+	if ((smix_func == NULL) && selectsmix())
+		return (-1);
 
 	return (crypto_scrypt_internal(passwd, passwdlen, salt, saltlen, N,
 	    _r, _p, buf, buflen, smix_func));
-- 
2.43.0


From 41d707e6066fabef315799fd62a3a9d7fd664975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 10/13] fix: reject values out of range of a float variable in
 PARSENUM

---
 libcperciva/util/parsenum.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d5e8106..09cfc86 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -4,6 +4,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <errno.h>
+#include <float.h>
 #include <inttypes.h>
 #include <math.h>
 #include <stdio.h>
@@ -91,7 +92,8 @@ _Pragma("clang diagnostic pop")
 			(((base) == 0) ?				\
 				((*(x)) = parsenum_float((s),		\
 				    (double)-INFINITY,			\
-				    (double)INFINITY, (trailing))) :	\
+				    (double)INFINITY, (trailing),	\
+				    sizeof(*(x)))) :			\
 				(ASSERT_FAIL(_define_name " applied to"	\
 				    " float with base != 0"), 1)) :	\
 		(((*(x)) = -1) > 0) ?					\
@@ -110,7 +112,7 @@ _Pragma("clang diagnostic pop")
 			(((base) == 0) ?				\
 				((*(x)) = parsenum_float((s),		\
 				    (double)(min), (double)(max),	\
-				    (trailing))) :			\
+				    (trailing), sizeof(*(x)))) :	\
 				(ASSERT_FAIL(_define_name " applied to"	\
 				    " float with base != 0"), 1)) :	\
 		(((*(x)) = -1) <= 0) ?					\
@@ -141,7 +143,8 @@ _Pragma("clang diagnostic pop")
 
 /* Functions for performing the parsing and parameter checking. */
 static inline double
-parsenum_float(const char * s, double min, double max, int trailing)
+parsenum_float(const char * s, double min, double max, int trailing,
+    size_t size)
 {
 	char * eptr;
 	double val;
@@ -154,6 +157,9 @@ parsenum_float(const char * s, double min, double max, int trailing)
 		errno = EINVAL;
 	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
+	else if ((size == sizeof(float)) && isfinite(val) &&
+	    ((val > (double)FLT_MAX) || (val < -(double)FLT_MAX)))
+		errno = ERANGE;
 	return (val);
 }
 
-- 
2.43.0


From 829363631a3e2270f99ed0ef1a7fc0286344d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 11/13] fix: report errors reading past the first line of a
 passphrase file

---
 libcperciva/util/readpass_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..dcdc7eb 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -45,6 +45,10 @@ readpass_file(char ** passwd, const char * filename)
 		warn0("line too long, or more than 1 line in %s", filename);
 		goto err2;
 	}
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
 
 	/* Close the file. */
 	if (fclose(f)) {
-- 
2.43.0


From d6df9c6889a43086edd9a95e1d8a7754f03cd10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:19 +0000
Subject: [PATCH 12/13] fix: exit rather than abort if getopt cannot allocate
 memory

---
 libcperciva/util/getopt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libcperciva/util/getopt.c b/libcperciva/util/getopt.c
index f0bb09d..e43bd78 100644
--- a/libcperciva/util/getopt.c
+++ b/libcperciva/util/getopt.c
@@ -351,8 +351,10 @@ getopt_setrange(size_t maxopts)
 
 	/* Allocate space for (potential) options. */
 	opts = malloc(maxopts * sizeof(struct opt));
-	if ((maxopts > 0) && (opts == NULL))
-		DIE("Failed to allocate memory in getopt");
+	if ((maxopts > 0) && (opts == NULL)) {
+		PRINTMSG("Failed to allocate memory in getopt");
+		exit(1);
+	}
 
 	/* Initialize options. */
 	for (i = 0; i < maxopts; i++)
-- 
2.43.0


From ff3bf8ce9bca9a6cfc68f4f8d1fa3871d159754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:19 +0000
Subject: [PATCH 13/13] fix: report failure to write the version

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index fb42c04..429f9d7 100644
--- a/main.c
+++ b/main.c
@@ -253,6 +253,10 @@ main(int argc, char * argv[])
 		info = 1;
 	} else if (strcmp(argv[1], "--version") == 0) {
 		fprintf(stdout, "scrypt %s\n", PACKAGE_VERSION);
+		if (fflush(stdout)) {
+			warnp("Error writing version");
+			exit(1);
+		}
 		exit(0);
 	} else {
 		warn0("First argument must be 'enc', 'dec', or 'info'.");
-- 
2.43.0

