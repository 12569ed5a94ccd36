#!/usr/bin/env python3
"""Generates properties.jsonl (kept in step with MANIFEST.json by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, obs):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

prop("S01", "Key derivation computes exactly the RFC 7914 scrypt function",
 "For every passphrase, salt, cost parameters N, r, p and output length in its domain, the key-derivation function returns exactly the bytes that RFC 7914 defines. The result does not depend on which implementation (portable or CPU-accelerated) the machine selects, on buffer alignment, or on what was computed before.",
 ["inputs", "configurations"], "all passwords and salts (any length including empty), all (N, r, p, length) in the domain, all implementation selections",
 "The tests compare four published vectors with p up to 16 on the one implementation this machine selects; lengths, odd r, N=2, output lengths that are not multiples of 32 and the unselected implementations are never run.",
 ["lib-platform/crypto/crypto_scrypt.c", "lib/crypto/crypto_scrypt_smix.c", "lib/crypto/crypto_scrypt_smix_sse2.c", "libcperciva/alg/sha256.c"],
 [("B, V, XY", "working arrays of SMix", "lib-platform/crypto/crypto_scrypt.c"), ("smix_func", "selected implementation", "lib-platform/crypto/crypto_scrypt.c")],
 [("PBKDF2 / SMix / PBKDF2 pipeline", "lib-platform/crypto/crypto_scrypt.c:_crypto_scrypt"), ("blockmix_salsa8, integerify", "lib/crypto/crypto_scrypt_smix*.c")],
 ["crypto_scrypt() return value and output buffer", "libscrypt-kdf scrypt_kdf()"])

prop("S02", "Key derivation rejects everything outside its domain, and fails cleanly",
 "For arguments outside the domain (N not a power of two greater than 1, r or p zero, r*p at least 2^30, an output longer than 32*(2^32-1) bytes, or array sizes the address space cannot hold) the key-derivation function reports failure before doing any work. If any memory allocation fails it reports failure. In every case, success or failure, it releases all memory it obtained, writes nothing outside the output buffer, and leaves a later call unaffected.",
 ["inputs", "fault_sequences"], "all 64/32-bit argument combinations; every single allocation failure at every position",
 "No test passes an invalid argument or makes an allocation fail.",
 ["lib-platform/crypto/crypto_scrypt.c"], [("B0, V0, XY0", "allocations", "lib-platform/crypto/crypto_scrypt.c")],
 [("sanity-check block and goto cleanup chain", "lib-platform/crypto/crypto_scrypt.c:_crypto_scrypt")],
 ["crypto_scrypt() return value", "allocator and mmap calls"])

prop("S03", "Encrypted data follows the documented container format exactly",
 "Every successful encryption, through the command, the stream interface or the buffer interface, produces exactly the bytes of the documented format: magic, version 0, log2(N), r and p as used, the salt, the header checksum, the header signature, the data XORed with the AES-256-CTR keystream (nonce 0) from byte 0, and the signature over everything before it, with both keys derived by scrypt from the passphrase and that salt. The output is 128 bytes longer than the input, and any conforming implementation can decrypt it.",
 ["inputs", "configurations"], "all plaintexts, passphrases, parameters, entry points and ways of delivering the input",
 "The tests encrypt one small file and only decrypt it with the same program (or a system scrypt, absent here), so a format change made consistently on both sides, or one that needs a long input, is invisible.",
 ["lib/scryptenc/scryptenc.c", "FORMAT", "libcperciva/crypto/crypto_aesctr.c"], [("header", "96-byte header", "lib/scryptenc/scryptenc.c:scryptenc_setup")],
 [("scryptenc_setup, scryptenc_buf, scryptenc_file", "lib/scryptenc/scryptenc.c")],
 ["output bytes of scrypt enc / scryptenc_file / scryptenc_buf"])

prop("S04", "Decrypting a valid container returns exactly the original data",
 "For every plaintext of any length (including empty and beyond the internal block size) and every passphrase, decrypting a container in the documented format with the same passphrase succeeds and yields exactly the original bytes and length, whichever combination of command, stream and buffer interfaces encrypts and decrypts, and however the input arrives (any read sizes, pipes or files). Containers made by other implementations with any valid salt and parameters within limits decrypt as well.",
 ["inputs", "schedules"], "all lengths and contents, all chunkings of the input stream, all pairs of entry points, all valid headers",
 "One ~100-byte reference file and one round trip of a small file are tested; block boundaries, short reads and the buffer interface are not.",
 ["lib/scryptenc/scryptenc.c", "main.c"], [("buf/buflen", "hold-back buffer of the streaming decryptor", "lib/scryptenc/scryptenc.c:scryptdec_file_copy")],
 [("scryptdec_file_prep, scryptdec_file_copy, scryptdec_buf", "lib/scryptenc/scryptenc.c")],
 ["output bytes and exit status / return code"])

prop("S05", "No altered, truncated or extended container decrypts successfully",
 "If a container is changed in any way after encryption (any bits flipped in header, checksum, signature, data or trailer; any bytes removed, inserted, duplicated, reordered or appended), decrypting it with the right passphrase reports an error, through every interface. A wrong passphrase is likewise always reported as an error. Success is never reported for input that the passphrase holder did not produce.",
 ["inputs", "fault_sequences"], "all modifications of all containers, all wrong passphrases, all interfaces",
 "The tests decrypt only an intact file, a wrong passphrase and one non-scrypt file; no modified container is ever tried.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_verify_bytes.c"], [("hctx", "running HMAC over header and ciphertext", "lib/scryptenc/scryptenc.c")],
 [("header checksum, header HMAC, final HMAC comparisons", "lib/scryptenc/scryptenc.c:scryptdec_setup, scryptdec_file_copy, scryptdec_buf")],
 ["return code / exit status"])

prop("S06", "Decryption failures get the right verdict, and no output before authentication",
 "For every input, decryption reports the documented reason in a fixed order of precedence: not an scrypt container (bad or short magic), unrecognized version, short or corrupt header, invalid parameters, resource limit exceeded, wrong passphrase, and finally truncated or corrupt body (the buffer interface may refuse input shorter than any container at once). Until the header signature has been verified with the passphrase, the output file is neither created nor truncated and nothing is written to the output; the expensive key derivation is never started for input that fails an earlier test.",
 ["inputs"], "all byte strings as input files, all passphrases, both interfaces and the command",
 "Tests check one wrong passphrase and one non-scrypt file; version, short header, checksum, parameter range and combinations of several faults are not tested.",
 ["lib/scryptenc/scryptenc.c", "main.c", "lib/scryptenc/scryptenc_print_error.c"], [("rc", "verdict", "lib/scryptenc/scryptenc.c")],
 [("scryptdec_file_load_header, scryptdec_setup, checkparams; output opened only after scryptdec_file_prep", "lib/scryptenc/scryptenc.c, main.c")],
 ["return code, message on stderr, existence/contents of the output file, calls of the key derivation"])

prop("S07", "Streaming decryption only ever emits a prefix of the true plaintext",
 "At every moment, and for every way the input arrives, what streaming decryption has written is a prefix of the decryption of the data read so far that leaves out the last 32 bytes read, so signature bytes are never emitted as data. When success is reported the output is exactly the whole plaintext.",
 ["inputs", "schedules"], "all input lengths, all splits of the input into reads, truncation at every byte",
 "The tests read one small regular file, where everything arrives in a single read.",
 ["lib/scryptenc/scryptenc.c"], [("buf, buflen", "bytes read and not yet emitted; at most 32 remain between reads", "lib/scryptenc/scryptenc.c:scryptdec_file_copy")],
 [("hold back the final 32 bytes, memmove to the front", "lib/scryptenc/scryptenc.c:scryptdec_file_copy")],
 ["sequence of reads from the input and writes to the output"])

prop("S08", "I/O errors are reported, and success means all output was delivered",
 "If reading the input or writing, flushing or closing the output fails at any point, encryption and decryption report a read or write error (never success, and never a misleading verdict about the data), and the command exits nonzero. Success is reported only if every byte of the output was accepted by the operating system, and a failed encryption never leaves behind a complete valid container (unless only closing the output failed).",
 ["fault_sequences", "crash_points"], "a read or write error at every byte position, persistent or transient, in every phase, on files, pipes and standard streams",
 "No test makes a read or write fail.",
 ["lib/scryptenc/scryptenc.c", "main.c"], [("rc", "first error", "lib/scryptenc/scryptenc.c"), ("outfile", "buffered output stream", "main.c")],
 [("ferror checks after the read loops, fwrite return values, fclose/fflush result", "lib/scryptenc/scryptenc.c, main.c")],
 ["return code, exit status, stderr, bytes written"])

prop("S09", "Decryption enforces the memory and CPU limits exactly",
 "Decryption proceeds only if 128*N*r does not exceed the memory budget and 4*N*r*p does not exceed the CPU budget (estimated speed times the time limit); otherwise it reports 'too much memory', 'too much CPU time' or both, accordingly, without deriving a key. Invalid parameters (log2(N) outside 1..63, r or p zero, r*p at least 2^30) are always refused, and forcing bypasses the limits but not this validity check. When encrypting with explicit parameters the same excess only produces the corresponding warnings (none if forced) and encryption proceeds with those parameters.",
 ["inputs", "configurations"], "all header parameters (63 x 2^32 x 2^32), all memory/CPU budgets, forced or not",
 "One file with one parameter set is tested against two time limits; the memory limit, the combined verdict and the overflow corners are never exercised.",
 ["lib/scryptenc/scryptenc.c"], [("memlimit, opslimit", "budgets", "lib/scryptenc/scryptenc.c:checkparams")],
 [("checkparams", "lib/scryptenc/scryptenc.c"), ("warnings in scryptenc_setup", "lib/scryptenc/scryptenc.c")],
 ["return code, warnings, calls of the key derivation and their arguments"])

prop("S10", "Encryption picks the strongest parameters within the limits",
 "Without explicit parameters, encryption uses r = 8, the largest power of two N that satisfies both 128*N*r <= memory budget and 4*N*r <= CPU budget (never treating the CPU budget as less than 2^15 core operations), and, when memory is the binding limit, the largest p with 4*N*r*p within the CPU budget and r*p < 2^30, else p = 1. The parameters are always valid for decryption and are the ones stored in the header, used for the key and reported to the caller.",
 ["inputs", "configurations"], "all memory budgets (>= 1 MiB), CPU speeds and time limits, including zero, infinite and boundary values",
 "The chosen parameters depend on the machine's speed and memory; tests only check that decryption works.",
 ["lib/scryptenc/scryptenc.c"], [("memlimit, opslimit, maxN, maxrp", "budgets and real-valued bounds", "lib/scryptenc/scryptenc.c:pickparams")],
 [("pickparams", "lib/scryptenc/scryptenc.c")],
 ["header bytes 7..15, key-derivation arguments, returned params"])

prop("S11", "The memory budget honours every limit and has a 1 MiB floor",
 "The memory budget is the least of the system's and the process's memory limits (physical memory, address-space and resident-set limits, where available) scaled by the requested fraction, and of the requested maximum if one is given, but never less than 1 MiB. A failed query of a limit is reported as an error and is never silently taken as 'unlimited' (only a limit the system says it does not set or support is unlimited), and the computation never overflows.",
 ["configurations", "inputs", "fault_sequences"], "all combinations of limit values, unlimited settings, maxmem and fraction values, and query failures",
 "The tests run with one machine's limits and default options; the limits never bind and no query fails.",
 ["lib-platform/util/memlimit.c"], [("memlimit_min, memavail", "running minimum", "lib-platform/util/memlimit.c:memtouse")],
 [("memtouse", "lib-platform/util/memlimit.c")], ["memtouse() result; parameters chosen with it"])

prop("S12", "The CPU-speed estimate is a sound measurement under any clock behaviour",
 "The estimated speed is the number of core operations performed divided by the elapsed time measured around exactly that work, starting just after a clock tick and lasting longer than the clock's resolution, on the monotonic clock or, where the system does not support it, the real-time clock. If a clock query or the measured work fails, an error is reported rather than a made-up speed, and the measurement ends as soon as the clock has advanced enough.",
 ["configurations", "fault_sequences", "schedules"], "all clock resolutions and readings, failures of each clock call, loads",
 "Real clocks on the test machine only; no clock error or coarse resolution occurs.",
 ["lib/scryptenc/scryptenc_cpuperf.c", "libcperciva/util/monoclock.c"], [("st, et/diffd, resd, i", "start time, elapsed, resolution, operations", "lib/scryptenc/scryptenc_cpuperf.c")],
 [("scryptenc_cpuperf, monoclock_get_cputime, monoclock_getres", "lib/scryptenc/scryptenc_cpuperf.c, libcperciva/util/monoclock.c")], ["scryptenc_cpuperf() result, clock calls, work calls"])

prop("S13", "Salts are fresh, full-strength random bytes, or encryption fails",
 "Every encryption uses 32 salt bytes from a generator that follows SP 800-90A HMAC_DRBG: seeded from operating-system entropy, reseeded from it at the prescribed interval, with its state advanced after every request so no output repeats or can be predicted from a previous one, for requests of any size. If operating-system entropy cannot be obtained completely, the request fails and nothing is encrypted; short reads are continued, never padded.",
 ["histories", "fault_sequences"], "all sequences of requests and sizes, all entropy-source behaviours (short reads, interruptions, errors, end of file) at every position",
 "One test checks that two encryptions of the same file differ; reseeding needs hundreds of requests and no entropy failure is ever produced.",
 ["libcperciva/crypto/crypto_entropy.c", "libcperciva/util/entropy.c", "libcperciva/crypto/crypto_entropy_rdrand.c", "lib/scryptenc/scryptenc.c"],
 [("drbg.Key, drbg.V, drbg.reseed_counter", "HMAC_DRBG state", "libcperciva/crypto/crypto_entropy.c"), ("instantiated", "seeded or not", "libcperciva/crypto/crypto_entropy.c")],
 [("crypto_entropy_read, reseed, generate, update", "libcperciva/crypto/crypto_entropy.c"), ("entropy_read_fill", "libcperciva/util/entropy.c")], ["bytes returned by crypto_entropy_read() and reads of the entropy source"])

prop("S14", "The passphrase used is exactly the one supplied by the chosen method",
 "With each passphrase method (terminal-or-stdin, stdin once, terminal once, environment variable, file) the passphrase used is exactly the text supplied: a line of up to 2047 characters of the input, or the only line of the file, without its line terminator (LF or CRLF), or the whole value of the variable. A missing or unreadable source, end of input, or a file with more than one line or 2048 or more characters is an error. Encryption asks twice and starts over until both entries agree except for the once-only, file and environment methods; decryption asks once.",
 ["inputs", "configurations", "fault_sequences"], "all methods, all passphrase contents and lengths, all line endings, missing terminals, read errors at any point, any number of mismatches",
 "Tests use one short passphrase through stdin, env and file; no line-ending, length limit, confirmation or error case beyond a missing variable/file is run.",
 ["lib/util/passphrase_entry.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c"], [("passbuf, confpassbuf", "entered lines", "libcperciva/util/readpass.c")],
 [("passphrase_entry_parse, passphrase_entry_readpass, readpass, readpass_file", "lib/util/passphrase_entry.c, libcperciva/util/readpass*.c")], ["passphrase returned to the caller; prompts"])

prop("S15", "Terminal echo and signals are handled safely around passphrase entry",
 "While a passphrase is typed at a terminal echo is off, and whatever happens (success, mismatch and retry, read error, end of file, any number of termination or stop signals at any time), the terminal settings and signal dispositions found at the start are restored before control returns or a signal takes effect. A signal received during entry is delivered to the process once the terminal is restored, and not lost; signals that were not received are not delivered.",
 ["schedules", "histories", "fault_sequences"], "all signals in the handled set, every arrival point in entry and confirmation, all prior dispositions, terminals and non-terminals",
 "The test suite never uses a terminal.",
 ["libcperciva/util/readpass.c"], [("gotsig[]", "deferred signals", "libcperciva/util/readpass.c"), ("term_old", "terminal settings to restore", "libcperciva/util/readpass.c")],
 [("handle, resetsigs, tcsetattr around fgets", "libcperciva/util/readpass.c")], ["terminal attributes, signal actions, process status, return value"])

prop("S16", "The command line is interpreted by the documented grammar",
 "For every argument vector, the command either performs the one operation the documentation assigns to it, with exactly the options given (short options may be grouped and take attached or separate arguments, long options take '=' or separate arguments, '--' ends the options, '-' means standard input), or prints a diagnostic/usage message and exits nonzero having touched no file. Conflicting or incomplete options (two passphrase methods, explicit parameters not all given, passphrase and data both from stdin, wrong number of file names, missing or unexpected arguments, unknown options) are always refused, and decryption always uses the header's parameters.",
 ["inputs"], "all argument vectors",
 "Tests use a handful of well-formed command lines and no malformed one.",
 ["main.c", "libcperciva/util/getopt.c"], [("optind, packedopts, getopt state", "parser position", "libcperciva/util/getopt.c"), ("params, passphrase_entry, ...", "selected operation", "main.c")],
 [("main option loop and checks", "main.c"), ("getopt()", "libcperciva/util/getopt.c")], ["exit status, stderr, files touched, parameters used"])

prop("S17", "Numeric options mean exactly the number written, or are refused",
 "Each numeric option is accepted only if its whole text is a number in the documented range (log2(N) 10..40, r 1..32, p 1..2048, memory fraction above 0 up to 0.5, time at least 0, memory size digits with an optional space, SI prefix and B that fits in 64 bits) and then has exactly that value. Everything else (out of range, overflowing, negative, not a number, trailing or missing characters) is refused; nothing wraps around, saturates or is partially parsed. The same holds for the general number and size parsing routines over all types, ranges and bases.",
 ["inputs"], "all option strings; all types, bounds and bases of the parsing routines",
 "Only a few in-range values appear in the tests.",
 ["libcperciva/util/parsenum.h", "libcperciva/util/humansize.c", "main.c"], [("state, multiplier", "size parser state", "libcperciva/util/humansize.c")],
 [("PARSENUM, humansize_parse", "libcperciva/util/parsenum.h, libcperciva/util/humansize.c")], ["accepted value, refusal, exit status"])

prop("S18", "Displayed parameters and requirements are true",
 "For every header, 'info' (and verbose encryption and decryption) displays exactly the N, r and p in the header (or used), the memory requirement 128*N*r and the available memory in the documented human-readable form (never showing more than the true value nor losing precision to overflow), and the estimated time 4*N*r*p divided by the estimated speed. Input that is not an scrypt header with valid parameters is refused with the right reason, and nothing else is displayed or modified.",
 ["inputs"], "all headers; all sizes 0..2^64-1 for the human-readable form",
 "Info mode and verbose output are not tested at all.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/util/humansize.c", "main.c"], [("N, r, p, mem_minimum, expected_seconds", "displayed values", "lib/scryptenc/scryptenc.c:display_params")],
 [("display_params, scryptdec_file_printparams, humansize", "lib/scryptenc/scryptenc.c, libcperciva/util/humansize.c")], ["text on stderr, exit status"])

prop("S19", "AES-CTR output depends only on key, nonce and byte position",
 "Byte i of the stream cipher's output is input byte i XORed with byte (i mod 16) of AES(key, nonce || big-endian block number i/16), for every key size supported, every position including after very many blocks, every way the stream is cut into calls (including empty ones and in-place operation), and every implementation the machine may select.",
 ["inputs", "histories", "configurations"], "all keys, nonces, positions, sequences of chunk lengths and starting phases, hardware and software AES",
 "Only whole-file encryption of small files with whichever AES the machine selects is tested.",
 ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aesctr_aesni.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c"],
 [("bytectr", "position", "libcperciva/crypto/crypto_aesctr.c"), ("buf, pblk", "current keystream block and counter block", "libcperciva/crypto/crypto_aesctr.c")],
 [("crypto_aesctr_stream: pre_wholeblock, wholeblocks, post_wholeblock", "libcperciva/crypto/crypto_aesctr_shared.c")], ["crypto_aesctr_stream() output"])

prop("S20", "Hashing is SHA-256/HMAC/PBKDF2 however the data is fed in",
 "SHA-256, HMAC-SHA-256 and PBKDF2-HMAC-SHA-256 return the standard values for all messages, keys, salts, iteration counts and output lengths, independently of how the message is divided into updates (including empty ones), of buffer alignment, and of the implementation the machine selects. Length encoding is right for messages beyond 2^32 bits, and byte-string comparison reports equality exactly when all bytes are equal.",
 ["inputs", "histories", "configurations"], "all messages and splits, all key lengths, all block boundary phases, all implementations",
 "Tests reach these functions only indirectly with fixed short inputs on the selected implementation.",
 ["libcperciva/alg/sha256.c", "libcperciva/alg/sha256_shani.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/crypto/crypto_verify_bytes.c"],
 [("count, buf", "buffered bytes and bit length", "libcperciva/alg/sha256.c:SHA256_CTX")], [("SHA256_Update buffering, SHA256_Pad, HMAC inner/outer, PBKDF2 loop", "libcperciva/alg/sha256.c")], ["digests"])

prop("S21", "Accelerated code is used only if present and self-tested, else fallback",
 "For every combination of detected CPU features and of correct or faulty accelerated implementations, results are those of the portable implementation: an accelerated SHA-256, AES or scrypt core that is not detected or fails its self-test is never used, falls back to the next best one, and the choice is made once and never changes results within a process; where AES or the scrypt core has no implementation left that passes its self-test, no result is produced at all. Randomness from a CPU instruction is only ever an addition to operating-system entropy, never a replacement.",
 ["configurations", "fault_sequences"], "all subsets of detected features x which accelerated cores compute wrong results",
 "The tests run with the one CPU's features and correct cores; the fallback paths never execute.",
 ["libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "lib-platform/crypto/crypto_scrypt.c", "libcperciva/crypto/crypto_entropy.c", "libcperciva/cpusupport/cpusupport.h"],
 [("hwaccel, smix_func", "memoised choice", "libcperciva/alg/sha256.c, libcperciva/crypto/crypto_aes.c, lib-platform/crypto/crypto_scrypt.c")],
 [("hwaccel_init, hwtest, testsmix, cpusupport_*", "libcperciva/alg/sha256.c, libcperciva/crypto/crypto_aes.c, lib-platform/crypto/crypto_scrypt.c")], ["results and which cores are called"])

prop("S22", "Secrets are erased and memory released on every path",
 "On every path, success or any failure at any point, the heap memory the program allocates for passphrases, derived keys, expanded cipher keys and keystream state is overwritten before it is released, and none of it is leaked. Derived keys and passphrases that encryption, decryption and passphrase entry hold on the stack are overwritten before they return.",
 ["fault_sequences", "inputs"], "all return paths: success, each verdict, each allocation failure, each read/write failure",
 "Memory contents after release are not examined; the leak checks need a memory checker the baseline does not run, and only on success paths.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/util/readpass.c", "lib/util/passphrase_entry.c", "main.c"],
 [("dk, key_enc_exp, AES, passwd", "secrets and their containers", "lib/scryptenc/scryptenc.c, main.c")], [("insecure_memzero + free on each error path", "lib/scryptenc/scryptenc.c and callees")], ["content of each heap block at free and at exit; stack content after return"])

prop("S23", "Operations are independent of history",
 "The outcome of every encryption, decryption, key derivation, and parameter display depends only on its own arguments and the fresh salt, not on what earlier or abandoned operations in the same process did, succeeded or failed with. Interleaving two decryptions, abandoning one half-way, or repeating one any number of times changes nothing, and descriptors and memory do not accumulate.",
 ["histories", "schedules"], "all sequences and interleavings of library operations with all outcomes",
 "Each test runs one operation per process.",
 ["lib/scryptenc/scryptenc.c", "lib-platform/crypto/crypto_scrypt.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_entropy.c"],
 [("hwaccel, smix_func, drbg, instantiated", "process-wide state", "libcperciva, lib-platform")], [("explicit contexts and cookies", "lib/scryptenc/scryptenc.c")], ["results of each operation in a sequence"])

prop("S24", "Exit status, messages and output always agree with what happened",
 "For every invocation the command exits 0 exactly if the requested operation completed, and otherwise exits 1 (never by a crash or abort) after printing the documented diagnostic for the cause on standard error. Standard output carries the encrypted or decrypted data and nothing else, standard error never contains the passphrase, and an existing output file is left untouched by any failure that precedes the start of output (for decryption, any failure up to the verification of the passphrase; for encryption, any failure up to obtaining the passphrase).",
 ["inputs", "fault_sequences"], "all combinations of operation, options, input condition, passphrase condition and output condition",
 "Tests check a few messages for three failures.",
 ["main.c", "lib/scryptenc/scryptenc_print_error.c", "libcperciva/util/warnp.c"], [("rc", "result", "main.c")], [("scrypt_mode_enc_dec, scrypt_mode_info, scryptenc_print_error", "main.c, lib/scryptenc/scryptenc_print_error.c")], ["exit status, stdout, stderr, output file"])

prop("S25", "Threads deriving keys and hashing at once do not disturb one another",
 "When several threads of one process derive keys (the exported key-derivation function) or hash, authenticate and stretch data with SHA-256, HMAC and PBKDF2 on data of their own at the same time, each gets the result it would get alone, under every schedule. This includes the first uses in the process, during which CPU features are detected and implementations are tested and chosen: no thread obtains a result from an implementation that is absent or fails its self-test, whatever another thread has got to. Nothing the threads allocated is left behind.",
 ["schedules", "configurations"], "all interleavings of two or more threads, all subsets of CPU features and of accelerated cores that compute wrong results",
 "No test has a second thread.",
 ["lib-platform/crypto/crypto_scrypt.c", "libcperciva/alg/sha256.c", "libcperciva/cpusupport/cpusupport.h", "libscrypt-kdf/scrypt-kdf.h"],
 [("smix_func, hwaccel, cpusupport_*_present, cpusupport_*_init", "what the threads share", "lib-platform/crypto/crypto_scrypt.c, libcperciva/alg/sha256.c, libcperciva/cpusupport/cpusupport.h")],
 [("selectsmix, hwaccel_init, cpusupport_*", "lib-platform/crypto/crypto_scrypt.c, libcperciva/alg/sha256.c, libcperciva/cpusupport/cpusupport.h"), ("working storage on the stack and heap of each call", "libcperciva/alg/sha256.c, lib-platform/crypto/crypto_scrypt.c")],
 ["crypto_scrypt(), SHA256_*, HMAC_SHA256_*, PBKDF2_SHA256() results in each thread"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
