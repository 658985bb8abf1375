From 3b74da8e91cb4ee1859e4f1892ea2509cfd7643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 01/13] fix: make a decode error at the third character of a
 group final

An invalid character in the third position of a group was reported once,
but the stream did not enter its end state: later blocks were decoded as
if nothing had happened, out of phase with the input.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From 51f7660b79bbddb40336587cefc687126abb80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 02/13] fix: accept an empty block at the end of a decoded
 stream

After the padding had ended the stream, or between its two characters, an
empty block was reported as a decoding error. Keep the end of the stream
and a decoding error apart, so that an empty block only fails if the
stream already did.
---
 lib/arch/generic/dec_head.c | 10 +++++++---
 lib/arch/generic/dec_tail.c |  2 +-
 lib/env.h                   |  4 +++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/arch/generic/dec_head.c b/lib/arch/generic/dec_head.c
index 179a31b..548ab0a 100644
--- a/lib/arch/generic/dec_head.c
+++ b/lib/arch/generic/dec_head.c
@@ -14,13 +14,17 @@ st.carry = state->carry;
 // If we previously saw an EOF or an invalid character, bail out:
 if (st.eof) {
 	*outlen = 0;
-	ret = 0;
+	// An empty block changes nothing. It only fails if the stream already
+	// did:
+	if (slen == 0) {
+		return (st.eof == BASE64_ERR) ? 0 : 1;
+	}
 	// If there was a trailing '=' to check, check it:
-	if (slen && (st.eof == BASE64_AEOF)) {
+	if (st.eof == BASE64_AEOF) {
 		state->bytes = 0;
-		state->eof = BASE64_EOF;
 		ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;
 	}
+	state->eof = (ret == 1) ? BASE64_EOF : BASE64_ERR;
 	return ret;
 }
 
diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index 0c8adef..f916e00 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -85,7 +85,7 @@
 	}
 }
 
-state->eof = st.eof;
+state->eof = (ret == 1) ? st.eof : BASE64_ERR;
 state->bytes = st.bytes;
 state->carry = st.carry;
 *outlen = olen;
diff --git a/lib/env.h b/lib/env.h
index 0837065..a040ae0 100644
--- a/lib/env.h
+++ b/lib/env.h
@@ -59,8 +59,10 @@
 // End-of-file definitions.
 // Almost end-of-file when waiting for the last '=' character:
 #define BASE64_AEOF 1
-// End-of-file when stream end has been reached or invalid input provided:
+// End-of-file when stream end has been reached:
 #define BASE64_EOF 2
+// Error state when invalid input was provided:
+#define BASE64_ERR 3
 
 // GCC 7 defaults to issuing a warning for fallthrough in switch statements,
 // unless the fallthrough cases are marked with an attribute. As we use
-- 
2.43.0


From b7893ed5e3f12b0568eddc1163d05375bf270254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 03/13] fix: set the output length when the decoder is not in
 the build

The stub decoder left it unset, so the caller read an indeterminate length.
---
 lib/codecs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..37355d8 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -32,7 +32,8 @@ base64_enc_stub BASE64_ENC_PARAMS
 }
 
 // This function is used as a stub when a certain decoder is not compiled in.
-// It discards the inputs and returns an invalid decoding result.
+// It discards the inputs, returns zero output bytes and an invalid decoding
+// result.
 static inline int
 base64_dec_stub BASE64_DEC_PARAMS
 {
@@ -40,7 +41,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
+
+	*outlen = 0;
 
 	return -1;
 }
-- 
2.43.0


From 729b4a19290cce5bee2f92febc1ddea0d8076677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 04/13] fix: keep a forced codec to the stream that forced it

Forcing a codec replaced the process-wide choice: it changed the codec of
all other streams, also of streams that were in progress in other
threads, and of every later stream that did not force one. And because
encoding only looked at the low eight flag bits, forcing AVX512 had no
effect after the first use. Choose a forced codec per stream, and
remember only the default one.
---
 lib/lib.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..eb03501 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -14,13 +14,29 @@
 // The idea being that CPU features don't change at runtime.
 static struct codec codec = { NULL, NULL };
 
-void
-base64_stream_encode_init (struct base64_state *state, int flags)
+// Get the codec to use for the given flags. A forced codec only concerns the
+// stream that asked for it, so it is never remembered.
+static inline struct codec
+codec_get (const int flags)
 {
+	struct codec chosen;
+
 	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
-		codec_choose(&codec, flags);
+	if (flags & 0xFFFF) {
+		codec_choose(&chosen, flags);
+		return chosen;
 	}
+	if (codec.enc == NULL || codec.dec == NULL) {
+		codec_choose(&chosen, 0);
+		codec = chosen;
+		return chosen;
+	}
+	return codec;
+}
+
+void
+base64_stream_encode_init (struct base64_state *state, int flags)
+{
 	state->eof = 0;
 	state->bytes = 0;
 	state->carry = 0;
@@ -36,7 +52,7 @@ base64_stream_encode
 	, size_t		*outlen
 	)
 {
-	codec.enc(state, src, srclen, out, outlen);
+	codec_get(state->flags).enc(state, src, srclen, out, outlen);
 }
 
 void
@@ -67,10 +83,6 @@ base64_stream_encode_final
 void
 base64_stream_decode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.dec == NULL || flags & 0xFFFF) {
-		codec_choose(&codec, flags);
-	}
 	state->eof = 0;
 	state->bytes = 0;
 	state->carry = 0;
@@ -86,7 +98,7 @@ base64_stream_decode
 	, size_t		*outlen
 	)
 {
-	return codec.dec(state, src, srclen, out, outlen);
+	return codec_get(state->flags).dec(state, src, srclen, out, outlen);
 }
 
 #ifdef _OPENMP
-- 
2.43.0


From 58bbc5bc8166b16b387909af03b60256a59915a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 05/13] fix: avoid overflow of parallel output offsets on
 32-bit machines

For inputs of 1 GiB and up, the product was taken before the division and
wrapped around in a 32-bit size_t, so that parts were written to wrong
places in the output.
---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..c0a28cf 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3) * 4, &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3) * 4, &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3) * 4 + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4) * 3, &s);
 			sum += s;
 			result += this_result;
 		}
@@ -137,7 +137,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4) * 3, &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From 4735b530be5da663c7901b573c6be7a658cbb017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 06/13] fix: reject padding in the middle of a text decoded in
 parallel

When a thread's part happened to end in padding, the padding was taken for
the end of the text: decoding reported success, with garbage in the output
where the next part did not connect.
---
 lib/lib_openmp.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index c0a28cf..e110c9d 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -96,9 +96,10 @@ base64_decode_openmp
 			num_threads = omp_get_num_threads();
 
 			// Split the input string into num_threads parts, each
-			// part a multiple of 4 bytes. The remaining bytes will
-			// be done later:
-			len = srclen / (num_threads * 4);
+			// part a multiple of 4 bytes. The remaining bytes, which
+			// always include the end of the input, will be done
+			// later:
+			len = (srclen - 1) / (num_threads * 4);
 			len *= 4;
 			last_len = srclen - num_threads * len;
 
@@ -117,6 +118,11 @@ base64_decode_openmp
 
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4) * 3, &s);
+
+			// Padding is an error when it is not at the end:
+			if (this_result == 1 && state.eof) {
+				this_result = 0;
+			}
 			sum += s;
 			result += this_result;
 		}
-- 
2.43.0


From ef05e335962ea238be078d1b1e13c72cf04006f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 07/13] fix: set the output length when parallel decoding fails

It was left unset, so the caller read an indeterminate length.
---
 lib/lib_openmp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index e110c9d..c74755f 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -128,6 +128,9 @@ base64_decode_openmp
 		}
 	}
 
+	// In case of failure, the parts' output is not contiguous:
+	*outlen = 0;
+
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
-- 
2.43.0


From f5c71045894d8e94a97fdfd0b93832b9e2cc88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 08/13] fix: do not repeat output after an interrupted emulated
 writev

If a write was interrupted after earlier vectors had been written, the
emulation reported only the error. The caller then retried, and wrote the
earlier vectors a second time.
---
 bin/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..1ac3474 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -110,12 +110,11 @@ writev (const int fd, const struct iovec *iov, int iovcnt)
 
 	while (iovcnt-- > 0) {
 
-		// Write the vector; propagate errors back to the caller. Note
-		// that this loses information about how much vectors have been
-		// successfully written, but that also seems to be the case
-		// with the real function. The API is somewhat flawed.
+		// Write the vector; propagate errors back to the caller. If
+		// some data was already written, report that instead, like the
+		// real function; the error will come back if it persists.
 		if ((r = write(fd, iov->iov_base, iov->iov_len)) < 0) {
-			return r;
+			return nwrite > 0 ? nwrite : r;
 		}
 
 		// Update the total write count.
-- 
2.43.0


From c1f4e31e05a736c5dfb7189acd22e9f2ce6efc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 09/13] fix: ignore double quotes as garbage, and keep the
 padding

The table of characters that are not garbage had the double quote where
the padding character belongs. With -i, a double quote in the input was a
decoding error, and padding was discarded unchecked.
---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 1ac3474..c1d721f 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -375,7 +375,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From 2cfcefcc7419bd2257d77dc914516bd3915117a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 10/13] sim hook: allow small buffers in the command-line tool

Guarded by BASE64_SIM_BUFFER_RAW_SIZE, which nothing in the build sets.
---
 bin/base64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index c1d721f..36da908 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -38,7 +38,11 @@
 #include "../include/libbase64.h"
 
 // Size of the buffer for the "raw" (not base64-encoded) data in bytes.
-#define BUFFER_RAW_SIZE (1024 * 1024)
+#ifdef BASE64_SIM_BUFFER_RAW_SIZE	// Only set by the simulator.
+#  define BUFFER_RAW_SIZE (BASE64_SIM_BUFFER_RAW_SIZE)
+#else
+#  define BUFFER_RAW_SIZE (1024 * 1024)
+#endif
 
 // Size of the buffer for the base64-encoded data in bytes. The base64-encoded
 // data is 4/3 the size of the input, with some margin to be sure.
-- 
2.43.0


From b82a89bd517414e0ca78f481d21d1f8cb2d82bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 11/13] fix: report a failure to write the help text

With --help the tool returned 0 without looking whether the text had been
written: on a full disk, or with standard output closed, it claimed success.
Flush standard output and report the error, as for all other output.
---
 bin/base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 36da908..758fc66 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -644,6 +644,13 @@ main (int argc, char **argv)
 	// Return early if the user just wanted the help text.
 	if (config.print_help) {
 		usage(stdout, &config);
+
+		// Don't claim success if the text could not be written.
+		if (fflush(stdout) != 0 || ferror(stdout)) {
+			fprintf(stderr, "%s: stdout: %s\n",
+			        config.name, strerror(errno));
+			return 1;
+		}
 		return 0;
 	}
 
-- 
2.43.0


From 83b50c69034cad0ca93b4b93b448ac81abaed511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 12/13] fix: base64: don't ignore a failure to close the
 standard output

A file system that defers writes, or enforces a quota, may report that data
was lost only when the file is closed. The tool closes its standard output
but ignored the result, and exited successfully after losing output.
---
 bin/base64.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 758fc66..07f9b7c 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -679,8 +679,13 @@ main (int argc, char **argv)
 	// Close the input file.
 	fclose(config.fp);
 
-	// Close the output stream.
-	fclose(stdout);
+	// Close the output stream. Some systems report a failed write only now.
+	// If there was no stream to close, then nothing was written to it.
+	if (fclose(stdout) != 0 && errno != EBADF) {
+		fprintf(stderr, "%s: stdout: %s\n",
+		        config.name, strerror(errno));
+		return 1;
+	}
 
 	// That's all, folks.
 	return ret ? 0 : 1;
-- 
2.43.0


From a11558d2ee1dc1f07170806180a9c7606a7bd68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 13/13] fix: base64: honour wrap widths beyond the range of a
 long

Where a long has 32 bits, a wrap width of 2 GiB or more was silently cut to
2147483647, and the output had newlines in the wrong place.
---
 bin/base64.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 07f9b7c..63f1f74 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -60,8 +60,9 @@ struct config {
 	// Input file handle.
 	FILE *fp;
 
-	// Wrap width in characters, for encoding only.
-	size_t wrap;
+	// Wrap width in characters, for encoding only. This may be more than
+	// what fits in memory, so `size_t' can be too narrow for it.
+	unsigned long long wrap;
 
 	// Whether to run in decode mode.
 	bool decode;
@@ -260,7 +261,7 @@ write_stdout (const struct config *config, const char *buf, size_t len)
 static bool
 write_wrapped (const struct config *config, char *buf, size_t len)
 {
-	static size_t col = 0;
+	static unsigned long long col = 0;
 
 	// Special case: if buf is NULL, print final trailing newline.
 	if (buf == NULL) {
@@ -282,12 +283,10 @@ write_wrapped (const struct config *config, char *buf, size_t len)
 	while (len > 0) {
 
 		// Number of characters to fill the current line.
-		size_t nwrite = config->wrap - col;
+		const unsigned long long left = config->wrap - col;
 
 		// Do not write more data than is available.
-		if (nwrite > len) {
-			nwrite = len;
-		}
+		const size_t nwrite = left > len ? len : (size_t) left;
 
 		// Append the data to the IO vector array.
 		if (iov_append(config, iov, &nvec, buf, nwrite) == false) {
@@ -517,8 +516,9 @@ get_wrap (struct config *config, const char *str)
 		return false;
 	}
 
-	// Convert the input string to a signed long.
-	const long wrap = strtol(str, &eptr, 10);
+	// Convert the input string to a signed long long. A plain long is too
+	// narrow on some systems to hold every sensible width.
+	const long long wrap = strtoll(str, &eptr, 10);
 
 	// Reject negative numbers.
 	if (wrap < 0) {
@@ -530,7 +530,7 @@ get_wrap (struct config *config, const char *str)
 		return false;
 	}
 
-	config->wrap = (size_t) wrap;
+	config->wrap = (unsigned long long) wrap;
 	return true;
 }
 
-- 
2.43.0

