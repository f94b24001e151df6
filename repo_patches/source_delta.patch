From 6f1775b5e722c7e2c9b42339bb22af79b31c1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 01/20] fix: dynmbox: keep the read descriptor readable exactly
 while messages are pending

The notification byte was written after the lock was released (a consumer
could take the message first and leave a stale byte behind) and once per
message (lost as soon as the pipe was full). Signal under the lock, only on
the empty/non-empty transitions, and retry interrupted calls.
---
 src/dynmbox.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..86ded63 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -273,7 +273,9 @@ static void push_notify(struct dynmbox *box)
 {
 	const uint8_t dummy = 0x55;
 	ssize_t done;
-	done = write(box->fds[1], &dummy, sizeof(dummy));
+	do {
+		done = write(box->fds[1], &dummy, sizeof(dummy));
+	} while (done == -1 && errno == EINTR);
 	if (done == -1)
 		ULOG_ERRNO("write() to pipe", errno);
 }
@@ -282,7 +284,9 @@ static void pop_notify(struct dynmbox *box)
 {
 	ssize_t done;
 	uint8_t val;
-	done = read(box->fds[0], &val, sizeof(val));
+	do {
+		done = read(box->fds[0], &val, sizeof(val));
+	} while (done == -1 && errno == EINTR);
 	if (done == -1)
 		ULOG_ERRNO("read() from pipe", errno);
 }
@@ -460,6 +464,7 @@ static void rbuf_read(struct dynmbox *box, void *buf, size_t len)
 static int do_push(struct dynmbox *box, const void *msg, size_t msg_size)
 {
 	uint32_t hdr;
+	bool was_empty = rbuf_is_empty(box);
 
 	/* Check remaining space */
 	if (rbuf_space_left(box) < (msg_size + sizeof(hdr)))
@@ -471,6 +476,13 @@ static int do_push(struct dynmbox *box, const void *msg, size_t msg_size)
 	rbuf_write(box, &hdr, sizeof(hdr));
 	rbuf_write(box, msg, msg_size);
 
+	/* Write one byte into pipe/socket to signal mbox is readable; it must
+	 * be done with the lock held, and only once until the mbox is empty
+	 * again, so that the channel is readable when messages are pending
+	 * whatever its capacity */
+	if (was_empty)
+		push_notify(box);
+
 	return 0;
 }
 
@@ -512,9 +524,6 @@ int dynmbox_push(struct dynmbox *box,
 
 	pthread_mutex_unlock(&box->lock);
 
-	/* Write one byte into pipe/socket to signal mbox is readable */
-	push_notify(box);
-
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -580,9 +589,6 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 
 	pthread_mutex_unlock(&box->lock);
 
-	/* Signal consumers */
-	push_notify(box);
-
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -608,14 +614,15 @@ ssize_t dynmbox_peek(struct dynmbox *box, void *msg)
 		goto fail;
 	}
 
-	/* Read one byte from pipe/socket, ignoring failure */
-	pop_notify(box);
-
 	/* Read message from ring buffer */
 	msglen = do_peek(box, msg);
 	if (msglen < 0)
 		goto fail;
 
+	/* Last message: read one byte from pipe/socket, ignoring failure */
+	if (rbuf_is_empty(box))
+		pop_notify(box);
+
 	/* Signal condition */
 	pthread_cond_signal(&box->cond);
 
-- 
2.43.0


From 34e889f28e497eab581f0c30736938dfa3747612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 02/20] fix: dynmbox: blocking push timeout immune to clock
 changes and overflow

The deadline was computed from the wall clock, so that setting the system
time shortened or lengthened the wait, and timeout_ms * 1000 overflowed
32 bits above 71 minutes.
---
 src/dynmbox.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 86ded63..e7b0d08 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -55,6 +55,12 @@ ULOG_DECLARE_TAG(dynmbox);
 #include "futils/dynmbox.h"
 #include "futils/timetools.h"
 
+/* Use the monotonic clock for the timeouts (when supported), to be immune to
+ * changes of the system time */
+#if !defined(_WIN32) && !defined(__APPLE__)
+# define HAVE_CONDATTR_SETCLOCK 1
+#endif
+
 #define ALLOCATED_LEN (DYNMBOX_MAX_SIZE + sizeof(uint32_t))
 
 struct dynmbox {
@@ -295,6 +301,7 @@ static void pop_notify(struct dynmbox *box)
 struct dynmbox *dynmbox_new(size_t max_msg_size)
 {
 	struct dynmbox *box;
+	pthread_condattr_t condattr;
 	int ret;
 
 	/* Enforce message size limit */
@@ -323,7 +330,12 @@ struct dynmbox *dynmbox_new(size_t max_msg_size)
 
 	/* mutex + cond */
 	pthread_mutex_init(&box->lock, NULL);
-	pthread_cond_init(&box->cond, NULL);
+	pthread_condattr_init(&condattr);
+#ifdef HAVE_CONDATTR_SETCLOCK
+	pthread_condattr_setclock(&condattr, CLOCK_MONOTONIC);
+#endif
+	pthread_cond_init(&box->cond, &condattr);
+	pthread_condattr_destroy(&condattr);
 
 	box->max_msg_size = max_msg_size;
 	return box;
@@ -551,7 +563,6 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		size_t msg_size, unsigned int timeout_ms)
 {
 	int res;
-	struct timeval tv_now;
 	struct timespec ts_now;
 	struct timespec ts_abs;
 
@@ -559,14 +570,17 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		return -EINVAL;
 
 	if (timeout_ms > 0) {
-		res = gettimeofday(&tv_now, NULL);
-		if (res) {
-			res = -errno;
-			ULOG_ERRNO("gettimeofday()", -res);
+#ifdef HAVE_CONDATTR_SETCLOCK
+		res = time_get_monotonic(&ts_now);
+#else
+		res = time_get_realtime(&ts_now);
+#endif
+		if (res < 0) {
+			ULOG_ERRNO("cannot get current time", -res);
 			return res;
 		}
-		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				     &ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From d7f1b3a5d0f064bb323c059071b97f1490409aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 03/20] fix: dynmbox: set close-on-exec on both ends of the
 pipe

The write end was inherited by executed programs.
---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index e7b0d08..ea15a10 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -262,10 +262,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes CLOEXEC and NONBLOCK flags */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From c61b4ff517501b02c9b4939377c147848dce89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 04/20] fix: synctools: report file sync failure in
 sync_file_and_folder

The result of the file sync was overwritten by the one of the folder sync,
and a NULL path was given to strdup().
---
 src/synctools.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..0aeae59 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -87,10 +87,13 @@ int sync_folder(const char *folderpath)
 
 int sync_file_and_folder(const char *filepath)
 {
-	int ret;
+	int ret, ret2;
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
 	ret = sync_file(filepath);
 	if (ret < 0)
@@ -112,11 +115,14 @@ int sync_file_and_folder(const char *filepath)
 	}
 	slash[1] = '\0';
 
-	/* sync parent folder */
-	ret = sync_folder(folderpath);
-	if (ret < 0)
-		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, ret,
-				strerror(-ret));
+	/* sync parent folder, even if file sync failed */
+	ret2 = sync_folder(folderpath);
+	if (ret2 < 0)
+		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, ret2,
+				strerror(-ret2));
+	/* First report file sync failure */
+	if (ret == 0)
+		ret = ret2;
 
 out:
 	free(folderpath);
-- 
2.43.0


From 3591339370d89963d164db2cbdf9e84339809561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 05/20] fix: fs: report readdir failure in dir_size

A failure to read the directory was handled as its end, and the size of the
entries read so far returned.
---
 src/fs.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..59743d5 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,7 +67,17 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (1) {
+		errno = 0;
+		entry = readdir(dir);
+		if (!entry) {
+			/* end of directory, or failure if errno is set */
+			ret = -errno;
+			if (ret < 0)
+				ULOG_ERRNO("can't readdir '%s'", -ret, path);
+			break;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
-- 
2.43.0


From f2386d723c738d7b6eb888174b358858a7343289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 06/20] fix: timetools: normalize difference of timespec with
 equal nanoseconds

tv_nsec of the result was 1000000000 (and tv_sec one less).
---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 65c53069dbf98033d010b132756f109ac8b7be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 07/20] fix: mbox: honour timeout of blocking push when
 interrupted or raced

Each interrupted poll() restarted the full timeout, and -EAGAIN was returned
when another producer filled the pipe between poll() and write().
---
 src/mbox.c | 54 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/mbox.c b/src/mbox.c
index 4f709cc..f51d477 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -38,6 +38,7 @@
 #include <limits.h>
 #include "futils/fdutils.h"
 #include "futils/mbox.h"
+#include "futils/timetools.h"
 
 #define ULOG_TAG mbox
 #include <ulog.h>
@@ -119,17 +120,35 @@ int mbox_push(struct mbox *box, const void *msg)
 int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 {
 	int res;
-	int timeout;
+	int timeout = -1;
+	uint64_t elapsed_ms;
+	struct timespec start, elapsed;
 
 	if (!msg || !box)
 		return -EINVAL;
 	/* poll() expects an int for timeout */
 	if (timeout_ms > INT_MAX)
 		return -EINVAL;
-	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
 
-	/* Block until we have at least PIPE_BUF bytes in the pipe */
+	if (timeout_ms > 0) {
+		res = time_get_monotonic(&start);
+		if (res < 0)
+			return res;
+	}
+
+	/* Block until we have at least PIPE_BUF bytes in the pipe; if the wait
+	 * is interrupted or if another producer takes the free space first,
+	 * wait again, but only for the remaining time */
 	do {
+		if (timeout_ms > 0) {
+			res = time_timespec_diff_now(&start, &elapsed);
+			if (res < 0)
+				return res;
+			time_timespec_to_ms(&elapsed, &elapsed_ms);
+			timeout = (elapsed_ms < timeout_ms) ?
+					(int)(timeout_ms - elapsed_ms) : 0;
+		}
+
 		struct pollfd pfd = {
 			.fd = box->fds[1],
 			.events = POLLOUT,
@@ -137,18 +156,23 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 		};
 
 		res = poll(&pfd, 1, timeout);
-	} while (res == -1 && errno == EINTR);
-
-	if (res == 0)
-		return -ETIMEDOUT;
-	if (res == -1)
-		return -errno;
-	/* When poll indicates that the write will not block, it means that at
-	 * least PIPE_BUF bytes can be written without blocking, or that an
-	 * error occured on the file descriptor, in which case the write is
-	 * expected to fail.
-	 */
-	return mbox_push(box, msg);
+		if (res == 0)
+			return -ETIMEDOUT;
+		if (res == -1) {
+			res = -errno;
+			continue;
+		}
+		/* When poll indicates that the write will not block, it means
+		 * that at least PIPE_BUF bytes can be written without blocking,
+		 * or that an error occured on the file descriptor, in which
+		 * case the write is expected to fail.
+		 */
+		res = mbox_push(box, msg);
+		if (res == -EAGAIN && timeout == 0)
+			return -ETIMEDOUT;
+	} while (res == -EINTR || res == -EAGAIN);
+
+	return res;
 }
 
 int mbox_peek(struct mbox *box, void *msg)
-- 
2.43.0


From 7426c1b865f0d062973076213e9f3fe81ec85c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 08/20] fix: random: independent characters in last base64 blob

The characters of a partial last blob shared 3 bits with the previous one.
---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From 792d5c742f5e8eabfeabd3b361238495240e4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 09/20] fix: systimetools: refuse out of range date and time
 fields

A month above 12 was used as an index past the end of a table, and other
fields out of range (or negative) gave an arbitrary instant.
---
 src/systimetools.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..ea877dc 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -86,6 +86,9 @@ static const char *mon_str[12] = {
 static int parse_num(const char *s, int *num)
 {
 	char *end = NULL;
+	/* No leading space nor sign */
+	if (!isdigit((unsigned char)s[0]))
+		return -EINVAL;
 	errno = 0;
 	*num = strtol(s, &end, 10);
 	return (end == NULL || *end != '\0') ? -EINVAL : -errno;
@@ -119,6 +122,17 @@ static int parse_mon(const char *s, int *num)
 	return ret;
 }
 
+static int check_date(int mon, int mday)
+{
+	return (mon < 1 || mon > 12 || mday < 1 || mday > 31) ? -EINVAL : 0;
+}
+
+/* 60 seconds in case of leap second */
+static int check_time(int hour, int min, int sec)
+{
+	return (hour > 23 || min > 59 || sec > 60) ? -EINVAL : 0;
+}
+
 /*
  * YYYY-MM-DD
  * YYYYMMDD
@@ -166,7 +180,7 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	if (ret < 0)
 		return ret;
 
-	return ret;
+	return check_date(*mon, *mday);
 }
 
 /*
@@ -248,6 +262,9 @@ static int parse_date_rfc1123(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 	ret = parse_num(mday_s, mday);
+	if (ret < 0)
+		return ret;
+	ret = check_date(*mon, *mday);
 	if (ret < 0)
 		return ret;
 
@@ -315,6 +332,9 @@ static int parse_time(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 	ret = parse_num(sec_s, sec);
+	if (ret < 0)
+		return ret;
+	ret = check_time(*hour, *min, *sec);
 	if (ret < 0)
 		return ret;
 
@@ -382,6 +402,9 @@ static int parse_time(const char *s, size_t n,
 	if (ret < 0)
 		return ret;
 	ret = parse_num(gmtoff_min_s, &gmtoff_min);
+	if (ret < 0)
+		return ret;
+	ret = check_time(gmtoff_hour, gmtoff_min, 0);
 	if (ret < 0)
 		return ret;
 	*gmtoff = (gmtoff_hour * 60 + gmtoff_min) * 60 * gmtoff_sign;
-- 
2.43.0


From 5f03524264292398fbbb7dab3f652c6f950dae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 10/20] fix: safew: do not lose the stored pair when a commit
 with crc fails

The crc of the previous payload was removed on any failure (disk full...), as
well as the tmp crc of a payload already moved: the next check then erased
the payload.
---
 src/safew.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..0b0af95 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -30,6 +30,7 @@
  ******************************************************************************/
 
 #include <stdarg.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -230,6 +231,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool payload_moved = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -273,6 +275,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 	if (ret == 0)
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
+	payload_moved = (ret == 0);
 
 	if (ret == 0 && with_crc)
 		/* move tmp payload to payload */
@@ -282,10 +285,11 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
 		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
+		/* do not remove the crc of the previous payload; if the new
+		 * payload is already in place, keep its tmp crc too, for
+		 * futils_safew_file_check() to recover the pair */
+		if (with_crc && !payload_moved)
 			unlink(crc_fp.tmp_path);
-		}
 	}
 
 	free(safew_fp);
-- 
2.43.0


From d4e4d6806aac87f33414388fd735ab1b86ad7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 11/20] fix: safew: recover from an interruption of the check
 itself

The tmp crc was moved before the tmp payload: when interrupted in between,
the next check found no matching pair and erased everything.
---
 src/safew.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 0b0af95..088ee24 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -517,11 +517,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload then tmp crc, as done by commit, so that
+		 * an interruption between them can be recovered (stage 8) */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -535,11 +536,11 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload then tmp crc (see above) */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 456bb64f512dd4b52bc63e51f47ff28d3758dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 12/20] fix: safew: try the other pair if a crc file is too
 short

A commit interrupted while its tmp crc was being written left it empty; the
check then erased the valid payload and crc.
---
 src/safew.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 088ee24..95e7320 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -473,13 +473,11 @@ int futils_safew_file_check(const char *pathname)
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
 		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
 
 		crc_from_fhd(payload_fhd, &payload_crc);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0 && crc == payload_crc)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -531,11 +529,9 @@ int futils_safew_file_check(const char *pathname)
 		 * Check tmp pair first, if it fails test the other one
 		 */
 		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
-		if (tmp_crc == tmp_payload_crc) {
+		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload then tmp crc (see above) */
 			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
-- 
2.43.0


From 5ea368e5fdf18657b056a6cf102fa8900785438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 13/20] fix: safew: do not mistake system errors for invalid
 files

A file that could not be opened or read (I/O error, too many files...) was
handled as missing or corrupted, so that the check erased a valid pair, and a
commit could store the crc of a partially read payload. A failed rename in the
check erased the valid pair too.
---
 src/safew.c | 98 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 23 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 95e7320..3ea4915 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -29,6 +29,7 @@
  *
  ******************************************************************************/
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -48,7 +49,10 @@ ULOG_DECLARE_TAG(ULOG_TAG);
 #define TMP_PAYLOAD (1 << 2)
 #define TMP_CRC (1 << 3)
 
-static void crc_from_fhd(FILE *fhd, uint32_t *crc)
+/* The functions below return -EIO if the file cannot be accessed because of a
+ * system error; it must not be mistaken for an invalid file */
+
+static int crc_from_fhd(FILE *fhd, uint32_t *crc)
 {
 	int val;
 
@@ -62,6 +66,8 @@ static void crc_from_fhd(FILE *fhd, uint32_t *crc)
 	*crc += *crc << 3;
 	*crc ^= *crc >> 11;
 	*crc += *crc << 15;
+
+	return ferror(fhd) ? -EIO : 0;
 }
 
 static int crc_from_file(const char *pathname, uint32_t *crc)
@@ -74,11 +80,10 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 		return -1;
 	}
 
-	crc_from_fhd(fhd, crc);
+	ret = crc_from_fhd(fhd, crc);
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
-	ret = fclose(fhd);
-	if (ret < 0)
+	if (fclose(fhd) < 0)
 		return -1;
 
 	return ret;
@@ -88,7 +93,7 @@ static int read_crc(FILE *fhd, uint32_t *crc)
 {
 	if (fread(crc, 1, sizeof(uint32_t), fhd) != sizeof(uint32_t)) {
 		ULOGE("can't read crc file");
-		return -1;
+		return ferror(fhd) ? -EIO : -1;
 	}
 
 	return 0;
@@ -104,7 +109,9 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	if (ret < 0)
 		return ret;
 
-	crc_from_fhd(payload_fhd, &payload_crc);
+	ret = crc_from_fhd(payload_fhd, &payload_crc);
+	if (ret < 0)
+		return ret;
 
 	if (crc != payload_crc)
 		return -1;
@@ -112,6 +119,28 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	return 0;
 }
 
+static FILE *open_if_present(const char *pathname, int *err)
+{
+	FILE *fhd = fopen(pathname, "r");
+
+	if (fhd == NULL && errno != ENOENT) {
+		ULOGE("can't open file %s", pathname);
+		*err = -EIO;
+	}
+
+	return fhd;
+}
+
+static int rename_file(const char *oldpath, const char *newpath)
+{
+	if (rename(oldpath, newpath) < 0) {
+		ULOGE("can't rename %s to %s", oldpath, newpath);
+		return -EIO;
+	}
+
+	return 0;
+}
+
 static int safew_create_crc_filenames(const char *pathname,
 				      struct futils_safew_crc *fp)
 {
@@ -370,6 +399,7 @@ int futils_safew_file_check(const char *pathname)
 	FILE *tmp_crc_fhd;
 
 	int ret;
+	int err = 0;
 
 	/* create all associated filenames */
 	ret = snprintf(fp.tmp_path, sizeof(fp.tmp_path),
@@ -381,10 +411,10 @@ int futils_safew_file_check(const char *pathname)
 		return -1;
 
 	/* try to open all files */
-	payload_fhd = fopen(pathname, "r");
-	tmp_payload_fhd = fopen(fp.tmp_path, "r");
-	crc_fhd = fopen(crc_fp.path, "r");
-	tmp_crc_fhd = fopen(crc_fp.tmp_path, "r");
+	payload_fhd = open_if_present(pathname, &err);
+	tmp_payload_fhd = open_if_present(fp.tmp_path, &err);
+	crc_fhd = open_if_present(crc_fp.path, &err);
+	tmp_crc_fhd = open_if_present(crc_fp.tmp_path, &err);
 
 	/* create an error code with existing files */
 	uint8_t present_files =
@@ -419,7 +449,14 @@ int futils_safew_file_check(const char *pathname)
 	 *	payload_v2 + crc_v2
 	 */
 
+	if (err < 0)
+		present_files = UINT8_MAX;
+
 	switch (present_files) {
+	case UINT8_MAX:	/* at least one cannot be opened */
+		ret = err;
+		break;
+
 	case 0:		/* none is present */
 	case PAYLOAD:
 	case TMP_PAYLOAD:
@@ -453,7 +490,7 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case TMP_PAYLOAD + TMP_CRC:
@@ -463,18 +500,21 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename_file(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
 		ret = read_crc(crc_fhd, &crc);
-
-		crc_from_fhd(payload_fhd, &payload_crc);
+		err = crc_from_fhd(payload_fhd, &payload_crc);
+		if (ret == -EIO || err < 0) {
+			ret = -EIO;
+			break;
+		}
 
 		/* if pair matches let's stop here */
 		if (ret == 0 && crc == payload_crc)
@@ -488,7 +528,7 @@ int futils_safew_file_check(const char *pathname)
 
 		if (crc == payload_crc) {
 			/* rename tmp crc */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
@@ -506,7 +546,9 @@ int futils_safew_file_check(const char *pathname)
 		if (ret < 0)
 			break;
 
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		ret = crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		if (ret < 0)
+			break;
 
 		/* if pair doesn't match erase all */
 		if (tmp_crc != tmp_payload_crc) {
@@ -517,10 +559,10 @@ int futils_safew_file_check(const char *pathname)
 
 		/* rename tmp payload then tmp crc, as done by commit, so that
 		 * an interruption between them can be recovered (stage 8) */
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename_file(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -529,14 +571,18 @@ int futils_safew_file_check(const char *pathname)
 		 * Check tmp pair first, if it fails test the other one
 		 */
 		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		err = crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		if (ret == -EIO || err < 0) {
+			ret = -EIO;
+			break;
+		}
 
 		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload then tmp crc (see above) */
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename_file(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
@@ -545,7 +591,9 @@ int futils_safew_file_check(const char *pathname)
 		if (ret < 0)
 			break;
 
-		crc_from_fhd(payload_fhd, &payload_crc);
+		ret = crc_from_fhd(payload_fhd, &payload_crc);
+		if (ret < 0)
+			break;
 
 		if (crc != payload_crc) {
 			ULOGE("no matching crc found for %s", pathname);
@@ -568,6 +616,10 @@ int futils_safew_file_check(const char *pathname)
 		if (fclose(tmp_crc_fhd) < 0)
 			ULOGE("error closing %s", crc_fp.tmp_path);
 
+	/* in case of system error the valid files are not known: keep all */
+	if (ret == -EIO)
+		return -1;
+
 	/* remove remaining tmp file */
 	unlink(fp.tmp_path);
 	unlink(crc_fp.tmp_path);
-- 
2.43.0


From af7991c2acb318d8d0622982c796370452c910b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 14/20] fix: safew: synchronize the tmp crc before promoting it

After an interrupted commit the check moved the tmp files over the valid pair
although the tmp crc may exist in cache only; a power loss then lost both.
---
 src/safew.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/safew.c b/src/safew.c
index 3ea4915..6bfa464 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -141,6 +141,21 @@ static int rename_file(const char *oldpath, const char *newpath)
 	return 0;
 }
 
+/* the tmp crc of an interrupted commit may not have been synchronized: do it
+ * before any valid pair is replaced */
+static int sync_file(FILE *fhd)
+{
+#if !defined(_WIN32)
+# if !defined(THREADX_OS)
+	if (fsync(fileno(fhd))) {
+		ULOGE("can't sync tmp crc file");
+		return -EIO;
+	}
+# endif
+#endif
+	return 0;
+}
+
 static int safew_create_crc_filenames(const char *pathname,
 				      struct futils_safew_crc *fp)
 {
@@ -490,6 +505,9 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
+		ret = sync_file(tmp_crc_fhd);
+		if (ret < 0)
+			break;
 		ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 		break;
 
@@ -500,6 +518,9 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
+		ret = sync_file(tmp_crc_fhd);
+		if (ret < 0)
+			break;
 		ret = rename_file(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
@@ -528,6 +549,9 @@ int futils_safew_file_check(const char *pathname)
 
 		if (crc == payload_crc) {
 			/* rename tmp crc */
+			ret = sync_file(tmp_crc_fhd);
+			if (ret < 0)
+				break;
 			ret = rename_file(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
@@ -559,6 +583,9 @@ int futils_safew_file_check(const char *pathname)
 
 		/* rename tmp payload then tmp crc, as done by commit, so that
 		 * an interruption between them can be recovered (stage 8) */
+		ret = sync_file(tmp_crc_fhd);
+		if (ret < 0)
+			break;
 		ret = rename_file(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
@@ -579,6 +606,9 @@ int futils_safew_file_check(const char *pathname)
 
 		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload then tmp crc (see above) */
+			ret = sync_file(tmp_crc_fhd);
+			if (ret < 0)
+				break;
 			ret = rename_file(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-- 
2.43.0


From 4de10655f88a3b2faf9beeb20bfe0b0526b612fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 15/20] fix: fs: refuse too long paths in dir_size

A truncated path designated another entry: its size was counted twice, or the
recursion into it did not end.
---
 src/fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 59743d5..ee030da 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -83,7 +83,12 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		if (snprintf(filepath, FILENAME_MAX, "%s/%s", path,
+			     entry->d_name) >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			ULOG_ERRNO("path too long in '%s'", -ret, path);
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From 3a5b03d00a5401bdcab55926106c3ff7dc20ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 16/20] fix: systimetools: take utc offset of the instant
 returned

time_local_ms_get() read the clock a second time to get the utc offset, so
that around a change of the offset (or of the clock) it did not belong to the
time returned.
---
 src/systimetools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index ea877dc..73c39eb 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -701,9 +701,9 @@ int time_local_ms_get(uint64_t *epoch_sec, uint16_t *ms,
 	GetTimeZoneInformation(&tzi);
 	*utc_offset_sec = tzi.Bias * 60;
 #else
-	time_t dt;
+	/* offset in force at the very instant returned */
+	time_t dt = tv.tv_sec;
 	struct tm tm;
-	time(&dt);
 	localtime_r(&dt, &tm);
 	*utc_offset_sec = tm.tm_gmtoff;
 #endif
-- 
2.43.0


From c734b74671eb2ca3ac39b4d31af57f2694a56627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 17/20] fix: varint: do not read past the source, check the
 last byte for overflow

The overflow check looked at the byte following the value: a value of
maximum length was refused depending on what followed it, the byte past
the end of the source was read, and overflows were not detected. The
truncation check came after the read it should have prevented.
---
 src/varint.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..4a53b13 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -54,6 +54,9 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	uint32_t shift = 0;
 	size_t offset = 0;
 	int more = 0;
+	uint8_t bits;
+	/* 16, 32 or 64 */
+	const uint32_t val_bits = (val_len_max * 7) & ~7u;
 
 	if (src == NULL || src_len == 0 || val == NULL || val_len == NULL)
 		return -EINVAL;
@@ -61,15 +64,21 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
-		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
+		/* Truncated or too long */
+		if (offset >= src_len || offset >= val_len_max)
+			return -EPROTO;
+
+		bits = src[offset] & 0x7f;
 		more = src[offset] & 0x80;
 
+		/* The last byte only holds the remaining bits of the value */
+		if (offset == val_len_max - 1 && (bits >> (val_bits - shift)))
+			return -EPROTO;
+
+		*val |= ((uint64_t)bits << shift);
+
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
-- 
2.43.0


From 67fdb05567db8f72aafdc2332a23d0e21f994e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 18/20] fix: timetools: set the difference of two equal times
 in diff_in_range

---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From 74f3695874e6ae067e32fc198fe2f14daa068611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 19/20] fix: timetools: do not overflow in time_timespec_add_us

---
 src/timetools.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..9ed24f3 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -457,7 +457,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	int ret;
+
+	/* delta * 1000 may overflow, add whole seconds separately */
+	ret = time_timespec_add_ns(ts, delta % 1000000 * 1000, res);
+	if (ret < 0)
+		return ret;
+	res->tv_sec += delta / 1000000;
+
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From 624b8915b0145490addc2e3a06146a0921ca059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 20/20] fix: fs: report and release correctly in dirname and
 basename when out of memory

---
 src/fs.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fs.cpp b/src/fs.cpp
index 9c01f08..57db488 100644
--- a/src/fs.cpp
+++ b/src/fs.cpp
@@ -47,10 +47,9 @@ namespace fs
 
 std::string dirname(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(::dirname(str));
-	free(str);
-	return res;
+	/* modified in place */
+	std::string str(path.c_str());
+	return ::dirname(&str[0]);
 }
 
 /* libgen.h redefine basename to __xpg_basename, if we want to have the correct
@@ -66,10 +65,9 @@ static char *wrap_basename(char *path)
 
 std::string basename(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(wrap_basename(str));
-	free(str);
-	return res;
+	/* modified in place */
+	std::string str(path.c_str());
+	return wrap_basename(&str[0]);
 }
 
 }
-- 
2.43.0

