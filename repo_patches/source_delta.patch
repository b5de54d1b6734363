From 9ee8cbb61eda6154e0a8e85693ba735636c0dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 01/11] fix: opt: don't mix -size units in the data flow
 analysis

-size +5c and -size 1k compare different quantities, but both were
recorded in a single range, so e.g. `-size +5c -size 1k` was considered
always false.  Track one range per unit instead.
---
 src/opt.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..d316b10 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -225,8 +225,9 @@ enum range_type {
 	INUM_RANGE,
 	/** Hard link count. */
 	LINKS_RANGE,
-	/** File size. */
+	/** File size (one range per enum bfs_size_unit). */
 	SIZE_RANGE,
+	SIZE_RANGE_LAST = SIZE_RANGE + BFS_PB,
 	/** User ID. */
 	UID_RANGE,
 	/** The number of range_types. */
@@ -239,7 +240,14 @@ static const char *const range_names[] = {
 	[GID_RANGE] = "-gid",
 	[INUM_RANGE] = "-inum",
 	[LINKS_RANGE] = "-links",
-	[SIZE_RANGE] = "-size",
+	[SIZE_RANGE + BFS_BLOCKS] = "-size (b)",
+	[SIZE_RANGE + BFS_BYTES] = "-size (c)",
+	[SIZE_RANGE + BFS_WORDS] = "-size (w)",
+	[SIZE_RANGE + BFS_KB] = "-size (k)",
+	[SIZE_RANGE + BFS_MB] = "-size (M)",
+	[SIZE_RANGE + BFS_GB] = "-size (G)",
+	[SIZE_RANGE + BFS_TB] = "-size (T)",
+	[SIZE_RANGE + BFS_PB] = "-size (P)",
 	[UID_RANGE] = "-uid",
 };
 
@@ -1641,8 +1649,10 @@ static struct bfs_expr *data_flow_empty(struct bfs_opt *opt, struct bfs_expr *ex
 	opt->after_true.types &= (1 << BFS_REG) | (1 << BFS_DIR);
 
 	if (opt->before.types == (1 << BFS_REG)) {
-		constrain_range(&opt->after_true.ranges[SIZE_RANGE], 0);
-		range_remove(&opt->after_false.ranges[SIZE_RANGE], 0);
+		for (int i = SIZE_RANGE; i <= SIZE_RANGE_LAST; ++i) {
+			constrain_range(&opt->after_true.ranges[i], 0);
+			range_remove(&opt->after_false.ranges[i], 0);
+		}
 	}
 
 	return expr;
@@ -1705,7 +1715,11 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 
 /** Transfer function for -size. */
 static struct bfs_expr *data_flow_size(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
-	struct df_range *range = &opt->after_true.ranges[SIZE_RANGE];
+	// Sizes in different units are not comparable, so track them separately
+	enum range_type type = SIZE_RANGE + expr->size_unit;
+	data_flow_icmp(opt, expr, type);
+
+	struct df_range *range = &opt->after_true.ranges[type];
 	if (range->min == range->max) {
 		expr->probability = 0.01;
 	} else {
@@ -1887,7 +1901,6 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 		{eval_gid,     GID_RANGE},
 		{eval_inum,   INUM_RANGE},
 		{eval_links, LINKS_RANGE},
-		{eval_size,   SIZE_RANGE},
 		{eval_uid,     UID_RANGE},
 	};
 
-- 
2.43.0


From 0dfa60f20e6c6991b10abbf29207efd7535739cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 02/11] fix: opt: -samefile being false says nothing about the
 inode number

Another device may use the same inode number, so
`-inum N -samefile FILE` was wrongly reduced to `-inum N`.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index d316b10..df0e2e5 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1707,8 +1707,8 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
 	constrain_range(true_range, expr->ino);
 
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
+	// A file on another device may have the same inode number, so there's
+	// nothing to learn when -samefile is false
 
 	return expr;
 }
-- 
2.43.0


From 9e37e1e61e1a5c54adcf0ee2ef3b56602aff8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 03/11] fix: opt: don't treat inode numbers above LLONG_MAX as
 impossible

The conversion to long long made them negative, hence outside of any
range, so -samefile was considered always false.
---
 src/opt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index df0e2e5..1f60b88 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1704,8 +1704,11 @@ static struct bfs_expr *data_flow_lname(struct bfs_opt *opt, struct bfs_expr *ex
 
 /** Transfer function for -samefile. */
 static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
-	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
-	constrain_range(true_range, expr->ino);
+	// All ranges we track are non-negative
+	if (expr->ino <= LLONG_MAX) {
+		struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
+		constrain_range(true_range, expr->ino);
+	}
 
 	// A file on another device may have the same inode number, so there's
 	// nothing to learn when -samefile is false
-- 
2.43.0


From 16ea16f8a7d19c25810b0ac38cb1dd84d798e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 04/11] fix: opt: don't infer -nouser/-nogroup when -uid/-gid
 is false

-uid N determines -nouser only when it is true.  Otherwise, expressions
like `! -uid N -nouser` were considered always true.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 1f60b88..4b0e5de 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1665,7 +1665,7 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1746,7 +1746,7 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From f2b786e8f8019288f56d3b6e66a111c678c4174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 05/11] fix: eval: avoid overflow when rounding up file sizes

A file of almost OFF_T_MAX bytes overflowed in -size and -sparse.
---
 src/eval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 0d1bf68..849e6a4 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -963,7 +963,7 @@ bool eval_size(const struct bfs_expr *expr, struct bfs_eval *state) {
 	};
 
 	off_t scale = scales[expr->size_unit];
-	off_t size = (statbuf->size + scale - 1) / scale; // Round up
+	off_t size = statbuf->size / scale + (statbuf->size % scale != 0); // Round up
 	return bfs_expr_cmp(expr, size);
 }
 
@@ -976,7 +976,7 @@ bool eval_sparse(const struct bfs_expr *expr, struct bfs_eval *state) {
 		return false;
 	}
 
-	blkcnt_t expected = (statbuf->size + BFS_STAT_BLKSIZE - 1) / BFS_STAT_BLKSIZE;
+	blkcnt_t expected = statbuf->size / BFS_STAT_BLKSIZE + (statbuf->size % BFS_STAT_BLKSIZE != 0);
 	return statbuf->blocks < expected;
 }
 
-- 
2.43.0


From 03d01951a0702aaac0bf4fc3a14a733f7efe798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 06/11] fix: bfstd: error_is_like() should look at the given
 error

---
 src/bfstd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfstd.c b/src/bfstd.c
index b78af7a..5d3cc31 100644
--- a/src/bfstd.c
+++ b/src/bfstd.c
@@ -53,7 +53,7 @@ bool error_is_like(int error, int category) {
 
 	case ENOSYS:
 		// https://github.com/opencontainers/runc/issues/2151
-		return errno == EPERM;
+		return error == EPERM;
 
 #if __DragonFly__
 	// https://twitter.com/tavianator/status/1742991411203485713
-- 
2.43.0


From 21a00f12e0784a20ddb2a4fa94080a0e3e864537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 07/11] fix: exec: flush -execdir ... + when returning to a
 shorter directory

With a root path like a/c/ and -depth, a/c/ itself has the working
directory of its children as a prefix, so it was executed from a/c
instead of a.
---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 45c9f1d..5b7e6d1 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -574,7 +574,7 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff > execbuf->wd_len
+		if (ftwbuf->nameoff != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From 126751eb74ffa1ebe8a4d9ad267f87908f3c0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 08/11] fix: parse: apply the umask to every action of a -perm
 clause

In a clause without a WHO like +r+w, the umask was applied only to the
first action.
---
 src/parse.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 9c39d6b..adab427 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1963,6 +1963,12 @@ static int parse_mode(const struct bfs_parser *parser, const char *mode, struct
 				who |= 0777;
 				break;
 			default:
+				if (who == 0) {
+					who = 0777;
+					mask = who & ~umask;
+				} else {
+					mask = who;
+				}
 				state = MODE_ACTION;
 				continue;
 			}
@@ -1986,13 +1992,6 @@ static int parse_mode(const struct bfs_parser *parser, const char *mode, struct
 			_fallthrough;
 
 		case MODE_ACTION:
-			if (who == 0) {
-				who = 0777;
-				mask = who & ~umask;
-			} else {
-				mask = who;
-			}
-
 			switch (*i) {
 			case '+':
 				op = MODE_PLUS;
-- 
2.43.0


From a82806161917ba27cc3dbfbecc3dcb9f707ab30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:33 +0000
Subject: [PATCH 09/11] fix: parse: reject -?time arguments that overflow

E.g. `-mtime +1000000000000000w` silently wrapped around.
---
 src/parse.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index adab427..2a6faf8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -992,18 +992,20 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 	expr->num = 0;
 
 	while (true) {
+		unsigned long long scale = 1;
+
 		switch (*tail) {
 		case 'w':
-			time *= 7;
+			scale *= 7;
 			_fallthrough;
 		case 'd':
-			time *= 24;
+			scale *= 24;
 			_fallthrough;
 		case 'h':
-			time *= 60;
+			scale *= 60;
 			_fallthrough;
 		case 'm':
-			time *= 60;
+			scale *= 60;
 			_fallthrough;
 		case 's':
 			break;
@@ -1012,7 +1014,11 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 			return NULL;
 		}
 
-		expr->num += time;
+		if (time > (LLONG_MAX - expr->num) / scale) {
+			parse_expr_error(parser, expr, "${bld}%pq${rs} is too large a time.\n", expr->argv[1]);
+			return NULL;
+		}
+		expr->num += time * scale;
 
 		if (!*++tail) {
 			break;
-- 
2.43.0


From bbda4f15e4e1a07f1878467e23458e0c2dd6fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:31 +0000
Subject: [PATCH 10/11] fix: don't treat code after an ignored negation as
 unreachable

The data flow pass replaces a pure expression whose result is ignored by
-false, but kept the facts of the original expression.  For a negation
of an ignored expression, both outcomes ended up unreachable, so

    bfs ! -type f , -print

printed nothing at -O2 and above.
---
 src/opt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opt.c b/src/opt.c
index 4b0e5de..810d75f 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1858,10 +1858,16 @@ done:
 /** Data flow visitor function. */
 static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	if (opt->ignore_result) {
+		struct bfs_expr *ignored = expr;
 		expr = opt_ignore(opt, expr, false);
 		if (!expr) {
 			return NULL;
 		}
+
+		if (expr != ignored) {
+			// We replaced a possibly-true expression with -false
+			df_join(&opt->after_false, &opt->after_true);
+		}
 	}
 
 	if (df_is_bottom(&opt->before)) {
-- 
2.43.0


From b481e6b78ab2e69160658f60a2c3865131990ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:57 +0000
Subject: [PATCH 11/11] fix: exec: forget the working directory if -execdir {}
 + can't open it

Otherwise the next file in the same directory fails the assertion that no
working directory is set, and bfs aborts.
---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 5b7e6d1..023488e 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -637,6 +637,9 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 
 	if ((execbuf->flags & BFS_EXEC_CHDIR) && execbuf->wd_fd < 0) {
 		if (bfs_exec_openwd(execbuf, ftwbuf) != 0) {
+			int error = errno;
+			bfs_exec_closewd(execbuf, ftwbuf);
+			errno = error;
 			ret = -1;
 			goto out_arg;
 		}
-- 
2.43.0

