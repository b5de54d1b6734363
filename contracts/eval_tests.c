// Contracts for the stat()-based tests of src/eval.c.
// @file link=expr.c,stat.c,xtime.c,bfstd.c,vf_libc.c

#include "vf.h"
#include "prelude.h"
#include "eval.h"
#include "expr.h"
#include "bftw.h"
#include "stat.h"
#include "ctx.h"
#include "vf_env.h"
#include <errno.h>
#include <stdlib.h>

struct bfs_eval;

// --------------------------------------------------------------- ghost state

/** What the environment will do: the stat() result for the current file. */
static struct bfs_stat G_sb;
static bool G_stat_ok;
static int G_stat_errno;
static int G_stat_calls;
/** Whether the fields the test needs were filled in by stat(). */
static bool G_field_ok = true;

static struct bfs_expr E;
static struct BFTW FB;
static struct bfs_ctx CTX;
static CFILE CERR;
static int RETV, RETV0;
static size_t NERR, NERR0;

// ------------------------------------------------------------- specification

/** N, +N, -N. */
static bool spec_cmp(enum bfs_int_cmp cmp, long long num, __int128 value) {
	if (cmp == BFS_INT_LESS) { return value < num; }
	if (cmp == BFS_INT_GREATER) { return value > num; }
	return value == num;
}

static __int128 spec_unit(enum bfs_size_unit unit) {
	switch (unit) {
	case BFS_BYTES: return 1;
	case BFS_WORDS: return 2;
	case BFS_BLOCKS: return 512;
	case BFS_KB: return (__int128)1 << 10;
	case BFS_MB: return (__int128)1 << 20;
	case BFS_GB: return (__int128)1 << 30;
	case BFS_TB: return (__int128)1 << 40;
	case BFS_PB: return (__int128)1 << 50;
	}
	return 0;
}

/** -size N: the size, rounded up to the next unit, compares to N. */
static bool spec_size(const struct bfs_expr *expr, off_t size) {
	// ceil(size/unit) < N <=> size <= (N-1)*unit, etc., in unbounded integers
	__int128 unit = spec_unit(expr->size_unit), num = expr->num;
	bool less = size <= (num - 1) * unit;
	bool greater = size > num * unit;
	if (expr->int_cmp == BFS_INT_LESS) { return less; }
	if (expr->int_cmp == BFS_INT_GREATER) { return greater; }
	return !less && !greater;
}

static bool spec_sparse(void) {
	// fewer blocks than ceil(size/512)
	return (__int128)G_sb.blocks * 512 < G_sb.size;
}

/** -perm MODE, -perm -MODE, -perm /MODE. */
static bool spec_perm(const struct bfs_expr *expr, mode_t mode, bool dir) {
	mode_t target = dir ? expr->dir_mode : expr->file_mode;
	mode_t perm = mode & 07777;
	if (expr->mode_cmp == BFS_MODE_EQUAL) { return perm == target; }
	if (expr->mode_cmp == BFS_MODE_ALL) { return (target & ~perm) == 0; }
	return target == 0 || (perm & target) != 0;
}

static const struct timespec *spec_field(enum bfs_stat_field field) {
	switch (field) {
	case BFS_STAT_ATIME: return &G_sb.atime;
	case BFS_STAT_BTIME: return &G_sb.btime;
	case BFS_STAT_CTIME: return &G_sb.ctime;
	default: return &G_sb.mtime;
	}
}

static bool spec_has(enum bfs_stat_field field) {
	return (G_sb.mask & field) != 0;
}

/** Strictly later than the reference time, to the nanosecond. */
static bool spec_newer(const struct bfs_expr *expr) {
	if (!spec_has(expr->stat_field)) { return false; }
	const struct timespec *t = spec_field(expr->stat_field);
	const struct timespec *ref = &expr->reftime;
	return t->tv_sec > ref->tv_sec || (t->tv_sec == ref->tv_sec && t->tv_nsec > ref->tv_nsec);
}

/** Whole seconds from b to a (rounded down). */
static long long spec_seconds(const struct timespec *a, const struct timespec *b) {
	return a->tv_sec - b->tv_sec - (a->tv_nsec < b->tv_nsec);
}

/** The largest age (in seconds) considered: about 2^34 s, 544 years. */
#ifndef MAX_AGE
#  define MAX_AGE (1LL << 34)
#endif

/** Ghost: the quotient the specification talks about (see in_quot()). */
static long long G_quot;

/** Ghost G_quot := trunc(secs/unit), characterised by multiplication. */
static void in_quot(long long secs, long long unit) {
#ifdef VF_NATIVE
	G_quot = secs / unit;
#else
	long long q;
	ASSUME(q >= -MAX_AGE && q <= MAX_AGE);
	if (secs >= 0) {
		ASSUME(q >= 0 && q * unit <= secs && secs < q * unit + unit);
	} else {
		ASSUME(q <= 0 && q * unit >= secs && secs > q * unit - unit);
	}
	G_quot = q;
#endif
}

static long long spec_unit_secs(enum bfs_time_unit unit) {
	return unit == BFS_DAYS ? 24 * 60 * 60 : unit == BFS_MINUTES ? 60 : 1;
}

/** -[aBcm]time N (days), -[aBcm]min N (minutes), -[aBcm]since (seconds). */
static bool spec_time(const struct bfs_expr *expr) {
	if (!spec_has(expr->stat_field)) { return false; }
	return spec_cmp(expr->int_cmp, expr->num, G_quot);
}

/** -used N: days (rounded up) between the status change and the access. */
static bool spec_used(const struct bfs_expr *expr) {
	if (!spec_has(BFS_STAT_ATIME) || !spec_has(BFS_STAT_CTIME)) { return false; }
	long long secs = spec_seconds(&G_sb.atime, &G_sb.ctime);
	if (secs < 0) { return false; }
	return spec_cmp(expr->int_cmp, expr->num, G_quot);
}

static bool spec_flags(const struct bfs_expr *expr) {
	if (!spec_has(BFS_STAT_ATTRS)) { return false; }
	unsigned long long a = G_sb.attrs, set = expr->set_flags, clear = expr->clear_flags;
	switch (expr->flags_cmp) {
	case BFS_MODE_EQUAL: return a == set && (a & clear) == 0;
	case BFS_MODE_ALL: return (set & ~a) == 0 && (a & clear) == 0;
	default: return (a & set) != 0 || (clear & ~a) != 0;
	}
}

/** Exactly one error is accounted for, in the way POSIX and -noerror require. */
static bool post_error(void) {
	return NERR == NERR0 + 1
		&& RETV == (CTX.ignore_errors ? RETV0 : EXIT_FAILURE)
		&& (CTX.ignore_errors ? vf_diags == 0 : vf_diags > 0);
}
/** No error is accounted for. */
static bool post_noerror(void) {
	return NERR == NERR0 && RETV == RETV0 && vf_diags == 0;
}
/** An errno-style failure: reported unless -ignore_readdir_race applies. */
static bool post_report(int error) {
	bool ignored = CTX.ignore_races && (error == ENOENT || error == ENOTDIR) && FB.depth > 0;
	return ignored ? post_noerror() : post_error();
}

// ------------------------------------------------- contracts + the real code

#ifdef VF_CONTRACTS
#include "eval_contracts.h"
#endif

#include "eval.c"

// ---------------------------------------------------------------- environment

const struct bfs_stat *bftw_stat(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
	CHECK(flags == ftwbuf->stat_flags, "stat() follows the -P/-H/-L choice for this file");
	++G_stat_calls;
	if (G_stat_ok) {
		return &G_sb;
	}
	errno = G_stat_errno;
	return NULL;
}

int cvfprintf(CFILE *cfile, const char *format, va_list args) { ++vf_diags; return 0; }

static struct bfs_eval ST;

static void setup(void) {
	HAVOC(E); HAVOC(ST); HAVOC(FB); HAVOC(CTX);
	ST.ftwbuf = &FB;
	ST.ctx = &CTX;
	ST.ret = &RETV;
	ST.nerrors = &NERR;
	ST.action = BFTW_CONTINUE;
	ST.quit = false;
	CTX.cerr = &CERR;
	CTX.ignore_errors = IN_BOOL("ignore_errors");
	CTX.ignore_races = IN_BOOL("ignore_races");
	FB.depth = IN(size_t, "depth");
	FB.type = IN_RANGE(int, "type", BFS_UNKNOWN, BFS_WHT);
	FB.stat_flags = IN_BOOL("follow") ? BFS_STAT_TRYFOLLOW : BFS_STAT_NOFOLLOW;
	RETV0 = RETV = IN_RANGE(int, "ret0", 0, 255);
	NERR0 = NERR = IN_RANGE(size_t, "nerr0", 0, 1000);
	G_stat_ok = IN_BOOL("stat_ok");
	G_stat_errno = IN_RANGE(int, "stat_errno", 1, 133);
	G_stat_calls = 0;
	G_field_ok = true;
	vf_diags = 0;
	errno = IN_RANGE(int, "errno0", 0, 133);
	G_sb.mask = 0x7FFF;
	G_sb.mode = IN(mode_t, "mode");
	G_sb.dev = IN(dev_t, "dev");
	G_sb.ino = IN(ino_t, "ino");
	G_sb.nlink = IN(nlink_t, "nlink");
	G_sb.uid = IN(uid_t, "uid");
	G_sb.gid = IN(gid_t, "gid");
	G_sb.size = IN(off_t, "size");
	G_sb.blocks = IN(blkcnt_t, "blocks");
	G_sb.attrs = IN(unsigned long long, "attrs");
	ASSUME(G_sb.size >= 0 && G_sb.blocks >= 0);
	ASSUME(G_sb.nlink <= LLONG_MAX);
	ASSUME(G_sb.ino <= LLONG_MAX);
}

#ifndef TIME_BITS
#  define TIME_BITS 61
#endif
static void in_time(struct timespec *ts, long long sec, long nsec) {
	ts->tv_sec = sec;
	ts->tv_nsec = nsec;
}
#define TIME_MAX (1LL << TIME_BITS)
#define IN_TIME(ts, id) in_time(ts, IN_RANGE(long long, id ".sec", -TIME_MAX, TIME_MAX), IN_RANGE(long, id ".nsec", 0, 999999999L))

static void post_stat(bool r, bool want) {
	if (G_stat_ok) {
		CHECK(r == want, "the test is true exactly when the file's attribute satisfies it");
		if (G_field_ok) {
			CHECK(post_noerror(), "a successful test reports no error");
		} else {
			CHECK(NERR > NERR0 && RETV == (CTX.ignore_errors ? RETV0 : EXIT_FAILURE), "a missing attribute is reported as an error");
		}
	} else {
		CHECK(!r, "a test whose stat() fails is false");
		CHECK(post_report(G_stat_errno), "a failed stat() is reported and makes the exit status non-zero (unless -noerror / -ignore_readdir_race)");
	}
	CHECK(ST.action == BFTW_CONTINUE && !ST.quit, "a test neither prunes nor quits");
}
static void in_cmp(void) {
	E.num = IN(long long, "num");
	ASSUME(E.num >= 0);
	E.int_cmp = IN_RANGE(int, "int_cmp", BFS_INT_EQUAL, BFS_INT_GREATER);
}

// @unit h_expr_cmp enforce=bfs_expr_cmp props=C01,C02
void h_expr_cmp(void) {
	setup();
	E.num = IN(long long, "num");
	E.int_cmp = IN_RANGE(int, "int_cmp", BFS_INT_EQUAL, BFS_INT_GREATER);
	long long n = IN(long long, "n");
	bool r = bfs_expr_cmp(&E, n);
	CHECK(r == spec_cmp(E.int_cmp, E.num, n), "N, +N and -N mean equal, greater and less");
	DONE();
}

#define ICMP(h, f, val) void h(void) { \
	setup(); in_cmp(); \
	E.eval_fn = f; \
	bool r = f(&E, &ST); \
	post_stat(r, spec_cmp(E.int_cmp, E.num, val)); \
	DONE(); \
}

// @unit h_links enforce=eval_links replace=bfs_expr_cmp props=C01,C12
ICMP(h_links, eval_links, G_sb.nlink)
// @unit h_inum enforce=eval_inum replace=bfs_expr_cmp props=C01,C12 assume="inode numbers are at most LLONG_MAX"
ICMP(h_inum, eval_inum, G_sb.ino)
// @unit h_uid enforce=eval_uid replace=bfs_expr_cmp props=C01,C12
ICMP(h_uid, eval_uid, G_sb.uid)
// @unit h_gid enforce=eval_gid replace=bfs_expr_cmp props=C01,C12
ICMP(h_gid, eval_gid, G_sb.gid)

// @unit h_depth enforce=eval_depth replace=bfs_expr_cmp props=C01
void h_depth(void) {
	setup(); in_cmp();
	ASSUME(FB.depth <= LLONG_MAX);
	bool r = eval_depth(&E, &ST);
	CHECK(r == spec_cmp(E.int_cmp, E.num, FB.depth), "-depth N compares the depth of the file");
	CHECK(post_noerror(), "no error");
	DONE();
}

// @unit h_size enforce=eval_size replace=bfs_expr_cmp props=C01,C12
void h_size(void) {
	setup(); in_cmp();
	E.size_unit = IN_RANGE(int, "size_unit", BFS_BLOCKS, BFS_PB);
	bool r = eval_size(&E, &ST);
	post_stat(r, spec_size(&E, G_sb.size));
	DONE();
}

// @unit h_sparse enforce=eval_sparse props=C01,C12
void h_sparse(void) {
	setup();
	bool r = eval_sparse(&E, &ST);
	post_stat(r, spec_sparse());
	DONE();
}

// @unit h_samefile enforce=eval_samefile props=C01,C12
void h_samefile(void) {
	setup();
	E.dev = IN(dev_t, "e.dev");
	E.ino = IN(ino_t, "e.ino");
	bool r = eval_samefile(&E, &ST);
	post_stat(r, G_sb.dev == E.dev && G_sb.ino == E.ino);
	DONE();
}

// @unit h_perm enforce=eval_perm props=C03,C12
void h_perm(void) {
	setup();
	E.mode_cmp = IN_RANGE(int, "mode_cmp", BFS_MODE_EQUAL, BFS_MODE_ANY);
	E.file_mode = IN_RANGE(mode_t, "file_mode", 0, 07777);
	E.dir_mode = IN_RANGE(mode_t, "dir_mode", 0, 07777);
	bool r = eval_perm(&E, &ST);
	post_stat(r, spec_perm(&E, G_sb.mode, FB.type == BFS_DIR));
	DONE();
}

// @unit h_flags enforce=eval_flags props=C12
void h_flags(void) {
	setup();
	E.flags_cmp = IN_RANGE(int, "flags_cmp", BFS_MODE_EQUAL, BFS_MODE_ANY);
	E.set_flags = IN(unsigned long long, "set");
	E.clear_flags = IN(unsigned long long, "clear");
	if (IN_BOOL("noattrs")) {
		G_sb.mask &= ~BFS_STAT_ATTRS;
		G_field_ok = false;
	}
	bool r = eval_flags(&E, &ST);
	post_stat(r, spec_flags(&E));
	DONE();
}

static void setup_times(void) {
	setup(); in_cmp();
	IN_TIME(&G_sb.atime, "atime");
	IN_TIME(&G_sb.btime, "btime");
	IN_TIME(&G_sb.ctime, "ctime");
	IN_TIME(&G_sb.mtime, "mtime");
	IN_TIME(&E.reftime, "reftime");
	int f = IN_RANGE(int, "field", 0, 3);
	E.stat_field = f == 0 ? BFS_STAT_ATIME : f == 1 ? BFS_STAT_BTIME : f == 2 ? BFS_STAT_CTIME : BFS_STAT_MTIME;
	if (IN_BOOL("missing")) {
		G_sb.mask &= ~E.stat_field;
		G_field_ok = false;
	}
}

// @unit h_newer enforce=eval_newer props=C02,C12
void h_newer(void) {
	setup_times();
	bool r = eval_newer(&E, &ST);
	post_stat(r, spec_newer(&E));
	DONE();
}

// @unit h_time enforce=eval_time props=C02,C12 replace=bfs_expr_cmp assume="timestamps are within +-2^61 seconds of the epoch and within 2^34 seconds (544 years) of each other"
void h_time(void) {
	setup_times();
	E.time_unit = IN_RANGE(int, "time_unit", BFS_SECONDS, BFS_DAYS);
	long long age = spec_seconds(&E.reftime, spec_field(E.stat_field));
	ASSUME(age >= -MAX_AGE && age <= MAX_AGE);
	in_quot(age, spec_unit_secs(E.time_unit));
	bool r = eval_time(&E, &ST);
	post_stat(r, spec_time(&E));
	DONE();
}

// @unit h_used enforce=eval_used props=C02,C12 replace=bfs_expr_cmp assume="timestamps are within +-2^61 seconds of the epoch and within 2^34 seconds (544 years) of each other"
void h_used(void) {
	setup_times();
	G_field_ok = spec_has(BFS_STAT_ATIME) && spec_has(BFS_STAT_CTIME);
	long long age = spec_seconds(&G_sb.atime, &G_sb.ctime);
	ASSUME(age >= -MAX_AGE && age <= MAX_AGE);
	// Rounded up
	in_quot(age < 0 ? 0 : age + 24 * 60 * 60 - 1, 24 * 60 * 60);
	bool r = eval_used(&E, &ST);
	post_stat(r, spec_used(&E));
	DONE();
}

// @unit h_type enforce=eval_type props=C04
void h_type(void) {
	setup();
	E.num = IN_RANGE(long long, "num", 0, 0x7FF);
	bool r = eval_type(&E, &ST);
	CHECK(r == (((unsigned long long)E.num >> FB.type) & 1), "-type is true exactly for the listed types");
	CHECK(post_noerror(), "no error");
	DONE();
}
