// Contracts for src/printf.c: -printf directives.
//
// snprintf(), strftime() and vfprintf() are represented by stand-ins that
// record the values they are given; natively, the real output is compared.
// @file link=vf_libc.c unwind=9 def=VF_KEEP_VARARGS

#include "vf.h"
#include "prelude.h"
#include "printf.c"
#include "vf_env.h"

static struct bfs_stat G_sb;
static bool G_stat_ok;
static int G_stat_errno;
static struct BFTW FB;
static struct bfs_fmt F;
static CFILE C;
static char PATHBUF[8];

const struct bfs_stat *bftw_stat(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
	CHECK(ftwbuf == &FB && flags == FB.stat_flags, "the file itself is examined");
	if (!G_stat_ok) { errno = G_stat_errno; return NULL; }
	return &G_sb;
}

// What was formatted
static int G_prints;
static uintmax_t G_num[8];
static int G_nnums;
static const char *G_str;
static const char *G_buf;
static const char *G_sfmt;
/** Text that is compared when printed. */
static const char *G_expect;

#ifdef VF_NATIVE
static char *OUT;
static size_t OUTLEN;
static void out_open(void) { C.file = open_memstream(&OUT, &OUTLEN); }
static void out_close(void) { fclose(C.file); }
static void set_fmt(const char *s) { F.str = dstralloc(0); dstrcat(&F.str, s); }
#else
static FILE FILE_;
static void out_open(void) { C.file = &FILE_; }
static void out_close(void) { }
static void set_fmt(const char *s) { F.str = (dchar *)s; }
#undef snprintf
/** Record the numeric arguments; the format says how many. */
int snprintf(char *restrict buf, size_t size, const char *restrict format, ...) {
	va_list ap;
	va_start(ap, format);
	G_buf = buf;
	G_sfmt = format;
	G_nnums = 0;
	if (format[1] == 'j') {
		G_num[0] = va_arg(ap, uintmax_t);
		G_nnums = 1;
	}
	va_end(ap);
	return 1;
}
int vfprintf(FILE *restrict file, const char *restrict format, va_list ap) {
	CHECK(file == C.file, "output goes to the right file");
	CHECK(format == (const char *)F.str, "the user's flags, width and precision are used");
	++G_prints;
	size_t len = strlen(format);
	char last = format[len - 1];
	if (last == 's') {
		G_str = va_arg(ap, const char *);
		if (G_expect) {
			for (int i = 0; i < 8; ++i) {
				CHECK(G_str[i] == G_expect[i], "exactly the expected text is printed");
				if (!G_expect[i]) { break; }
			}
		}
	} else if (last == 'd') {
		G_num[0] = va_arg(ap, intmax_t);
	} else if (last == 'o') {
		G_num[0] = va_arg(ap, unsigned int);
	}
	return 1;
}
#endif

static void printed(const char *text) {
#ifdef VF_NATIVE
	CHECK(strcmp(OUT, text) == 0, "exactly the expected text is printed");
#else
	CHECK(G_prints == 1, "something is printed once");
	for (int i = 0; i < 8; ++i) {
		CHECK(G_str[i] == text[i], "exactly the expected text is printed");
		if (!text[i]) { break; }
	}
#endif
}

static void printed_num(uintmax_t num, const char *format) {
#ifdef VF_NATIVE
	char buf[64];
	snprintf(buf, sizeof(buf), format, num);
	CHECK(strcmp(OUT, buf) == 0, "exactly the file's value is printed");
#else
	CHECK(G_prints == 1 && G_nnums == 1 && G_str == G_buf, "one number is printed");
	CHECK(strcmp(G_sfmt, "%ju") == 0, "numbers are printed in decimal");
	CHECK(G_num[0] == num, "exactly the file's value is printed");
#endif
}

static void setup(const char *fmt) {
	HAVOC(F); HAVOC(C); HAVOC(FB);
	G_stat_ok = IN_BOOL("stat_ok");
	G_stat_errno = IN_RANGE(int, "stat_errno", 1, 133);
	G_sb.mask = BFS_STAT_MODE | BFS_STAT_DEV | BFS_STAT_INO | BFS_STAT_NLINK | BFS_STAT_GID | BFS_STAT_UID | BFS_STAT_SIZE | BFS_STAT_BLOCKS
		| BFS_STAT_ATIME | BFS_STAT_BTIME | BFS_STAT_CTIME | BFS_STAT_MTIME;
	G_sb.mode = IN(mode_t, "mode");
	G_sb.dev = IN(dev_t, "dev");
	G_sb.ino = IN(ino_t, "ino");
	G_sb.nlink = IN(nlink_t, "nlink");
	G_sb.gid = IN(gid_t, "gid");
	G_sb.uid = IN(uid_t, "uid");
	G_sb.size = IN_RANGE(off_t, "size", 0, INT64_MAX);
	G_sb.blocks = IN_RANGE(blkcnt_t, "blocks", 0, (INT64_MAX >> 10));
	C.colors = NULL;
	set_fmt(fmt);
	F.ptr = NULL;
	FB.path = PATHBUF;
	FB.root = PATHBUF;
	FB.nameoff = 0;
	G_prints = 0;
	G_str = NULL;
	G_expect = NULL;
	G_nnums = 0;
	errno = 0;
	out_open();
}

#define NUM_UNIT(h, f, value) void h(void) { \
	setup("%s"); \
	int r = f(&C, &F, &FB); \
	int e = errno; \
	out_close(); \
	CHECK((r < 0) == !G_stat_ok, "a file that cannot be examined is an error"); \
	if (G_stat_ok) { \
		printed_num(value, "%ju"); \
	} else { \
		CHECK(e == G_stat_errno, "the error is reported"); \
	} \
	DONE(); \
}
// @unit h_pf_b props=C24 covers=bfs_printf_b
NUM_UNIT(h_pf_b, bfs_printf_b, G_sb.blocks)
// @unit h_pf_D props=C24 covers=bfs_printf_D
NUM_UNIT(h_pf_D, bfs_printf_D, G_sb.dev)
// @unit h_pf_G props=C24 covers=bfs_printf_G
NUM_UNIT(h_pf_G, bfs_printf_G, G_sb.gid)
// @unit h_pf_i props=C24 covers=bfs_printf_i
NUM_UNIT(h_pf_i, bfs_printf_i, G_sb.ino)
// @unit h_pf_k props=C24 covers=bfs_printf_k
NUM_UNIT(h_pf_k, bfs_printf_k, ((uintmax_t)G_sb.blocks / 2 + (uintmax_t)G_sb.blocks % 2))
// @unit h_pf_n props=C24 covers=bfs_printf_n
NUM_UNIT(h_pf_n, bfs_printf_n, G_sb.nlink)
// @unit h_pf_s props=C24 covers=bfs_printf_s
NUM_UNIT(h_pf_s, bfs_printf_s, G_sb.size)
// @unit h_pf_U props=C24 covers=bfs_printf_U
NUM_UNIT(h_pf_U, bfs_printf_U, G_sb.uid)

// @unit h_pf_m props=C24 covers=bfs_printf_m
void h_pf_m(void) {
	setup("%o");
	int r = bfs_printf_m(&C, &F, &FB);
	out_close();
	CHECK((r < 0) == !G_stat_ok, "a file that cannot be examined is an error");
	if (G_stat_ok) {
#ifdef VF_NATIVE
		printed_num(G_sb.mode & 07777, "%jo");
#else
		CHECK(G_prints == 1 && G_num[0] == (G_sb.mode & 07777), "exactly the permission bits are printed");
#endif
	}
	DONE();
}

// @unit h_pf_d props=C24 covers=bfs_printf_d
void h_pf_d(void) {
	setup("%jd");
	FB.depth = IN_RANGE(size_t, "depth", 0, INT_MAX);
	int r = bfs_printf_d(&C, &F, &FB);
	out_close();
	CHECK(r >= 0, "the depth is always known");
#ifdef VF_NATIVE
	printed_num(FB.depth, "%jd");
#else
	CHECK(G_prints == 1 && G_num[0] == FB.depth, "exactly the depth is printed");
#endif
	DONE();
}

// ------------------------------------------------------------- names and paths

static bool G_known;
static char NAME[] = "me";
static struct group GRP = { .gr_name = NAME };
static struct passwd PWD = { .pw_name = NAME };
const struct group *bfs_getgrgid(struct bfs_groups *groups, gid_t gid) {
	CHECK(gid == G_sb.gid && (void *)groups == F.ptr, "the file's group is looked up");
	return G_known ? &GRP : NULL;
}
const struct passwd *bfs_getpwuid(struct bfs_users *users, uid_t uid) {
	CHECK(uid == G_sb.uid && (void *)users == F.ptr, "the file's owner is looked up");
	return G_known ? &PWD : NULL;
}
#define NAME_UNIT(h, f, id) void h(void) { \
	setup("%s"); \
	G_known = IN_BOOL("known"); \
	int r = f(&C, &F, &FB); \
	out_close(); \
	CHECK((r < 0) == !G_stat_ok, "a file that cannot be examined is an error"); \
	if (G_stat_ok && G_known) { printed("me"); } \
	if (G_stat_ok && !G_known) { printed_num(id, "%ju"); } \
	DONE(); \
}
// @unit h_pf_g props=C24 covers=bfs_printf_g
NAME_UNIT(h_pf_g, bfs_printf_g, G_sb.gid)
// @unit h_pf_u props=C24 covers=bfs_printf_u
NAME_UNIT(h_pf_u, bfs_printf_u, G_sb.uid)

#define NP 5
static size_t G_base, G_len, G_rootlen;
static char EXPECT[NP + 2];
static void some_path(void) {
	for (int i = 0; i < NP; ++i) {
		static const char alphabet[] = { 0, 'p', '/', 'q' };
		PATHBUF[i] = alphabet[IN_RANGE(uint8_t, "path", 0, 3)];
	}
	PATHBUF[NP] = 0;
	G_len = strlen(PATHBUF);
	ASSUME(G_len > 0);
	size_t end = G_len;
	while (end > 0 && PATHBUF[end - 1] == '/') { --end; }
	size_t base = end;
	while (base > 0 && PATHBUF[base - 1] != '/') { --base; }
	if (end == 0) { base = G_len - 1; }
	FB.nameoff = G_base = base;
}

// @unit h_pf_paths props=C24 covers=bfs_printf_f,bfs_printf_p,bfs_printf_H bounded="paths of at most 5 bytes"
void h_pf_paths(void) {
	setup("%s");
	some_path();
	static char root[] = "r";
	FB.root = root;
	int which = IN_RANGE(uint8_t, "which", 0, 2);
	int r = which == 0 ? bfs_printf_p(&C, &F, &FB) : which == 1 ? bfs_printf_f(&C, &F, &FB) : bfs_printf_H(&C, &F, &FB);
	out_close();
	CHECK(r >= 0, "paths are always known");
	printed(which == 0 ? PATHBUF : which == 1 ? PATHBUF + G_base : root);
	DONE();
}

// @unit h_pf_h props=C24,C18 covers=bfs_printf_h bounded="paths of at most 5 bytes"
void h_pf_h(void) {
	setup("%s");
	some_path();
	if (G_base == 0) {
		EXPECT[0] = PATHBUF[0] == '/' ? '/' : '.';
		EXPECT[1] = 0;
	} else {
		size_t n = G_base == 1 ? 1 : G_base - 1;
		for (size_t i = 0; i < NP; ++i) {
			if (i < n) { EXPECT[i] = PATHBUF[i]; }
		}
		EXPECT[n] = 0;
	}
	G_expect = EXPECT;
	int r = bfs_printf_h(&C, &F, &FB);
	out_close();
	CHECK(r >= 0, "the parent directory is always known");
#ifdef VF_NATIVE
	printed(EXPECT);
#else
	CHECK(G_prints == 1, "the parent directory is printed");
#endif
	DONE();
}

// @unit h_pf_P props=C24 covers=bfs_printf_P bounded="paths of at most 5 bytes"
void h_pf_P(void) {
	setup("%s");
	some_path();
	static char root[NP + 1];
	size_t n = IN_RANGE(uint8_t, "rootlen", 1, NP);
	ASSUME(n <= G_len);
	for (size_t i = 0; i < NP; ++i) { root[i] = i < n ? PATHBUF[i] : 0; }
	// Either the root itself, or something below it
	ASSUME(n == G_len || (PATHBUF[n] == '/') != (PATHBUF[n - 1] == '/'));
	FB.root = root;
	FB.depth = n < G_len;
	int r = bfs_printf_P(&C, &F, &FB);
	out_close();
	CHECK(r >= 0, "paths are always known");
	printed(PATHBUF + n + (PATHBUF[n] == '/'));
	DONE();
}

static enum bfs_type G_type;
static int G_type_errno;
enum bfs_type bftw_type(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
	CHECK(ftwbuf == &FB && flags == BFS_STAT_FOLLOW, "links are followed");
	if (G_type == BFS_ERROR) { errno = G_type_errno; }
	return G_type;
}
static char type_letter(enum bfs_type type) {
	switch (type) {
	case BFS_BLK: return 'b';
	case BFS_CHR: return 'c';
	case BFS_DIR: return 'd';
	case BFS_DOOR: return 'D';
	case BFS_FIFO: return 'p';
	case BFS_LNK: return 'l';
	case BFS_PORT: return 'P';
	case BFS_REG: return 'f';
	case BFS_SOCK: return 's';
	case BFS_WHT: return 'w';
	default: return 'U';
	}
}
// @unit h_pf_y props=C24 covers=bfs_printf_y,bfs_printf_type
void h_pf_y(void) {
	setup("%s");
	FB.type = IN_RANGE(int, "type", BFS_UNKNOWN, BFS_WHT);
	int r = bfs_printf_y(&C, &F, &FB);
	out_close();
	CHECK(r >= 0, "the type is always printed");
	EXPECT[0] = type_letter(FB.type);
	EXPECT[1] = 0;
	printed(EXPECT);
	DONE();
}
// @unit h_pf_Y props=C24,C12 covers=bfs_printf_Y link=vf_libc.c,bfstd.c
void h_pf_Y(void) {
	setup("%s");
	G_type = IN_RANGE(int, "type", BFS_ERROR, BFS_WHT);
	G_type_errno = IN_RANGE(int, "type_errno", 1, 133);
	int r = bfs_printf_Y(&C, &F, &FB);
	int e = errno;
	out_close();
	bool gone = G_type_errno == ENOENT || G_type_errno == ENOTDIR;
	bool failed = G_type == BFS_ERROR && G_type_errno != ELOOP && !gone;
	EXPECT[0] = G_type != BFS_ERROR ? type_letter(G_type) : G_type_errno == ELOOP ? 'L' : gone ? 'N' : '?';
	EXPECT[1] = 0;
	printed(EXPECT);
	CHECK((r < 0) == failed, "a target that cannot be examined is an error");
	CHECK(IMPLIES(failed, e == G_type_errno), "the error is reported");
	DONE();
}

static bool G_link_fails;
static char *G_link;
const struct bfs_stat *bftw_cached_stat(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
	CHECK(flags == BFS_STAT_NOFOLLOW, "the link itself is examined");
	return G_stat_ok ? &G_sb : NULL;
}
char *xreadlinkat(int fd, const char *path, size_t size) {
	CHECK(fd == 33 && path == PATHBUF, "the right link is read");
	if (G_link_fails) { errno = G_stat_errno; return NULL; }
	return G_link;
}
// @unit h_pf_l props=C24,C12 covers=bfs_printf_l
void h_pf_l(void) {
	setup("%s");
	FB.type = IN_RANGE(int, "type", BFS_UNKNOWN, BFS_WHT);
	FB.at_fd = 33;
	FB.at_path = PATHBUF;
	G_link_fails = IN_BOOL("link_fails");
	G_link = malloc(4);
	ASSUME(G_link);
	G_link[0] = 'l'; G_link[1] = 'n'; G_link[2] = 0;
	G_expect = FB.type == BFS_LNK ? "ln" : "";
	int r = bfs_printf_l(&C, &F, &FB);
	out_close();
	bool failed = FB.type == BFS_LNK && G_link_fails;
	CHECK((r < 0) == failed, "a link that cannot be read is an error");
	if (!failed) {
#ifdef VF_NATIVE
		printed(G_expect);
#else
		CHECK(G_prints == 1, "the target is printed");
#endif
	}
	DONE();
}

// @unit h_pf_M props=C24,C26 covers=bfs_printf_M native=no
void xstrmode(mode_t mode, char str[11]) {
	CHECK(mode == G_sb.mode, "the file's mode is printed");
	str[0] = 'M';
	str[1] = 0;
}
void h_pf_M(void) {
	setup("%s");
	G_expect = "M";
	int r = bfs_printf_M(&C, &F, &FB);
	CHECK((r < 0) == !G_stat_ok, "a file that cannot be examined is an error");
	CHECK(IMPLIES(G_stat_ok, G_prints == 1), "the mode is printed");
	DONE();
}

// ----------------------------------------------------------------- whole format

static int G_calls, G_fail_at, G_err[3];
static int step(CFILE *cfile, const struct bfs_fmt *fmt, const struct BFTW *ftwbuf) {
	CHECK(cfile == &C && ftwbuf == &FB, "the file is printed");
	CHECK(fmt->c == 'a' + G_calls, "directives are printed in order");
	int i = G_calls++;
	errno = G_err[i];
	return G_err[i] ? -1 : 1;
}
// @unit h_printf props=C24,C12 covers=bfs_printf bounded="at most 3 directives"
void h_printf(void) {
	for (size_t n = 0; n <= 3; ++n) {
		setup("%s");
		struct bfs_fmt fmts[3];
		struct bfs_printf p = { .fmts = fmts, .nfmts = n };
		int expect = 0;
		for (size_t i = 0; i < n; ++i) {
			fmts[i].fn = step;
			fmts[i].c = 'a' + i;
			G_err[i] = IN_BOOL("fails") ? IN_RANGE(int, "err", 1, 133) : 0;
			if (G_err[i]) { expect = G_err[i]; }
		}
		G_calls = 0;
		int r = bfs_printf(&C, &p, &FB);
		int e = errno;
		out_close();
		CHECK(G_calls == (int)n, "an error in one directive does not suppress the others");
		CHECK((r != 0) == (expect != 0) && e == expect, "an error in any directive is reported");
	}
	DONE();
}

// ------------------------------------------------------------------------ times

static struct tm TM;
static bool G_tm_ok;
static struct timespec G_ts;
static enum bfs_stat_field G_field;
static bool G_has_time;
const struct timespec *bfs_stat_time(const struct bfs_stat *buf, enum bfs_stat_field field) {
	CHECK(buf == &G_sb && field == F.stat_field, "the right timestamp is printed");
	if (!G_has_time) { errno = ENOTSUP; return NULL; }
	return &G_ts;
}
#ifndef VF_NATIVE
struct tm *localtime_r(const time_t *restrict t, struct tm *restrict tm) {
	CHECK(*t == G_ts.tv_sec, "the right time is converted");
	if (!G_tm_ok) { errno = EOVERFLOW; return NULL; }
	*tm = TM;
	return tm;
}
/** What each snprintf() format is supposed to be given. */
static const char *G_tfmt;
static char G_tletter;
int m_snprintf(char *restrict buf, size_t size, const char *restrict format, ...) {
	va_list ap;
	va_start(ap, format);
	G_buf = buf;
	CHECK(size == 256, "the buffer is as large as promised");
	CHECK(strcmp(format, G_tfmt) == 0, "the time is formatted as documented");
	switch (G_tletter) {
	case 0: {
		static const char days[] = "SunMonTueWedThuFriSat", months[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
		const char *day = va_arg(ap, const char *);
		const char *month = va_arg(ap, const char *);
		for (int i = 0; i < 3; ++i) {
			CHECK(day[i] == days[3 * TM.tm_wday + i], "the right weekday is printed");
			CHECK(month[i] == months[3 * TM.tm_mon + i], "the right month is printed");
		}
		CHECK(va_arg(ap, int) == TM.tm_mday, "the right day is printed");
		CHECK(va_arg(ap, int) == TM.tm_hour, "the right hour is printed");
		CHECK(va_arg(ap, int) == TM.tm_min, "the right minute is printed");
		CHECK(va_arg(ap, int) == TM.tm_sec, "the right second is printed");
		CHECK(va_arg(ap, long) == G_ts.tv_nsec, "the right nanosecond is printed");
		CHECK(va_arg(ap, int) == 1900 + TM.tm_year, "the right year is printed");
		break;
	}
	case '@':
		CHECK(va_arg(ap, long long) == G_ts.tv_sec, "the right second is printed");
		CHECK(va_arg(ap, long) == G_ts.tv_nsec, "the right nanosecond is printed");
		break;
	case '+':
		CHECK(va_arg(ap, int) == 1900 + TM.tm_year, "the right year is printed");
		CHECK(va_arg(ap, int) == TM.tm_mon + 1, "the right month is printed");
		CHECK(va_arg(ap, int) == TM.tm_mday, "the right day is printed");
		CHECK(va_arg(ap, int) == TM.tm_hour, "the right hour is printed");
		CHECK(va_arg(ap, int) == TM.tm_min, "the right minute is printed");
		CHECK(va_arg(ap, int) == TM.tm_sec, "the right second is printed");
		CHECK(va_arg(ap, long) == G_ts.tv_nsec, "the right nanosecond is printed");
		break;
	case 'k':
		CHECK(va_arg(ap, int) == TM.tm_hour, "the right hour is printed");
		break;
	case 'l':
		CHECK(va_arg(ap, int) == (TM.tm_hour % 12 == 0 ? 12 : TM.tm_hour % 12), "the right hour is printed");
		break;
	case 's':
		CHECK(va_arg(ap, long long) == G_ts.tv_sec, "the right second is printed");
		break;
	case 'S':
		CHECK(va_arg(ap, int) == TM.tm_sec, "the right second is printed");
		CHECK(va_arg(ap, long) == G_ts.tv_nsec, "the right nanosecond is printed");
		break;
	case 'T':
		CHECK(va_arg(ap, int) == TM.tm_hour, "the right hour is printed");
		CHECK(va_arg(ap, int) == TM.tm_min, "the right minute is printed");
		CHECK(va_arg(ap, int) == TM.tm_sec, "the right second is printed");
		CHECK(va_arg(ap, long) == G_ts.tv_nsec, "the right nanosecond is printed");
		break;
	default:
		CHECK(false, "strftime() formats the rest");
	}
	va_end(ap);
	return 1;
}
size_t strftime(char *restrict buf, size_t size, const char *restrict format, const struct tm *restrict tm) {
	CHECK(size == 256 && format[0] == '%' && format[1] == F.c && !format[2], "strftime() is given the letter the user wrote");
	CHECK(tm->tm_sec == TM.tm_sec && tm->tm_min == TM.tm_min && tm->tm_hour == TM.tm_hour && tm->tm_mday == TM.tm_mday, "strftime() is given the file's time");
	G_buf = buf;
	G_nnums = 99;
	return 1;
}
#endif
static void time_setup(void) {
	setup("%s");
	G_has_time = IN_BOOL("has_time");
	G_tm_ok = IN_BOOL("tm_ok");
	F.stat_field = IN_BOOL("mtime") ? BFS_STAT_MTIME : BFS_STAT_ATIME;
	G_ts.tv_sec = IN(time_t, "sec");
	G_ts.tv_nsec = IN_RANGE(long, "nsec", 0, 999999999);
	TM.tm_sec = IN_RANGE(int, "tm_sec", 0, 60);
	TM.tm_min = IN_RANGE(int, "tm_min", 0, 59);
	TM.tm_hour = IN_RANGE(int, "tm_hour", 0, 23);
	TM.tm_mday = IN_RANGE(int, "tm_mday", 1, 31);
	TM.tm_mon = IN_RANGE(int, "tm_mon", 0, 11);
	TM.tm_year = IN_RANGE(int, "tm_year", -5000, 1000000);
	TM.tm_wday = IN_RANGE(int, "tm_wday", 0, 6);
}
static void time_post(int r) {
	bool ok = G_stat_ok && G_has_time && G_tm_ok;
	CHECK((r >= 0) == ok, "a time that is unknown is an error");
	CHECK(IMPLIES(ok, G_prints == 1 && G_str == G_buf), "the formatted time is printed");
}
// @unit h_pf_ctime props=C24 covers=bfs_printf_ctime subst=snprintf:m_snprintf native=no unwind=40
void h_pf_ctime(void) {
#ifndef VF_NATIVE
	time_setup();
	G_tletter = 0;
	G_tfmt = "%s %s %2d %.2d:%.2d:%.2d.%09ld0 %4d";
	time_post(bfs_printf_ctime(&C, &F, &FB));
#endif
	DONE();
}
// @unit h_pf_strftime props=C24 covers=bfs_printf_strftime subst=snprintf:m_snprintf native=no unwind=40
void h_pf_strftime(void) {
#ifndef VF_NATIVE
	static const char letters[] = "@+klsSTaHYxZ%";
	for (int i = 0; i < (int)sizeof(letters) - 1; ++i) {
		time_setup();
		F.c = G_tletter = letters[i];
		switch (G_tletter) {
		case '@': G_tfmt = "%lld.%09ld0"; break;
		case '+': G_tfmt = "%4d-%.2d-%.2d+%.2d:%.2d:%.2d.%09ld0"; break;
		case 'k': case 'l': G_tfmt = "%2d"; break;
		case 's': G_tfmt = "%lld"; break;
		case 'S': G_tfmt = "%.2d.%09ld0"; break;
		case 'T': G_tfmt = "%.2d:%.2d:%.2d.%09ld0"; break;
		}
		int r = bfs_printf_strftime(&C, &F, &FB);
		time_post(r);
		CHECK(IMPLIES(r >= 0 && i >= 7, G_nnums == 99), "other letters are left to strftime()");
	}
#endif
	DONE();
}

// ---------------------------------------------------------------------- parsing

static struct bfs_ctx CTX;
static struct bfs_expr E;
const struct bfs_mtab *bfs_ctx_mtab(const struct bfs_ctx *ctx) { return (const struct bfs_mtab *)&CTX; }

static int parse(const char *format) {
	HAVOC(E); HAVOC(CTX);
	CTX.groups = (struct bfs_groups *)&E;
	CTX.users = (struct bfs_users *)&C;
	E.printf = NULL;
	vf_diags = 0;
	int r = bfs_printf_parse(&CTX, &E, format);
	CHECK((r == 0) == (vf_diags == 0) && (r == 0) == (E.printf != NULL), "a format is rejected exactly with a message");
	return r;
}

static bfs_printf_fn *fn_of(char c) {
	switch (c) {
	case 'a': case 'c': case 't': case 'w': return bfs_printf_ctime;
	case 'b': return bfs_printf_b;
	case 'd': return bfs_printf_d;
	case 'D': return bfs_printf_D;
	case 'f': return bfs_printf_f;
	case 'F': return bfs_printf_F;
	case 'g': return bfs_printf_g;
	case 'G': return bfs_printf_G;
	case 'h': return bfs_printf_h;
	case 'H': return bfs_printf_H;
	case 'i': return bfs_printf_i;
	case 'k': return bfs_printf_k;
	case 'l': return bfs_printf_l;
	case 'm': return bfs_printf_m;
	case 'M': return bfs_printf_M;
	case 'n': return bfs_printf_n;
	case 'p': return bfs_printf_p;
	case 'P': return bfs_printf_P;
	case 's': return bfs_printf_s;
	case 'S': return bfs_printf_S;
	case 'u': return bfs_printf_u;
	case 'U': return bfs_printf_U;
	case 'y': return bfs_printf_y;
	case 'Y': return bfs_printf_Y;
	case 'A': case 'B': case 'W': case 'C': case 'T': return bfs_printf_strftime;
	default: return NULL;
	}
}
static enum bfs_stat_field field_of(char c) {
	switch (c) {
	case 'a': case 'A': return BFS_STAT_ATIME;
	case 'c': case 'C': return BFS_STAT_CTIME;
	case 't': case 'T': return BFS_STAT_MTIME;
	case 'w': case 'W': case 'B': return BFS_STAT_BTIME;
	default: return 0;
	}
}
static void is_fmt(size_t i, const char *spec, char c) {
	const struct bfs_fmt *f = &E.printf->fmts[i];
	CHECK(f->fn == fn_of(c), "each letter prints what it is documented to");
	CHECK(strcmp(f->str, spec) == 0, "flags, width and precision are kept, with the right conversion");
	CHECK(IMPLIES(field_of(c), f->stat_field == field_of(c)), "each letter prints its own timestamp");
	CHECK(IMPLIES(c == 'g', f->ptr == CTX.groups) && IMPLIES(c == 'u', f->ptr == CTX.users) && IMPLIES(c == 'F', f->ptr == &CTX), "names are looked up in the right table");
}
static void is_literal(size_t i, const char *str, size_t len) {
	const struct bfs_fmt *f = &E.printf->fmts[i];
	CHECK(f->fn == bfs_printf_literal, "other text is printed as is");
	CHECK(dstrlen(f->str) == len && memcmp(f->str, str, len) == 0, "other text is printed unchanged");
}

// @unit h_parse_letters props=C24 covers=bfs_printf_parse,append_directive,append_literal link=vf_libc.c,dstring.c,alloc.c unwind=300
void h_parse_letters(void) {
	for (int c = 1; c < 256; ++c) {
		char format[] = { '%', c, 0, 0 };
		bool time = c == 'A' || c == 'B' || c == 'W' || c == 'C' || c == 'T';
		if (time) { format[2] = 'H'; }
		// Flags, widths and precisions are not directives of their own
		if (c == '%' || c == '-' || c == '+' || c == '#' || c == ' ' || c == '.' || (c >= '0' && c <= '9') || c == 'Z') { continue; }
		int r = parse(format);
		if (!fn_of(c)) {
			CHECK(r != 0, "unknown directives are rejected");
		} else {
			CHECK(r == 0 && E.printf->nfmts == 1, "documented directives are accepted");
			is_fmt(0, c == 'd' ? "%jd" : c == 'm' ? "%o" : c == 'S' ? "%g" : "%s", c);
			CHECK(IMPLIES(time, E.printf->fmts[0].c == 'H'), "the time letter is kept");
		}
	}
	DONE();
}

static void parse_times(int from, int to) {
	static const char valid[] = "%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ";
	for (int c = from; c < to; ++c) {
		char format[] = { '%', 'T', c, 0 };
		bool ok = false;
		for (size_t i = 0; i < sizeof(valid) - 1; ++i) {
			if (valid[i] == (char)c) { ok = true; }
		}
		int r = parse(format);
		CHECK((r == 0) == ok, "exactly the documented time letters are accepted");
		if (r == 0) {
			CHECK(E.printf->nfmts == 1 && E.printf->fmts[0].c == (char)c, "the time letter is kept");
			is_fmt(0, "%s", 'T');
		}
	}
	DONE();
}

// @unit h_parse_times0 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_times0(void) { parse_times(0, 72); }
// @unit h_parse_times1 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_times1(void) { parse_times(72, 96); }
// @unit h_parse_times2 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_times2(void) { parse_times(96, 128); }
// @unit h_parse_times3 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_times3(void) { parse_times(128, 192); }
// @unit h_parse_times4 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_times4(void) { parse_times(192, 256); }

// @unit h_parse_flags props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=40 bounded="a table of formats"
void h_parse_flags(void) {
	static const struct { const char *format, *spec; char c; } table[] = {
		{ "%-p", "%-s", 'p' }, { "%10p", "%10s", 'p' }, { "%-10p", "%-10s", 'p' }, { "%.3f", "%.3s", 'f' }, { "%-12.34f", "%-12.34s", 'f' },
		{ "%05d", "%05jd", 'd' }, { "%+d", "%+jd", 'd' }, { "%#m", "%#o", 'm' }, { "%04m", "%04o", 'm' }, { "%-#6m", "%-#6o", 'm' }, { "%# 0+-d", "%# 0+-jd", 'd' },
		{ "%.2S", "%.2g", 'S' }, { "%-5TH", "%-5s", 'T' }, { "%.0p", "%.0s", 'p' }, { "%.p", "%.s", 'p' }, { "%100p", "%100s", 'p' },
		{ "%--p", NULL, 0 }, { "%+p", NULL, 0 }, { "%0p", NULL, 0 }, { "%#s", NULL, 0 }, { "% f", NULL, 0 }, { "%+TH", NULL, 0 }, { "%00d", NULL, 0 },
		{ "%", NULL, 0 }, { "%-", NULL, 0 }, { "%5", NULL, 0 }, { "%.", NULL, 0 }, { "%T", NULL, 0 }, { "%5%", NULL, 0 }, { "%.1.1p", NULL, 0 },
	};
	for (size_t i = 0; i < sizeof(table) / sizeof(table[0]); ++i) {
		int r = parse(table[i].format);
		CHECK((r == 0) == (table[i].spec != NULL), "exactly meaningful flags are accepted");
		if (r == 0 && table[i].spec) {
			CHECK(E.printf->nfmts == 1, "one directive is one directive");
			is_fmt(0, table[i].spec, table[i].c);
		}
	}
	DONE();
}

// @unit h_parse_escapes props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=300
void h_parse_escapes(void) {
	for (int c = 0; c < 256; ++c) {
		char format[] = { 'x', '\\', c, 'y', 0 };
		int r = parse(format);
		static const char from[] = "abfnrtv\\", to[] = "\a\b\f\n\r\t\v\\";
		char lit[] = "x?y";
		bool ok = false;
		for (int i = 0; from[i]; ++i) {
			if (from[i] == (char)c) { lit[1] = to[i]; ok = true; }
		}
		if (c >= '0' && c <= '7') { lit[1] = c - '0'; ok = true; }
		if (c == 'c') {
			CHECK(r == 0 && E.printf->nfmts == 2, "\\c ends the format");
			is_literal(0, "x", 1);
			CHECK(E.printf->fmts[1].fn == bfs_printf_flush, "\\c flushes the output");
		} else {
			CHECK((r == 0) == ok, "exactly the documented escapes are accepted");
			if (r == 0) {
				CHECK(E.printf->nfmts == 1, "literal text is one piece");
				is_literal(0, lit, 3);
			}
		}
	}
	DONE();
}

static void parse_octal(int from, int to) {
	for (int v = from; v < to; ++v) {
		char format[] = { '\\', '0' + v / 64, '0' + v / 8 % 8, '0' + v % 8, '7', 0 };
		CHECK(parse(format) == 0 && E.printf->nfmts == 1, "octal escapes are accepted");
		char lit[] = { v, '7' };
		is_literal(0, lit, 2);
	}
	char two[] = "\\128";
	CHECK(parse(two) == 0, "short octal escapes are accepted");
	is_literal(0, "\n8", 2);
	DONE();
}

// @unit h_parse_octal0 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_octal0(void) { parse_octal(0, 64); }
// @unit h_parse_octal1 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_octal1(void) { parse_octal(64, 128); }
// @unit h_parse_octal2 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_octal2(void) { parse_octal(128, 192); }
// @unit h_parse_octal3 props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=100
void h_parse_octal3(void) { parse_octal(192, 256); }

// @unit h_parse_seq props=C24 covers=bfs_printf_parse link=vf_libc.c,dstring.c,alloc.c unwind=40 bounded="one format with every kind of piece"
void h_parse_seq(void) {
	CHECK(parse("a%%b%p%f-\\n%m%%") == 0 && E.printf->nfmts == 6, "every piece is kept");
	is_literal(0, "a%b", 3);
	is_fmt(1, "%s", 'p');
	is_fmt(2, "%s", 'f');
	is_literal(3, "-\n", 2);
	is_fmt(4, "%o", 'm');
	is_literal(5, "%", 1);
	CHECK(parse("") == 0 && E.printf->nfmts == 0, "the empty format prints nothing");
	DONE();
}
