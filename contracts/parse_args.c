// Contracts for the argument parsers of src/parse.c.
//
// xstrtoll() is represented by an adversarial stand-in that may return any
// value and stop at any position: what is proved here holds for every digit
// string.  xstrtoll() itself is under contract in bfstd_num.c.
// @file props=C07 unwind=9

#include "vf.h"
#include "prelude.h"
#include "parse.h"
#include "expr.h"
#include "eval.h"
#include "ctx.h"
#include "stat.h"
#include "bfstd.h"
#include "xtime.h"
#include "vf_env.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>

struct bfs_parser;
enum int_flags;

// --------------------------------------------------------------- ghost state

/** What each conversion did. */
#define NCONV 5
static struct {
	bool ok;
	bool range;
	long long value;
	const char *str;
	const char *end;
	int base;
} G_conv[NCONV];
static int G_nconv;
/** Restrictions used by some harnesses. */
static bool G_convtable;
static const long long CONVTABLE[16] = {
	-1, 0, 1, 2, 60, 86400,
	LLONG_MAX / 604800, LLONG_MAX / 604800 + 1,
	LLONG_MAX / 86400, LLONG_MAX / 86400 + 1,
	LLONG_MAX / 3600, LLONG_MAX / 3600 + 1,
	LLONG_MAX / 60, LLONG_MAX / 60 + 1,
	LLONG_MAX - 1, LLONG_MAX,
};

static struct bfs_expr E;
static struct bfs_ctx CTX;
static CFILE CERR;
static bool G_have_expr;

/** The command line: a program name, a predicate, and its argument. */
#define ARGLEN 7
static char ARG0[] = "bfs", ARG1[] = "-test", ARG2[ARGLEN + 1];
static char *ARGV[4];
static enum bfs_kind KINDS[4];

// ------------------------------------------------------------- specification

/** The lone conversion succeeded, so its exact value is representable. */
static bool conv_is(const char *str, int base) {
	return G_nconv == 1 && G_conv[0].ok && G_conv[0].str == str && G_conv[0].base == base;
}

/** [+-]N */
static enum bfs_int_cmp spec_sign(const char *arg) {
	return arg[0] == '-' ? BFS_INT_LESS : arg[0] == '+' ? BFS_INT_GREATER : BFS_INT_EQUAL;
}
static size_t spec_skip(const char *arg) {
	return arg[0] == '-' || arg[0] == '+';
}

#ifdef VF_CONTRACTS
#  define PFRAME errno, vf_diags, vf_warnings, G_nconv, __CPROVER_object_whole(G_conv), \
	__CPROVER_object_whole(&E), G_have_expr, __CPROVER_object_whole(&P), __CPROVER_object_whole(&CTX), __CPROVER_object_whole(KINDS)
extern struct bfs_parser P;
#endif

#include "parse.c"

struct bfs_parser P;

// ---------------------------------------------------------------- environment

int xstrtoll(const char *str, char **end, int base, long long *value) {
	CHECK(G_nconv < NCONV, "no more conversions than components");
	int i = G_nconv++;
	G_conv[i].str = str;
	G_conv[i].base = base;
	G_conv[i].ok = IN_BOOL("conv_ok");
	G_conv[i].range = IN_BOOL("conv_range");
	if (G_convtable) {
		G_conv[i].value = CONVTABLE[IN_RANGE(int, "conv_index", 0, 15)];
	} else {
		G_conv[i].value = IN(long long, "conv_value");
	}
	size_t len = strlen(str);
	if (len == 0 || (str[0] == ' ')) {
		G_conv[i].ok = false;
		G_conv[i].range = false;
	}
	if (!G_conv[i].ok) {
		errno = G_conv[i].range ? ERANGE : EINVAL;
		return -1;
	}
	G_conv[i].end = str + IN_RANGE(size_t, "conv_len", 1, len);
	*value = G_conv[i].value;
	*end = (char *)G_conv[i].end;
	return 0;
}

struct bfs_expr *bfs_expr_new(struct bfs_ctx *ctx, bfs_eval_fn *eval_fn, size_t argc, char **argv, enum bfs_kind kind) {
	CHECK(!G_have_expr, "one expression per argument");
	G_have_expr = true;
	memset(&E, 0, sizeof(E));
	E.eval_fn = eval_fn;
	E.argc = argc;
	E.argv = argv;
	E.kind = kind;
	return &E;
}

int cvfprintf(CFILE *cfile, const char *format, va_list args) { return 0; }

static void setup(void) {
	HAVOC(E); HAVOC(CTX); HAVOC(P); HAVOC(G_conv);
	IN_STRING("arg", ARG2, ARGLEN);
	ARGV[0] = ARG0; ARGV[1] = ARG1; ARGV[2] = ARG2; ARGV[3] = NULL;
	CTX.argc = 3;
	CTX.argv = ARGV;
	CTX.kinds = KINDS;
	CTX.cerr = &CERR;
	CTX.umask = IN_RANGE(mode_t, "umask", 0, 0777);
	CTX.flags = 0;
	P.ctx = &CTX;
	P.argv = ARGV + 1;
	P.last_arg = NULL;
	P.now.tv_sec = IN(int64_t, "now");
	P.now.tv_nsec = IN_RANGE(long, "now_ns", 0, 999999999L);
	G_nconv = 0;
	G_convtable = false;
	G_have_expr = false;
	vf_diags = 0;
	errno = IN_RANGE(int, "errno0", 0, 133);
}

static void common_post(const struct bfs_expr *ret) {
	CHECK(ret == NULL || ret == &E, "the expression that was created is returned");
	CHECK(IMPLIES(!ret, vf_diags > 0), "a rejected argument is diagnosed");
	CHECK(IMPLIES(ret, vf_diags == 0), "an accepted argument is not diagnosed");
}

// ---------------------------------------------------------------- parse_int()

static unsigned int RI;
static long RL;
static long long RLL;

static bool fits(enum int_flags flags, long long v) {
	if ((flags & IF_UNSIGNED) && v < 0) { return false; }
	return (flags & IF_SIZE_MASK) != IF_INT || (v >= INT_MIN && v <= INT_MAX);
}

// @unit h_parse_int props=C07,C01 covers=parse_int
void h_parse_int(void) {
	setup();
	enum int_flags flags = IN_RANGE(int, "base", 0, 36);
	int size = IN_RANGE(int, "size", 1, 3);
	flags |= size << 6;
	if (IN_BOOL("unsigned")) { flags |= IF_UNSIGNED; }
	if (IN_BOOL("partial")) { flags |= IF_PARTIAL_OK; }
	if (IN_BOOL("quiet")) { flags |= IF_QUIET; }
	int ri0 = RI = IN(int, "ri0");
	long rl0 = RL = IN(long, "rl0");
	long long rll0 = RLL = IN(long long, "rll0");
	void *result = size == 1 ? (void *)&RI : size == 2 ? (void *)&RL : (void *)&RLL;

	const char *r = parse_int(&P, ARGV + 2, ARG2, result, flags);

	bool ok = G_conv[0].ok && G_nconv == 1 && (*G_conv[0].end == '\0' || (flags & IF_PARTIAL_OK)) && fits(flags, G_conv[0].value);
	CHECK(G_nconv == 1 && G_conv[0].str == ARG2 && G_conv[0].base == ((flags & 0x3f) ? (int)(flags & 0x3f) : 10), "the argument itself is converted, in the right base");
	CHECK((r != NULL) == ok, "an integer is accepted exactly when it is well-formed and representable");
	CHECK(IMPLIES(ok, r == G_conv[0].end), "parsing resumes right after the digits");
	if (ok) {
		CHECK(size == 1 ? (int)RI == G_conv[0].value : size == 2 ? RL == G_conv[0].value : RLL == G_conv[0].value, "the stored integer is exactly the one given");
		CHECK(vf_diags == 0, "an accepted argument is not diagnosed");
	} else {
		CHECK((vf_diags > 0) == !(flags & IF_QUIET), "a rejected argument is diagnosed");
	}
	CHECK(IMPLIES(!ok || size != 1, (int)RI == ri0) && IMPLIES(!ok || size != 2, RL == rl0) && IMPLIES(!ok || size != 3, RLL == rll0), "nothing else is stored");
	DONE();
}

/** [+-]N with no suffix. */
static bool icmp_ok(void) {
	return G_nconv == 1 && G_conv[0].ok && *G_conv[0].end == '\0' && G_conv[0].value >= 0;
}
static void icmp_post(struct bfs_expr *e, bfs_eval_fn *fn) {
	common_post(e);
	CHECK(G_nconv == 1 && G_conv[0].str == ARG2 + spec_skip(ARG2) && G_conv[0].base == 10, "N is read after the optional + or -");
	CHECK((e != NULL) == icmp_ok(), "[+-]N is accepted exactly when N is a non-negative integer");
	if (e) {
		CHECK(e->num == G_conv[0].value && e->int_cmp == spec_sign(ARG2), "N and its sign are recorded exactly");
		CHECK(e->eval_fn == fn && e->argc == 2 && e->argv == ARGV + 1, "the right test is constructed");
		CHECK(P.argv == ARGV + 3, "exactly the test and its argument are consumed");
	}
}

// @unit h_test_icmp props=C07,C01 covers=parse_test_icmp,parse_icmp,parse_int,parse_unary_test,parse_test,parser_advance
void h_test_icmp(void) {
	setup();
	struct bfs_expr *e = parse_test_icmp(&P, eval_links);
	icmp_post(e, eval_links);
	DONE();
}
// @unit h_links props=C07,C01 covers=parse_links
void h_links(void) { setup(); icmp_post(parse_links(&P, 0, 0), eval_links); DONE(); }
// @unit h_inum props=C07,C01 covers=parse_inum
void h_inum(void) { setup(); icmp_post(parse_inum(&P, 0, 0), eval_inum); DONE(); }
// @unit h_used props=C07,C02 covers=parse_used
void h_used(void) { setup(); icmp_post(parse_used(&P, 0, 0), eval_used); DONE(); }
// @unit h_min props=C07,C02 covers=parse_min
void h_min(void) {
	setup();
	int field = IN_RANGE(int, "field", 1, 1 << 14);
	struct bfs_expr *e = parse_min(&P, field, 0);
	icmp_post(e, eval_time);
	if (e) {
		CHECK(e->time_unit == BFS_MINUTES && e->stat_field == (enum bfs_stat_field)field, "-Xmin counts minutes of the right timestamp");
		CHECK(e->reftime.tv_sec == P.now.tv_sec && e->reftime.tv_nsec == P.now.tv_nsec, "ages are relative to the start (or -daystart)");
	}
	DONE();
}

// @unit h_size props=C07,C01 covers=parse_size
void h_size(void) {
	setup();
	struct bfs_expr *e = parse_size(&P, 0, 0);
	common_post(e);
	CHECK(G_nconv == 1 && G_conv[0].str == ARG2 + spec_skip(ARG2) && G_conv[0].base == 10, "N is read after the optional + or -");
	static const char units[] = "bcwkMGTP";
	int unit = -1;
	if (G_conv[0].ok) {
		const char *u = G_conv[0].end;
		if (u[0] == '\0') {
			unit = BFS_BLOCKS;
		} else if (u[1] == '\0') {
			for (int i = 0; i < 8; ++i) {
				if (u[0] == units[i]) { unit = i; }
			}
		}
	}
	bool ok = unit >= 0 && G_conv[0].value >= 0;
	CHECK((e != NULL) == ok, "-size takes [+-]N and one of the units bcwkMGTP");
	if (e) {
		CHECK(e->num == G_conv[0].value && e->int_cmp == spec_sign(ARG2), "N and its sign are recorded exactly");
		CHECK((int)e->size_unit == unit, "the unit is recorded");
		CHECK(e->eval_fn == eval_size && P.argv == ARGV + 3, "the right test is constructed");
	}
	DONE();
}

/** parse_time() against the grammar, whatever the conversions return. */
static void check_time(void) {
	int field = IN_RANGE(int, "field", 1, 1 << 14);
	struct bfs_expr *e = parse_time(&P, field, 0);
	common_post(e);
	// Replay the grammar over what was converted
	unsigned long long sum = 0;
	bool ok = true, days = false;
	const char *expect = ARG2 + spec_skip(ARG2);
	for (int i = 0; i < NCONV; ++i) {
		if (i >= G_nconv || !ok) { break; }
		CHECK(G_conv[i].str == expect && G_conv[i].base == 10, "each component is read where the previous one ended");
		if (!G_conv[i].ok || G_conv[i].value < 0) { ok = false; break; }
		char u = *G_conv[i].end;
		if (u == '\0') {
			if (i == 0) { days = true; sum = G_conv[i].value; } else { ok = false; }
			expect = NULL;
			break;
		}
		unsigned long long scale = u == 's' ? 1 : u == 'm' ? 60 : u == 'h' ? 3600 : u == 'd' ? 86400 : u == 'w' ? 604800 : 0;
		if (!scale) { ok = false; break; }
		// sum + value*scale <= LLONG_MAX, over the integers
		if ((unsigned long long)G_conv[i].value > (LLONG_MAX - sum) / scale) { ok = false; break; }
		sum += scale * G_conv[i].value;
		expect = G_conv[i].end + 1;
	}
	CHECK((e != NULL) == ok, "times are accepted exactly when well-formed and representable");
	if (e) {
		CHECK(expect == NULL || *expect == '\0', "the whole argument is used");
		CHECK((unsigned long long)e->num == sum, "the time is the exact sum of its components");
		CHECK(e->time_unit == (days ? BFS_DAYS : BFS_SECONDS), "without units the argument counts days");
		CHECK(e->int_cmp == spec_sign(ARG2) && e->eval_fn == eval_time && e->stat_field == (enum bfs_stat_field)field, "the right comparison is constructed");
		CHECK(e->reftime.tv_sec == P.now.tv_sec && e->reftime.tv_nsec == P.now.tv_nsec, "ages are relative to the start (or -daystart)");
	}
}

// @unit h_time props=C07,C02 covers=parse_time unwind=9 timeout=400 bounded="arguments of at most 5 characters (2 components); component values from a table of 16 values around every overflow boundary"
void h_time(void) {
	setup();
	ARG2[5] = '\0';
	G_convtable = true;
	check_time();
	DONE();
}

// @unit h_depth_limit props=C07,C11 covers=parse_depth_limit
void h_depth_limit(void) {
	setup();
	CTX.mindepth = 0;
	CTX.maxdepth = INT_MAX;
	bool is_min = IN_BOOL("is_min");
	struct bfs_expr *e = parse_depth_limit(&P, is_min, 0);
	common_post(e);
	bool ok = G_nconv == 1 && G_conv[0].ok && *G_conv[0].end == '\0' && G_conv[0].value >= 0 && G_conv[0].value <= INT_MAX;
	CHECK((e != NULL) == ok, "-mindepth/-maxdepth take a non-negative int");
	CHECK(IMPLIES(e, G_conv[0].str == ARG2 && G_conv[0].base == 10), "the argument is converted");
	CHECK(IMPLIES(e, (is_min ? CTX.mindepth : CTX.maxdepth) == G_conv[0].value), "the limit is exactly the one given");
	CHECK((is_min ? CTX.maxdepth == INT_MAX : CTX.mindepth == 0), "the other limit is untouched");
	DONE();
}

// @unit h_limit props=C07 covers=parse_limit
void h_limit(void) {
	setup();
	struct bfs_expr *e = parse_limit(&P, 0, 0);
	common_post(e);
	bool ok = G_nconv == 1 && G_conv[0].ok && *G_conv[0].end == '\0' && G_conv[0].value >= 1;
	CHECK((e != NULL) == ok, "-limit takes a positive integer");
	CHECK(IMPLIES(e, e->num == G_conv[0].value && e->eval_fn == eval_limit && P.limit_expr == e), "the limit is exactly the one given");
	DONE();
}

// @unit h_depth_n props=C07,C01 covers=parse_depth_n
void h_depth_n(void) {
	setup();
	size_t n = spec_skip(ARG2);
	n += spec_skip(ARG2 + n);
	bool icmp = ARG2[n] >= '0' && ARG2[n] <= '9';
	struct bfs_expr *e = parse_depth_n(&P, 0, 0);
	if (icmp) {
		icmp_post(e, eval_depth);
		CHECK(!(CTX.flags & BFTW_POST_ORDER), "-depth N is a test");
	} else {
		CHECK(e && (CTX.flags & BFTW_POST_ORDER) && P.argv == ARGV + 2, "-depth without N is an option");
	}
	DONE();
}

// ---------------------------------------------------------------------- -type

static int spec_type(char c) {
	switch (c) {
	case 'b': return BFS_BLK;
	case 'c': return BFS_CHR;
	case 'd': return BFS_DIR;
	case 'D': return BFS_DOOR;
	case 'p': return BFS_FIFO;
	case 'f': return BFS_REG;
	case 'l': return BFS_LNK;
	case 's': return BFS_SOCK;
	case 'w': return BFS_WHT;
	default: return -1;
	}
}

// @unit h_type props=C04 covers=parse_type bounded="arguments of at most 7 characters (4 types)"
void h_type(void) {
	setup();
	bool x = IN_BOOL("x");
	struct bfs_expr *e = parse_type(&P, x, 0);
	common_post(e);
	long long num = 0;
	bool ok = true, wht = false;
	for (int i = 0; i <= ARGLEN; ++i) {
		char c = ARG2[i];
		if (i % 2 == 0) {
			int t = spec_type(c);
			if (t < 0) { ok = false; break; }
			num |= 1LL << t;
			wht = wht || t == BFS_WHT;
		} else {
			if (c == '\0') { break; }
			if (c != ',') { ok = false; break; }
		}
	}
	CHECK((e != NULL) == ok, "-type takes a comma-separated list of type letters");
	if (e) {
		CHECK(e->num == num, "exactly the listed types are selected");
		CHECK(e->eval_fn == (x ? eval_xtype : eval_type), "the right test is constructed");
		CHECK(P.argv == ARGV + 3, "exactly the test and its argument are consumed");
	}
	CHECK(((CTX.flags & BFTW_WHITEOUTS) != 0) == wht || !e, "whiteouts are listed exactly when asked for");
	DONE();
}

// ---------------------------------------------------------------------- -perm

#ifndef MODELEN
#  define MODELEN 5
#endif
/** The reference: chmod(1)'s symbolic modes, applied to mode 0. */
static bool ref_mode(const char *s, mode_t umask, bool dir, mode_t *out) {
	mode_t mode = 0;
	int i = 0;
	bool done = false;
	for (int clause = 0; clause <= MODELEN && !done; ++clause) {
		mode_t who = 0;
		for (int k = 0; k <= MODELEN; ++k) {
			if (s[i] == 'u') { who |= 0700; }
			else if (s[i] == 'g') { who |= 0070; }
			else if (s[i] == 'o') { who |= 0007; }
			else if (s[i] == 'a') { who |= 0777; }
			else { break; }
			++i;
		}
		mode_t mask = who ? who : 0777 & ~umask;
		if (!who) { who = 0777; }
		bool any = false;
		for (int action = 0; action <= MODELEN; ++action) {
			char op = s[i];
			if (op != '+' && op != '-' && op != '=') { break; }
			any = true;
			++i;
			mode_t change = 0;
			if (s[i] == 'u' || s[i] == 'g' || s[i] == 'o') {
				change = (mode >> (s[i] == 'u' ? 6 : s[i] == 'g' ? 3 : 0)) & 7;
				change = (change | change << 3 | change << 6) & mask;
				++i;
			} else {
				for (int k = 0; k <= MODELEN; ++k) {
					if (s[i] == 'r') { change |= mask & 0444; }
					else if (s[i] == 'w') { change |= mask & 0222; }
					else if (s[i] == 'x') { change |= mask & 0111; }
					else if (s[i] == 'X') { change |= dir ? mask & 0111 : 0; }
					else if (s[i] == 's') { change |= (who & 0700 ? 04000 : 0) | (who & 0070 ? 02000 : 0); }
					else if (s[i] == 't') { change |= who & 0007 ? 01000 : 0; }
					else { break; }
					++i;
				}
			}
			if (op == '=') { mode = (mode & ~who) | change; }
			else if (op == '+') { mode |= change; }
			else { mode &= ~change; }
		}
		if (!any) { return false; }
		if (s[i] == '\0') { done = true; }
		else if (s[i] == ',') { ++i; }
		else { return false; }
	}
	*out = mode;
	return true;
}

// @unit h_mode props=C03 covers=parse_mode timeout=400 bounded="symbolic modes of at most 5 characters (6 in the thorough tier); any umask" tdef=MODELEN=6 ttimeout=1500
void h_mode(void) {
	setup();
	ARG2[MODELEN] = '\0';
	ASSUME(!(ARG2[0] >= '0' && ARG2[0] <= '9'));
	int ret = parse_mode(&P, ARG2, &E);
	mode_t fm, dm;
	bool ok = ref_mode(ARG2, CTX.umask, false, &fm);
	bool dok = ref_mode(ARG2, CTX.umask, true, &dm);
	CHECK((ret == 0) == ok && ok == dok, "symbolic modes are accepted exactly when chmod(1) would");
	CHECK((ret == 0) || vf_diags > 0, "an invalid mode is diagnosed");
	if (ret == 0) {
		CHECK(E.file_mode == fm, "the file mode is the one chmod(1) would set");
		CHECK(E.dir_mode == dm, "the directory mode is the one chmod(1) would set");
	}
	DONE();
}

// @unit h_mode_octal props=C03,C07 covers=parse_mode
void h_mode_octal(void) {
	setup();
	ASSUME(ARG2[0] >= '0' && ARG2[0] <= '9');
	int ret = parse_mode(&P, ARG2, &E);
	bool ok = G_nconv == 1 && G_conv[0].ok && *G_conv[0].end == '\0' && G_conv[0].value >= 0 && G_conv[0].value <= 07777;
	CHECK(G_nconv == 1 && G_conv[0].str == ARG2 && G_conv[0].base == 8, "modes are octal");
	CHECK((ret == 0) == ok, "octal modes are accepted up to 07777");
	CHECK(IMPLIES(ret == 0, E.file_mode == G_conv[0].value && E.dir_mode == G_conv[0].value), "the mode is exactly the one given");
	CHECK((ret == 0) || vf_diags > 0, "an invalid mode is diagnosed");
	DONE();
}

// @unit h_perm props=C03 covers=parse_perm
void h_perm(void) {
	setup();
	// Restrict to octal modes; symbolic ones are h_mode
	size_t skip = ARG2[0] == '-' || ARG2[0] == '/' || ARG2[0] == '+';
	ASSUME(ARG2[skip] >= '0' && ARG2[skip] <= '9');
	struct bfs_expr *e = parse_perm(&P, 0, 0);
	common_post(e);
	if (e) {
		CHECK(e->mode_cmp == (ARG2[0] == '-' ? BFS_MODE_ALL : skip ? BFS_MODE_ANY : BFS_MODE_EQUAL), "-perm MODE, -MODE and /MODE mean exactly, all of and any of");
		CHECK(G_conv[0].str == ARG2 + skip && e->file_mode == G_conv[0].value && e->dir_mode == G_conv[0].value, "the mode is read after the prefix");
		CHECK(e->eval_fn == eval_perm && P.argv == ARGV + 3, "the right test is constructed");
	}
	DONE();
}
