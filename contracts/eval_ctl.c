// Contracts for the control part of src/eval.c: operators, the per-file
// callback, actions that change the traversal, -delete, the exit status.
// @file link=expr.c,stat.c,xtime.c,bfstd.c,vf_libc.c unwind=6

#include "vf.h"
#include "prelude.h"
#include "eval.h"
#include "expr.h"
#include "bftw.h"
#include "stat.h"
#include "ctx.h"
#include "exec.h"
#include "trie.h"
#include "bar.h"
#include "dir.h"
#include "mtab.h"
#include "sighook.h"
#include "vf_env.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

struct bfs_eval;

// --------------------------------------------------------------- ghost state

/** Child expressions ("atoms") whose behaviour is arbitrary. */
#define NCH 4
static struct bfs_expr CH[NCH];
/** The result of each atom, whether it asks to quit, and the action it sets. */
static bool G_v[NCH], G_q[NCH];
static int G_a[NCH];
/** Evaluation history: one base-8 digit per evaluation. */
static unsigned long G_trace;

static struct bfs_expr E;
static struct BFTW FB;
static struct bfs_ctx CTX;
static CFILE CERR;
static char PATH[8], NAME[8];
static int RETV, RETV0;
static size_t NERR, NERR0;

static unsigned long traced(unsigned long trace, unsigned long i) {
	return trace * 8 + i + 1;
}

#define IDX(expr) ((unsigned long)((expr) - CH))


/** What evaluating CH[0..n-1] in order must do, for each operator. */
static int G_n;
struct outcome {
	bool ret;
	bool quit;
	unsigned long trace;
};
static struct outcome spec_op(int op) {
	struct outcome o = { .ret = op == 0, .quit = false, .trace = 0 };
	for (int i = 0; i < NCH; ++i) {
		if (i >= G_n) { break; }
		o.trace = traced(o.trace, i);
		if (G_q[i]) {
			o.quit = true;
			break;
		}
		if (op == 2) {
			o.ret = G_v[i];
		} else if (G_v[i] == (op == 1)) {
			o.ret = op == 1;
			break;
		}
	}
	return o;
}


#include "eval.c"

// ------------------------------------------------------------------ contracts

#ifdef VF_CONTRACTS
static bool is_atom(const struct bfs_expr *expr) {
	return expr == &CH[0] || expr == &CH[1] || expr == &CH[2] || expr == &CH[3];
}
bool c_eval_expr(struct bfs_expr *expr, struct bfs_eval *state)
REQUIRES(is_atom(expr))
REQUIRES(!state->quit)
ENSURES(RET == G_v[IDX(expr)])
ENSURES(G_trace == traced(OLD(G_trace), IDX(expr)))
ENSURES(state->quit == G_q[IDX(expr)])
ENSURES(state->action == (G_a[IDX(expr)] < 0 ? OLD(state->action) : (enum bftw_action)G_a[IDX(expr)]))
ENSURES(expr->evaluations == OLD(expr->evaluations) + 1)
ENSURES(expr->successes == OLD(expr->successes) + RET)
ASSIGNS(G_trace, state->quit, state->action, expr->evaluations, expr->successes);
#endif

#ifdef VF_CONTRACTS
#define OPER(name, op) \
bool c_##name(const struct bfs_expr *expr, struct bfs_eval *state) \
REQUIRES(expr == &E && !state->quit && G_trace == 0) \
ENSURES(G_trace == spec_op(op).trace && state->quit == spec_op(op).quit) \
ENSURES(state->quit || RET == spec_op(op).ret) \
ASSIGNS(G_trace, state->quit, state->action, __CPROVER_object_whole(CH))
OPER(eval_and, 0);
OPER(eval_or, 1);
OPER(eval_comma, 2);
#endif

// ---------------------------------------------------------------- environment

static struct bfs_eval ST;

/** An arbitrary test or action. */
static bool atom(const struct bfs_expr *expr, struct bfs_eval *state) {
	unsigned long i = expr - CH;
	G_trace = traced(G_trace, i);
	if (G_q[i]) { state->quit = true; }
	if (G_a[i] >= 0) { state->action = G_a[i]; }
	return G_v[i];
}

static struct bfs_stat G_sb;
static bool G_stat_ok;
static int G_stat_errno;
const struct bfs_stat *bftw_stat(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
	if (G_stat_ok) { return &G_sb; }
	errno = G_stat_errno;
	return NULL;
}
static enum bfs_type G_type;
static int G_type_flags;
enum bfs_type bftw_type(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
	G_type_flags = flags;
	if (G_type == BFS_ERROR) { errno = G_stat_errno; }
	return G_type;
}
int cvfprintf(CFILE *cfile, const char *format, va_list args) { return 0; }

static void setup(void) {
	HAVOC(E); HAVOC(ST); HAVOC(FB); HAVOC(CTX); HAVOC(CH);
	ST.ftwbuf = &FB;
	ST.ctx = &CTX;
	ST.ret = &RETV;
	ST.nerrors = &NERR;
	ST.action = BFTW_CONTINUE;
	ST.quit = false;
	CTX.cerr = &CERR;
	CTX.debug = 0;
	CTX.ignore_errors = IN_BOOL("ignore_errors");
	CTX.ignore_races = IN_BOOL("ignore_races");
	IN_STRING("path", PATH, 7);
	IN_STRING("name", NAME, 7);
	FB.path = PATH;
	FB.root = PATH;
	FB.at_fd = IN_RANGE(int, "at_fd", -100, 100);
	FB.at_path = NAME;
	FB.depth = IN(size_t, "depth");
	FB.type = IN_RANGE(int, "type", BFS_ERROR, BFS_WHT);
	FB.error = IN_RANGE(int, "error", 1, 133);
	FB.loopoff = IN_BOOL("loop") ? 1 : 0;
	FB.visit = IN_BOOL("post") ? BFTW_POST : BFTW_PRE;
	FB.stat_flags = IN_BOOL("follow") ? BFS_STAT_TRYFOLLOW : BFS_STAT_NOFOLLOW;
	RETV0 = RETV = IN_RANGE(int, "ret0", 0, 255);
	NERR0 = NERR = IN_RANGE(size_t, "nerr0", 0, 1000);
	vf_diags = 0;
	G_trace = 0;
	G_stat_ok = IN_BOOL("stat_ok");
	G_stat_errno = IN_RANGE(int, "stat_errno", 1, 133);
	G_type = IN_RANGE(int, "g_type", BFS_ERROR, BFS_WHT);
	G_type_flags = -1;
	errno = IN_RANGE(int, "errno0", 0, 133);
	for (int i = 0; i < NCH; ++i) {
		G_v[i] = IN_BOOL("v");
		G_q[i] = IN_BOOL("q");
		G_a[i] = IN_RANGE(int, "a", -1, BFTW_STOP);
		CH[i].eval_fn = atom;
		CH[i].always_true = CH[i].always_false = false;
		CH[i].next = NULL;
		CH[i].evaluations = 0;
		CH[i].successes = 0;
	}
}

static bool error_counted(void) {
	return NERR == NERR0 + 1 && RETV == (CTX.ignore_errors ? RETV0 : EXIT_FAILURE)
		&& (CTX.ignore_errors ? vf_diags == 0 : vf_diags > 0);
}
static bool no_error(void) {
	return NERR == NERR0 && RETV == RETV0 && vf_diags == 0;
}
static bool race(int error) {
	return CTX.ignore_races && (error == ENOENT || error == ENOTDIR) && FB.depth > 0;
}

// ------------------------------------------------------------------ operators

static void setup_op(bfs_eval_fn *fn) {
	setup();
	G_n = IN_RANGE(int, "n", 1, NCH);
	E.eval_fn = fn;
	E.children.head = &CH[0];
	for (int i = 0; i + 1 < NCH; ++i) {
		CH[i].next = i + 1 < G_n ? &CH[i + 1] : NULL;
	}
	E.children.tail = &CH[G_n - 1].next;
}

#define OPER_UNIT(h, f, op) void h(void) { \
	setup_op(f); \
	struct outcome o = spec_op(op); \
	bool r = f(&E, &ST); \
	CHECK(G_trace == o.trace, "the operands are evaluated left to right, exactly as far as needed"); \
	CHECK(ST.quit == o.quit, "-quit takes effect immediately"); \
	CHECK(o.quit || r == o.ret, "the operator computes its truth table"); \
	CHECK(no_error(), "no error"); \
	DONE(); \
}
// @unit h_and enforce=eval_and/c_eval_and replace=eval_expr/c_eval_expr props=C05 bounded="at most 4 operands"
OPER_UNIT(h_and, eval_and, 0)
// @unit h_or enforce=eval_or/c_eval_or replace=eval_expr/c_eval_expr props=C05 bounded="at most 4 operands"
OPER_UNIT(h_or, eval_or, 1)
// @unit h_comma enforce=eval_comma/c_eval_comma replace=eval_expr/c_eval_expr props=C05 bounded="at most 4 operands"
OPER_UNIT(h_comma, eval_comma, 2)

// @unit h_not replace=eval_expr/c_eval_expr props=C05 covers=eval_not
void h_not(void) {
	setup_op(eval_not);
	G_n = 1;
	CH[0].next = NULL;
	bool r = eval_not(&E, &ST);
	CHECK(r == !G_v[0] && G_trace == traced(0, 0) && ST.quit == G_q[0], "! negates its operand, evaluated once");
	DONE();
}

// @unit h_expr props=C05 covers=eval_expr
void h_expr(void) {
	setup();
	int i = 0;
	bool r = eval_expr(&CH[i], &ST);
	CHECK(r == G_v[i] && G_trace == traced(0, i) && ST.quit == G_q[i], "an expression is evaluated by its own test, once");
	CHECK(ST.action == (G_a[i] < 0 ? BFTW_CONTINUE : (enum bftw_action)G_a[i]), "the action it chose is kept");
	CHECK(CH[i].evaluations == 1 && CH[i].successes == (size_t)G_v[i], "evaluations are counted");
	DONE();
}

// ----------------------------------------------------------- simple actions

// @unit h_prune props=C11 covers=eval_prune
void h_prune(void) {
	setup();
	bool r = eval_prune(&E, &ST);
	CHECK(r && ST.action == BFTW_PRUNE && !ST.quit && no_error(), "-prune prunes and is true");
	DONE();
}
// @unit h_quit props=C11 covers=eval_quit
void h_quit(void) {
	setup();
	bool r = eval_quit(&E, &ST);
	CHECK(r && ST.action == BFTW_STOP && ST.quit && no_error(), "-quit stops the traversal");
	DONE();
}
// @unit h_exit props=C11,C12 covers=eval_exit
void h_exit(void) {
	setup();
	E.num = IN_RANGE(long long, "num", 0, 255);
	bool r = eval_exit(&E, &ST);
	CHECK(r && ST.action == BFTW_STOP && ST.quit && RETV == E.num && NERR == NERR0, "-exit N stops with status N");
	DONE();
}
// @unit h_limit props=C11 covers=eval_limit
void h_limit(void) {
	setup();
	E.num = IN_RANGE(long long, "num", 1, LLONG_MAX);
	E.evaluations = IN_RANGE(size_t, "evaluations", 0, 1UL << 62);
	bool r = eval_limit(&E, &ST);
	bool last = E.evaluations + 1 >= (unsigned long long)E.num;
	CHECK(r && ST.quit == last && ST.action == (last ? BFTW_STOP : BFTW_CONTINUE) && no_error(), "-limit N stops at the Nth evaluation");
	DONE();
}

// ------------------------------------------------------------------- -delete

static int G_unlinks, G_unlink_fd, G_unlink_flag;
static const char *G_unlink_path;
static bool G_unlink_ok;
static int G_unlink_errno;
int unlinkat(int fd, const char *path, int flag) {
	++G_unlinks;
	G_unlink_fd = fd;
	G_unlink_path = path;
	G_unlink_flag = flag;
	if (G_unlink_ok) { return 0; }
	errno = G_unlink_errno;
	return -1;
}
int unlink(const char *path) { UNREACHED("-delete is relative to the parent directory"); return -1; }
int rmdir(const char *path) { UNREACHED("-delete is relative to the parent directory"); return -1; }
int remove(const char *path) { UNREACHED("-delete is relative to the parent directory"); return -1; }

// @unit h_delete props=C10,C12 covers=eval_delete unwind=9
void h_delete(void) {
	setup();
	G_unlinks = 0;
	G_unlink_ok = IN_BOOL("unlink_ok");
	G_unlink_errno = IN_RANGE(int, "unlink_errno", 1, 133);
	bool dot = PATH[0] == '.' && PATH[1] == '\0';
	bool r = eval_delete(&E, &ST);
	if (dot) {
		CHECK(r && G_unlinks == 0 && no_error(), "the current directory is never deleted");
	} else {
		CHECK(G_type_flags == BFS_STAT_NOFOLLOW, "-delete looks at the file itself, never at what a link points to");
		if (G_type == BFS_ERROR) {
			CHECK(!r && G_unlinks == 0, "a file of unknown type is not deleted");
			CHECK(race(G_stat_errno) ? no_error() : error_counted(), "failing to determine the type is an error");
		} else {
			CHECK(G_unlinks == 1, "exactly one file is deleted");
			CHECK(G_unlink_fd == FB.at_fd && G_unlink_path == FB.at_path, "-delete removes exactly the visited file");
			CHECK(G_unlink_flag == (G_type == BFS_DIR ? AT_REMOVEDIR : 0), "directories (and only they) are removed as directories");
			CHECK(r == G_unlink_ok, "-delete is true exactly when the file was removed");
			CHECK(G_unlink_ok || race(G_unlink_errno) ? no_error() : error_counted(), "a failed removal is an error");
		}
	}
	CHECK(ST.action == BFTW_CONTINUE && !ST.quit, "-delete does not affect the traversal");
	DONE();
}

// --------------------------------------------------------------------- -xtype

// @unit h_xtype props=C04,C12 covers=eval_xtype
void h_xtype(void) {
	setup();
	E.num = IN_RANGE(long long, "num", 0, 0x7FFE);
	bool r = eval_xtype(&E, &ST);
	bool follow = FB.stat_flags == BFS_STAT_TRYFOLLOW;
	CHECK(G_type_flags == (follow ? BFS_STAT_NOFOLLOW : BFS_STAT_TRYFOLLOW), "-xtype makes the opposite link-following choice");
	enum bfs_type type = G_type;
	if (!follow && type == BFS_ERROR && G_stat_errno == ELOOP) { type = BFS_LNK; }
	if (type == BFS_ERROR) {
		CHECK(!r && (race(G_stat_errno) ? no_error() : error_counted()), "failing to determine the type is an error");
	} else {
		CHECK(r == (((unsigned long long)E.num >> type) & 1) && no_error(), "-xtype is true exactly for the listed types");
	}
	DONE();
}

// ------------------------------------------------------------ the callback

static struct trie SEEN;
static struct trie_leaf LEAF;
static int G_insert;
struct trie_leaf *trie_insert_mem(struct trie *trie, const void *key, size_t length) {
	CHECK(trie == &SEEN && length == sizeof(bfs_file_id), "uniqueness is tracked by file id");
	if (G_insert < 0) { errno = G_stat_errno; return NULL; }
	return &LEAF;
}
void bfs_bar_hide(struct bfs_bar *bar) { }
struct bfs_bar *bfs_bar_show(void) { return NULL; }
struct sighook *sighook(int sig, sighook_fn *fn, void *arg, enum sigflags flags) { return NULL; }
void sigunhook(struct sighook *hook) { }
struct timer *xtimer_start(const struct timespec *interval) { return NULL; }
void xtimer_stop(struct timer *timer) { }

static struct callback_args ARGS;

static void setup_callback(void) {
	setup();
	HAVOC(ARGS);
	ARGS.ctx = &CTX;
	ARGS.bar = NULL;
	ARGS.ret = RETV;
	ARGS.nerrors = NERR;
	ARGS.seen = &SEEN;
	ARGS.count = 0;
	ARGS.alrm_flag = false;
	ARGS.info_flag = false;
	CTX.exclude = &CH[0];
	CTX.expr = &CH[1];
	CTX.unique = IN_BOOL("unique");
	CTX.xargs_safe = IN_BOOL("xargs_safe");
	CTX.mindepth = IN_RANGE(int, "mindepth", 0, INT_MAX);
	CTX.maxdepth = IN_RANGE(int, "maxdepth", 0, INT_MAX);
	CTX.strategy = IN_RANGE(int, "strategy", BFTW_BFS, BFTW_EDS);
	CTX.flags = IN_BOOL("post_order") ? BFTW_POST_ORDER : 0;
	// -exclude contains tests only
	G_q[0] = false;
	G_a[0] = -1;
	G_insert = IN_RANGE(int, "insert", -1, 1);
	LEAF.value = G_insert > 0 ? &LEAF : NULL;
}

// @unit h_callback props=C11,C12 covers=eval_callback,eval_file_unique replace=eval_expr/c_eval_expr unwind=9
void h_callback(void) {
	setup_callback();
	enum bftw_action r = eval_callback(&FB, &ARGS);
	NERR = ARGS.nerrors;
	RETV = ARGS.ret;

	if (FB.type == BFS_ERROR) {
		CHECK(r == BFTW_PRUNE && G_trace == 0, "a file that cannot be read is neither evaluated nor descended into");
		bool loop = FB.error == ELOOP && FB.loopoff > 0;
		CHECK(!loop && race(FB.error) ? no_error() : error_counted(), "traversal errors are reported and make the exit status non-zero");
		DONE();
		return;
	}

	if (CTX.unique && FB.visit == BFTW_PRE) {
		if (!G_stat_ok || G_insert < 0) {
			CHECK(G_trace == 0, "-unique: files that cannot be identified are not evaluated");
			CHECK(race(G_stat_errno) ? no_error() : error_counted(), "-unique: failures are reported");
			DONE();
			return;
		}
		if (G_insert > 0) {
			CHECK(r == BFTW_PRUNE && G_trace == 0 && no_error(), "-unique: a file seen before is skipped");
			DONE();
			return;
		}
		CHECK(LEAF.value != NULL, "-unique: the file is remembered");
	}

	bool unsafe = CTX.xargs_safe && strpbrk(PATH, " \t\n\'\"\\");
	if (G_v[0]) {
		CHECK(r == BFTW_PRUNE && G_trace == traced(0, 0) && no_error(), "-exclude: excluded files are pruned and not evaluated");
	} else if (unsafe) {
		CHECK(r == BFTW_PRUNE && G_trace == traced(0, 0) && error_counted(), "-X: unsafe paths are reported and skipped");
	} else {
		bool limit = FB.depth >= (size_t)CTX.maxdepth;
		bool inrange = FB.depth >= (size_t)CTX.mindepth && FB.depth <= (size_t)CTX.maxdepth;
		// In post-order mode a directory above -maxdepth is evaluated after its contents
		bool late = CTX.flags == BFTW_POST_ORDER && !limit && (FB.type == BFS_DIR || CTX.strategy == BFTW_IDS);
		bool eval = inrange && late == (FB.visit == BFTW_POST);
		CHECK(G_trace == (eval ? traced(traced(0, 0), 1) : traced(0, 0)), "a file is evaluated exactly when its depth is between -mindepth and -maxdepth, on the right visit");
		enum bftw_action base = limit ? BFTW_PRUNE : BFTW_CONTINUE;
		CHECK(r == (eval && G_a[1] >= 0 ? (enum bftw_action)G_a[1] : base), "nothing below -maxdepth is visited; otherwise the expression decides");
		CHECK(no_error(), "no error");
	}
	CHECK(ARGS.count == 1, "every file is counted");
	DONE();
}

// ---------------------------------------------------------- the exit status

static bool G_bftw_ok, G_finish_ok[NCH];
static int G_finish_errno;
static int G_finishes[NCH];
static int G_bftw_calls, G_order;
static const struct bftw_args *G_bftw_args;
static int G_nfd;
int bftw(const struct bftw_args *args) {
	++G_bftw_calls;
	CHECK(args->paths == CTX.paths && args->npaths == CTX.npaths, "every path given is traversed");
	CHECK(args->flags == CTX.flags && args->strategy == CTX.strategy, "the traversal options given are used");
	CHECK(args->nopenfd >= 2, "the traversal gets at least two file descriptors");
	CHECK(args->callback == eval_callback, "every file is evaluated");
	struct callback_args *cb = args->ptr;
	CHECK(cb->ctx == &CTX && cb->ret == EXIT_SUCCESS && cb->nerrors == 0, "the status starts out successful");
	cb->ret = RETV0;
	cb->nerrors = NERR0;
	return G_bftw_ok ? 0 : -1;
}
static struct bfs_exec EXECS[NCH];
int bfs_exec_finish(struct bfs_exec *execbuf) {
	CHECK(G_bftw_calls == 1, "pending commands are finished after the traversal");
	int i = execbuf - EXECS;
	++G_finishes[i];
	if (G_finish_ok[i]) { return 0; }
	errno = G_finish_errno;
	return -1;
}
void trie_init(struct trie *trie) { }
void trie_destroy(struct trie *trie) { }
const struct bfs_mtab *bfs_ctx_mtab(const struct bfs_ctx *ctx) { return NULL; }
void bfs_ctx_dump(const struct bfs_ctx *ctx, enum debug_flags flag) { }
struct bfs_dir *bfs_allocdir(void) { return NULL; }
int bfs_opendir(struct bfs_dir *dir, int at_fd, const char *at_path, enum bfs_dir_flags flags) { return -1; }
int bfs_readdir(struct bfs_dir *dir, struct bfs_dirent *de) { return -1; }
int bfs_closedir(struct bfs_dir *dir) { return 0; }

static bool G_setrlimit_ok;
static struct rlimit G_rl;
static int G_setrlimits;
int setrlimit(__rlimit_resource_t resource, const struct rlimit *rl) {
	CHECK(resource == RLIMIT_NOFILE, "only the open file limit is changed");
	++G_setrlimits;
	G_rl = *rl;
	return G_setrlimit_ok ? 0 : -1;
}
#ifndef VF_NATIVE
int fcntl(int fd, int cmd, ...) { return -1; }
#endif

// @unit h_eval props=C12 covers=bfs_eval,eval_exec_finish unwind=6 bounded="an expression of one operator and at most 4 -exec ... + operands"
void h_eval(void) {
	setup_op(eval_and);
	CTX.expr = &E;
	CTX.status = false;
	CTX.unique = IN_BOOL("unique");
	CTX.threads = 1;
	CTX.npaths = IN_RANGE(size_t, "npaths", 0, 3);
	CTX.flags = IN_RANGE(int, "flags", 0, 0xFFF);
	CTX.strategy = IN_RANGE(int, "strategy", BFTW_BFS, BFTW_EDS);
	CTX.nfiles = IN_RANGE(int, "nfiles", 0, 1000);
	CTX.orig_nofile.rlim_cur = IN_RANGE(rlim_t, "nofile", 8, 1 << 20);
	CTX.orig_nofile.rlim_max = CTX.orig_nofile.rlim_cur;
	CTX.raise_nofile = false;
	E.persistent_fds = IN_RANGE(int, "pfds", 0, 1000);
	E.ephemeral_fds = IN_RANGE(int, "efds", 0, 1000);
	G_bftw_ok = IN_BOOL("bftw_ok");
	G_finish_errno = IN_RANGE(int, "finish_errno", 0, 133);
	G_bftw_calls = 0;
	bool fail = !G_bftw_ok;
	for (int i = 0; i < NCH; ++i) {
		CH[i].eval_fn = IN_BOOL("is_exec") ? eval_exec : atom;
		CH[i].argv = NULL;
		CH[i].exec = &EXECS[i];
		G_finish_ok[i] = IN_BOOL("finish_ok");
		G_finishes[i] = 0;
		if (i < G_n && CH[i].eval_fn == eval_exec && !G_finish_ok[i]) { fail = true; }
	}
	static char *argv[] = { "-exec", "x" };
	for (int i = 0; i < NCH; ++i) { CH[i].argv = argv; }

	int r = bfs_eval(&CTX);

	CHECK(G_bftw_calls == 1, "the traversal runs once");
	for (int i = 0; i < NCH; ++i) {
		CHECK(G_finishes[i] == (i < G_n && CH[i].eval_fn == eval_exec), "every pending -exec ... + is finished, exactly once");
	}
	CHECK(IMPLIES(fail, r != EXIT_SUCCESS), "a failed traversal or command makes the exit status non-zero");
	CHECK(IMPLIES(!fail, r == RETV0), "the exit status is the one recorded during the traversal");
	DONE();
}

static struct bfs_exec EXEC;
static int G_exec_ret, G_exec_errno;
int bfs_exec(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
	CHECK(execbuf == &EXEC && ftwbuf == &FB, "the command runs for the visited file");
	errno = G_exec_errno;
	return G_exec_ret;
}
// @unit h_exec props=C08,C12 covers=eval_exec
void h_exec(void) {
	setup();
	static char *argv[] = { "-exec", "x" };
	E.argv = argv;
	E.exec = &EXEC;
	G_exec_ret = IN_RANGE(int, "exec_ret", -1, 1);
	G_exec_errno = IN_RANGE(int, "exec_errno", 0, 133);
	bool r = eval_exec(&E, &ST);
	CHECK(r == (G_exec_ret == 0), "-exec is true exactly when the command succeeded");
	CHECK(G_exec_errno == 0 ? no_error() : error_counted(), "failing to run a command is an error");
	DONE();
}

// ------------------------------------------------------------ resource limits

// @unit h_fdlimit props=C25 covers=raise_fdlimit
void h_fdlimit(void) {
	setup();
	rlim_t cur = CTX.orig_nofile.rlim_cur = IN(rlim_t, "cur");
	rlim_t max = CTX.orig_nofile.rlim_max = IN(rlim_t, "max");
	// Invariant of getrlimit(); unlimited is the largest value here
	ASSUME(cur <= max);
	CTX.cur_nofile = CTX.orig_nofile;
	CTX.raise_nofile = IN_BOOL("raise");
	G_setrlimit_ok = IN_BOOL("setrlimit_ok");
	G_setrlimits = 0;
	int r = raise_fdlimit(&CTX);
	bool raised = G_setrlimits == 1 && G_setrlimit_ok;
	CHECK(G_setrlimits <= 1, "the limit is changed at most once");
	if (G_setrlimits) {
		CHECK(CTX.raise_nofile && G_rl.rlim_cur > cur && G_rl.rlim_cur <= max && G_rl.rlim_max == max, "the soft limit is only ever raised, within the hard limit");
	}
	rlim_t now = raised ? G_rl.rlim_cur : cur;
	CHECK(r >= 0 && (rlim_t)r <= now, "no more descriptors are used than the limit allows");
	CHECK(CTX.cur_nofile.rlim_cur == now && CTX.cur_nofile.rlim_max == max, "the current limits are tracked");
	CHECK(CTX.orig_nofile.rlim_cur == cur && CTX.orig_nofile.rlim_max == max, "the original limits are remembered");
	DONE();
}
