// Contracts for src/exec.c: -exec, -execdir, -ok, -okdir.
//
// The stand-ins for process creation record what would be run, and may fail in
// every way.  Dynamic strings are represented by their contract (x_dstring.c).
// @file link=vf_libc.c unwind=9 drop=bfs_exec_debug

#include "vf.h"
#include "prelude.h"
#include "exec.c"
#include "vf_env.h"

#ifndef NP
#  define NP 4
#endif
#define BIG 24

static struct bfs_ctx CTX;
static struct bfs_exec X;
static struct BFTW FTW;
static char PATHBUF[NP + 2];

// ------------------------------------------------------------ dynamic strings

#ifndef VF_NATIVE
static char DSTR[BIG];
static size_t G_dlen;
static int G_dstrs;
dchar *dstralloc(size_t cap) { ++G_dstrs; G_dlen = 0; DSTR[0] = 0; return (dchar *)DSTR; }
int dstrxcat(dchar **dest, const char *src, size_t len) {
	for (size_t i = 0; i < NP + 1; ++i) {
		if (i < len) { DSTR[G_dlen++] = src[i]; }
	}
	DSTR[G_dlen] = 0;
	return 0;
}
int dstrcat(dchar **dest, const char *src) { return dstrxcat(dest, src, strlen(src)); }
void dstrfree(dchar *dstr) { --G_dstrs; }
#endif

// ------------------------------------------------------------------ processes

static bool G_yes, G_init_fails, G_chdir_fails, G_rlimit_fails, G_spawn_fails, G_wait_fails;
static int G_errno, G_wstatus;
static int G_prompts, G_spawns, G_chdirs, G_rlimits, G_destroys, G_inits, G_flushes;
static int G_chdir_fd;

void bfs_ctx_flush(const struct bfs_ctx *ctx) { ++G_flushes; }
int ynprompt(void) { ++G_prompts; return G_yes; }
int bfs_spawn_init(struct bfs_spawn *s) {
	if (G_init_fails) { errno = G_errno; return -1; }
	++G_inits;
	s->flags = 0;
	return 0;
}
int bfs_spawn_destroy(struct bfs_spawn *s) { ++G_destroys; errno = 77; return 0; }
int bfs_spawn_addfchdir(struct bfs_spawn *s, int fd) {
	if (G_chdir_fails) { errno = G_errno; return -1; }
	++G_chdirs;
	G_chdir_fd = fd;
	return 0;
}
int bfs_spawn_setrlimit(struct bfs_spawn *s, int resource, const struct rlimit *rl) {
	if (G_rlimit_fails) { errno = G_errno; return -1; }
	CHECK(resource == RLIMIT_NOFILE && rl == &CTX.orig_nofile, "the original descriptor limit is restored");
	++G_rlimits;
	return 0;
}
static void (*spawn_hook)(char **argv);
pid_t bfs_spawn(const char *exe, const struct bfs_spawn *s, char **argv, char **envp) {
	CHECK(exe == argv[0] && (s->flags & BFS_SPAWN_USE_PATH) && !envp, "the command is looked up in the PATH");
	if (spawn_hook) { spawn_hook(argv); }
	if (G_spawn_fails) { errno = G_errno; return -1; }
	++G_spawns;
	return 42;
}
pid_t xwaitpid(pid_t pid, int *status, int flags) {
	CHECK(pid == 42, "bfs waits for the command");
	if (G_wait_fails) { errno = G_errno; return -1; }
	*status = G_wstatus;
	return pid;
}
int rlim_cmp(rlim_t a, rlim_t b) { return a < b ? -1 : a > b; }
#ifndef VF_NATIVE
int fprintf(FILE *file, const char *format, ...) { return 1; }
#endif
char *strsignal(int sig) { static char s[] = "sig"; return s; }

static bool G_open_fails;
static int G_opens, G_open_fd, G_closes, G_closed;
static char G_opened[NP + 2];
int open(const char *path, int flags, ...) {
	++G_opens;
	for (int i = 0; i < NP + 2; ++i) {
		G_opened[i] = path[i];
		if (!path[i]) { break; }
	}
	if (G_open_fails) { errno = G_errno; return -1; }
	return G_open_fd;
}
int xclose(int fd) { ++G_closes; G_closed = fd; return 0; }
int dup_cloexec(int fd) { return 60; }
size_t xbaseoff(const char *path) { return 0; }
long xsysconf(int name) { return -1; }


static void setup(void) {
	HAVOC(CTX); HAVOC(X); HAVOC(FTW);
	X.ctx = &CTX;
	X.wd_fd = -1;
	X.wd_path = NULL;
	X.wd_len = 0;
	X.ret = 0;
	FTW.path = PATHBUF;
	G_yes = IN_BOOL("yes");
	G_init_fails = IN_BOOL("init_fails");
	G_chdir_fails = IN_BOOL("chdir_fails");
	G_rlimit_fails = IN_BOOL("rlimit_fails");
	G_spawn_fails = IN_BOOL("spawn_fails");
	G_wait_fails = IN_BOOL("wait_fails");
	G_open_fails = IN_BOOL("open_fails");
	G_errno = IN_RANGE(int, "error", 1, 133);
	G_wstatus = IN_RANGE(uint16_t, "wstatus", 0, 0xFFFF);
	G_open_fd = 50;
	CTX.orig_nofile.rlim_cur = IN(uint32_t, "orig_nofile");
	CTX.cur_nofile.rlim_cur = IN(uint32_t, "cur_nofile");
	G_prompts = G_spawns = G_chdirs = G_rlimits = G_destroys = G_inits = G_flushes = 0;
	G_opens = G_closes = 0;
	G_chdir_fd = -1;
	G_opened[0] = 0;
#ifndef VF_NATIVE
	G_dstrs = 0;
#endif
	errno = IN_RANGE(int, "errno0", 0, 133);
}

// ---------------------------------------------------------------- one process

static char A0[] = "cmd", A1[] = "arg";
static char *ARGV[4];

// @unit h_spawn props=C08,C12,C25 covers=bfs_exec_spawn
void h_spawn(void) {
	setup();
	X.flags = (IN_BOOL("confirm") ? BFS_EXEC_CONFIRM : 0) | (IN_BOOL("chdir") ? BFS_EXEC_CHDIR : 0) | (IN_BOOL("multi") ? BFS_EXEC_MULTI : 0);
	ARGV[0] = A0; ARGV[1] = A1; ARGV[2] = NULL;
	X.argv = ARGV;
	X.argc = 2;
	X.wd_fd = IN_BOOL("wd") ? 50 : -1;
	bool declined = (X.flags & BFS_EXEC_CONFIRM) && !G_yes;
	bool wd_fails = X.wd_fd >= 0 && G_chdir_fails;
	bool lower = CTX.orig_nofile.rlim_cur < CTX.cur_nofile.rlim_cur;
	int r = bfs_exec_spawn(&X);
	int e = errno;
	bool run = !declined && !G_init_fails && !wd_fails && !(lower && G_rlimit_fails) && !G_spawn_fails;
	CHECK(G_flushes > 0, "buffered output is written before a command is run");
	CHECK(G_prompts == !!(X.flags & BFS_EXEC_CONFIRM), "the user is asked exactly by -ok and -okdir");
	CHECK(G_spawns == run, "the command is run unless declined or impossible");
	CHECK(IMPLIES(run, G_chdirs == (X.wd_fd >= 0) && IMPLIES(G_chdirs, G_chdir_fd == X.wd_fd)), "the command runs in the working directory");
	CHECK(IMPLIES(run, G_rlimits == lower), "a raised descriptor limit is not passed on");
	CHECK(G_destroys == G_inits, "spawn attributes are destroyed");
	bool success = run && !G_wait_fails && (G_wstatus & 0xFF7F) == 0;
	CHECK((r == 0) == success && (r == 0 || r == -1), "-exec succeeds exactly if the command exits with status 0");
	bool ran = declined || (run && !G_wait_fails);
	CHECK(e == (ran ? 0 : G_errno), "a command that could not be run is told apart from one that failed");
	DONE();
}

// ------------------------------------------------------------ one file: ... ;

static char TMPL[NP + 1], EXPECT[BIG];
static size_t G_base;
/** What {} stands for. */
static char ARGPATH[NP + 4];

static void expect_arg(void) {
	size_t n = 0;
	for (size_t i = 0; TMPL[i]; ++i) {
		if (TMPL[i] == '{' && TMPL[i + 1] == '}') {
			for (size_t j = 0; ARGPATH[j]; ++j) { EXPECT[n++] = ARGPATH[j]; }
			++i;
		} else {
			EXPECT[n++] = TMPL[i];
		}
	}
	EXPECT[n] = 0;
}

static bool same(const char *a, const char *b, size_t max) {
	for (size_t i = 0; i < max; ++i) {
		if (a[i] != b[i]) { return false; }
		if (!a[i]) { return true; }
	}
	return true;
}

static void some_path(void) {
	for (int i = 0; i < NP; ++i) {
		static const char alphabet[] = { 0, 'p', '/', '.', '{', '}', '-', 'q' };
		PATHBUF[i] = alphabet[IN_RANGE(uint8_t, "path", 0, 7)];
	}
	PATHBUF[NP] = 0;
	size_t len = strlen(PATHBUF);
	ASSUME(len > 0);
	// nameoff is the start of the last component (C18), or of the last slash
	size_t end = len;
	while (end > 0 && PATHBUF[end - 1] == '/') { --end; }
	size_t base = end;
	while (base > 0 && PATHBUF[base - 1] != '/') { --base; }
	if (end == 0) { base = len - 1; }
	G_base = base;
	FTW.nameoff = base;
}

static void expect_path(bool chdir) {
	size_t n = 0, i = 0;
	if (chdir) {
		i = G_base;
		if (PATHBUF[i] != '/') {
			ARGPATH[n++] = '.';
			ARGPATH[n++] = '/';
		}
	}
	for (; i < NP && PATHBUF[i]; ++i) { ARGPATH[n++] = PATHBUF[i]; }
	ARGPATH[n] = 0;
}

// @unit h_format_arg props=C08 covers=bfs_exec_format_arg,bfs_exec_free_arg bounded="arguments and paths of at most 4 bytes"
void h_format_arg(void) {
	setup();
	some_path();
	expect_path(false);
	for (int i = 0; i < NP; ++i) {
		static const char alphabet[] = { 0, '{', '}', 'a' };
		TMPL[i] = alphabet[IN_RANGE(uint8_t, "arg", 0, 3)];
	}
	TMPL[NP] = 0;
	expect_arg();
	char *r = bfs_exec_format_arg(TMPL, ARGPATH);
	CHECK(r && same(r, EXPECT, BIG), "every {} in an argument is replaced by the path, and nothing else");
	bfs_exec_free_arg(r, TMPL);
#ifndef VF_NATIVE
	CHECK(G_dstrs == 0, "formatted arguments are freed");
#endif
	DONE();
}

// @unit h_format_path props=C08,C09 covers=bfs_exec_format_path bounded="paths of at most 4 bytes"
void h_format_path(void) {
	setup();
	some_path();
	bool chdir = IN_BOOL("chdir");
	X.flags = chdir ? BFS_EXEC_CHDIR : 0;
	expect_path(chdir);
	char *r = bfs_exec_format_path(&X, &FTW);
	ASSUME(r);
	CHECK(same(r, ARGPATH, NP + 3), "{} is the path, or ./name for -execdir");
	DONE();
}

// @unit h_openwd props=C08,C09 covers=bfs_exec_openwd,bfs_exec_closewd bounded="paths of at most 4 bytes"
void h_openwd(void) {
	setup();
	some_path();
	X.flags = BFS_EXEC_CHDIR | (IN_BOOL("multi") ? BFS_EXEC_MULTI : 0);
	bool at = IN_BOOL("at");
	FTW.at_fd = at ? 30 : (int)AT_FDCWD;
	FTW.at_path = at ? PATHBUF + G_base : PATHBUF;
	int r = bfs_exec_openwd(&X, &FTW);
	if (at) {
		CHECK(r == 0 && G_opens == 0 && X.wd_fd == ((X.flags & BFS_EXEC_MULTI) ? 60 : 30), "the parent directory is used");
	} else if (G_base == 0 && PATHBUF[0] != '/') {
		CHECK(r == 0 && G_opens == 0 && X.wd_fd < 0, "a bare name is run in the current directory");
	} else {
		CHECK(G_opens == 1, "the parent directory is opened");
		size_t n = G_base ? G_base : 1;
		for (size_t i = 0; i < NP; ++i) {
			if (i < n) { CHECK(G_opened[i] == PATHBUF[i], "the directory opened is the parent"); }
		}
		CHECK(G_opened[n] == 0, "the directory opened is exactly the parent");
		CHECK(r == (G_open_fails ? -1 : 0) && X.wd_fd == (G_open_fails ? -1 : 50), "a failure to open it is reported");
	}
	int fd = X.wd_fd;
	bfs_exec_closewd(&X, &FTW);
	bool borrowed = at && fd == 30;
	CHECK(X.wd_fd == -1 && !X.wd_path, "the working directory is forgotten");
	CHECK(G_closes == (fd >= 0 && !borrowed) && IMPLIES(G_closes, G_closed == fd), "a working directory that was opened is closed, a borrowed one is not");
	DONE();
}

// @unit h_single props=C08,C12 covers=bfs_exec,bfs_exec_single,bfs_exec_openwd,bfs_exec_closewd,bfs_exec_spawn,bfs_exec_format_arg,bfs_exec_format_path
//  + bounded="a fixed template, two paths" timeout=300
static int G_hooks;
static bool G_chdir;
static const char *G_name;
static void single_hook(char **argv) {
	++G_hooks;
	CHECK(same(argv[0], "cmd", 4), "the command is the one given");
	CHECK(same(argv[1], G_name, 5), "{} is replaced");
	CHECK(argv[2] == NULL, "there are no further arguments");
}
void h_single(void) {
	setup();
	static char t1[] = "{}";
	static char *tmpl[] = { A0, t1, NULL };
	G_chdir = IN_BOOL("chdir");
	bool at = IN_BOOL("at");
	X.flags = (IN_BOOL("confirm") ? BFS_EXEC_CONFIRM : 0) | (G_chdir ? BFS_EXEC_CHDIR : 0);
	X.tmpl_argv = tmpl;
	X.tmpl_argc = 2;
	X.argv = ARGV;
	X.argv_cap = 3;
	PATHBUF[0] = 'd'; PATHBUF[1] = '/'; PATHBUF[2] = 'f'; PATHBUF[3] = 0;
	FTW.nameoff = 2;
	FTW.at_fd = at ? 30 : (int)AT_FDCWD;
	FTW.at_path = at ? PATHBUF + 2 : PATHBUF;
	G_name = G_chdir ? "./f" : "d/f";
	G_hooks = 0;
	spawn_hook = single_hook;
	bool declined = (X.flags & BFS_EXEC_CONFIRM) && !G_yes;
	bool wd_fails = G_chdir && ((!at && G_open_fails) || (!declined && !G_init_fails && G_chdir_fails));
	bool lower = CTX.orig_nofile.rlim_cur < CTX.cur_nofile.rlim_cur;
	int r = bfs_exec(&X, &FTW);
	int e = errno;
	bool run = !declined && !G_init_fails && !wd_fails && !(lower && G_rlimit_fails) && !G_spawn_fails;
	CHECK(G_spawns == run && G_hooks <= 1, "the command is run once, unless declined or impossible");
	CHECK(IMPLIES(run, G_chdirs == G_chdir && IMPLIES(G_chdir, G_chdir_fd == (at ? 30 : 50))), "-execdir runs the command in the parent directory");
	CHECK((r == 0) == (run && !G_wait_fails && (G_wstatus & 0xFF7F) == 0), "-exec is true exactly if the command exits with status 0");
	bool cantopen = G_chdir && !at && G_open_fails;
	CHECK(e == ((declined && !cantopen) || (run && !G_wait_fails) ? 0 : G_errno), "a command that could not be run is an error");
	CHECK(X.wd_fd < 0 && !X.wd_path && G_closes == (G_opens && !G_open_fails), "the working directory is closed again");
	DONE();
}

// --------------------------------------------------------- many files: ... {} +

#ifndef NA
#  define NA 3
#endif
static int G_runs, G_limit_runs;
static size_t G_first, G_last_argc, G_total;
static bool G_hard, G_failed, G_e2big;
static char *PEND[NA];
/** bfs_exec_spawn() by its contract (h_spawn): success, failure, or an error. */
int m_spawn(const struct bfs_exec *x) {
	CHECK(x == &X, "the buffered command is run");
	CHECK(x->argc >= 2 && x->argc <= 1 + NA, "a command is run only for at least one file");
	CHECK(x->argc < x->argv_cap, "the command line fits its buffer");
	CHECK(x->argv[0] == A0, "the command is the one given");
	CHECK(x->argv[x->argc] == NULL, "the command line is terminated");
	for (size_t i = 0; i < NA; ++i) {
		if (i + 1 < x->argc) { CHECK(x->argv[i + 1] == PEND[G_first + i], "the files are passed in order, none twice, none skipped"); }
	}
	CHECK(x->argc <= G_last_argc, "a command line that was too long is shortened");
	++G_runs;
	G_e2big = false;
	int outcome = IN_RANGE(uint8_t, "outcome", 0, 3);
	ASSUME(G_runs < G_limit_runs || outcome != 3);
	switch (outcome) {
	case 0:
		G_first += x->argc - 1;
		G_last_argc = 1 + NA;
		errno = 0;
		return 0;
	case 1:
		G_first += x->argc - 1;
		G_last_argc = 1 + NA;
		errno = 0;
		G_failed = true;
		return -1;
	case 2:
		G_failed = G_hard = true;
		errno = ENOENT;
		return -1;
	default:
		G_e2big = true;
		G_last_argc = x->argc - 1;
		errno = E2BIG;
		return -1;
	}
}

/** A pending command with up to NA files of various sizes. */
static char *some_args(size_t i) {
	static const size_t sizes[] = { 2, 40, 7, 1 };
	char *p = malloc(sizes[i % 4] + 1);
	ASSUME(p);
	for (size_t j = 0; j < sizes[i % 4]; ++j) { p[j] = 'x'; }
	p[sizes[i % 4]] = 0;
	return p;
}
static size_t size_of(size_t i) {
	static const size_t sizes[] = { 2, 40, 7, 1 };
	return sizeof(char *) + sizes[i % 4] + 1;
}

// @unit h_flush props=C09 covers=bfs_exec_flush,bfs_exec_update_min,bfs_exec_update_max,bfs_exec_estimate_max,bfs_exec_args_remain
//  + subst=bfs_exec_spawn:m_spawn bounded="at most 3 pending files, with fixed lengths; arbitrary size limits" native=no unwind=6 unwindset=some_args.0:42,strlen.0:42
void h_flush(void) {
	setup();
	X.flags = BFS_EXEC_MULTI;
	X.tmpl_argc = 2;
	X.argv_cap = 2 + NA;
	char *argv[2 + NA];
	X.argv = argv;
	argv[0] = A0;
	size_t n = IN_RANGE(uint8_t, "n", 0, NA);
	size_t total = 0;
	for (size_t i = 0; i < NA; ++i) {
		PEND[i] = some_args(i);
		argv[i + 1] = PEND[i];
		if (i < n) { total += size_of(i); }
	}
	X.argc = 1 + n;
	X.arg_size = total;
	X.arg_max = IN_RANGE(uint32_t, "arg_max", 0, BFS_EXEC_ARG_MAX);
	X.arg_min = IN_RANGE(uint32_t, "arg_min", 0, BFS_EXEC_ARG_MAX);
	ASSUME(X.arg_min <= X.arg_max);
	G_first = 0;
	G_runs = 0;
	G_limit_runs = NA + 1;
	G_last_argc = 1 + n;
	G_hard = G_failed = G_e2big = false;
	int r = bfs_exec_flush(&X);
	int e = errno;
	// If the last attempt was too long, bfs gave up: that has to be reported
	if (G_e2big) { G_failed = G_hard = true; }
	CHECK(IMPLIES(n > 0, G_runs > 0), "the pending command is run");
	CHECK((r != 0) == G_failed, "a failure is reported, and only a failure");
	CHECK((e != 0) == G_hard, "a command that could not be run is an error");
	CHECK(X.arg_min <= X.arg_max, "the size estimate stays consistent");
	if (!G_hard) {
		CHECK(IMPLIES(n > 0, G_first > 0), "progress is made");
		CHECK(X.argc == 1 + n - G_first, "files that did not fit are kept");
		size_t left = 0;
		for (size_t i = 0; i < NA; ++i) {
			if (i + 1 < X.argc) { CHECK(argv[i + 1] == PEND[G_first + i], "files that did not fit are kept in order"); }
			if (i >= G_first && i < n) { left += size_of(i); }
		}
		CHECK(X.arg_size == left, "the size of the command line is tracked");
	} else {
		CHECK(X.argc == 1 && X.arg_size == 0, "a command that cannot be run is dropped, and reported");
	}
	DONE();
}

// @unit h_push props=C09 covers=bfs_exec_push bounded="argument buffers of at most 5 entries" unwind=9 link=vf_libc.c,alloc.c
void h_push(void) {
	setup();
	size_t cap = IN_RANGE(uint8_t, "cap", 2, 5);
	char **argv = malloc(cap * sizeof(char *));
	ASSUME(argv);
	X.argv = argv;
	X.argv_cap = cap;
	X.argc = IN_RANGE(uint8_t, "argc", 1, 4);
	ASSUME(X.argc + 1 <= cap);
	for (size_t i = 0; i < 5; ++i) {
		if (i < X.argc) { argv[i] = A1; }
	}
	size_t k = IN_RANGE(uint8_t, "k", 0, 4);
	size_t argc = X.argc;
	X.arg_size = IN(uint32_t, "arg_size");
	size_t size = X.arg_size;
	int r = bfs_exec_push(&X, A0);
	ASSUME(r == 0);
	CHECK(X.argc == argc + 1 && X.argv[argc] == A0, "the file is added to the command line");
	CHECK(IMPLIES(k < argc, X.argv[k] == A1), "earlier arguments are kept");
	CHECK(X.argc < X.argv_cap && OK_RW(X.argv, X.argv_cap * sizeof(char *)), "there is room for the terminator");
	CHECK(X.arg_size == size + sizeof(char *) + 4, "the size of the command line is tracked");
	DONE();
}

static int G_next, G_flushed_at;
static char NAMES[NA][4];
static int DIRS[NA];
static bool G_execdir;
/** What is pending is exactly the files seen and not yet run, in order. */
static void pending_ok(const struct bfs_exec *x) {
	for (size_t i = 0; i < NA; ++i) {
		if (i + 1 < x->argc) { CHECK(x->argv[i + 1] == PEND[G_first + i], "files are buffered in order, none twice, none skipped"); }
	}
}
/** bfs_exec_flush() by its contract (h_flush): runs at least one file, keeps the rest. */
int m_flush(struct bfs_exec *x) {
	if (x->argc < 2) {
		errno = 0;
		return 0;
	}
	pending_ok(x);
	if (G_execdir) {
		for (size_t i = 0; i < NA; ++i) {
			if (i + 1 < x->argc) { CHECK(x->wd_fd == (DIRS[G_first + i] ? 100 + DIRS[G_first + i] : -1), "the command runs in the directory of each of its files"); }
		}
	}
	size_t n = x->argc - 1;
	size_t k = IN_RANGE(uint8_t, "k", 1, NA);
	ASSUME(k <= n);
	for (size_t i = 0; i < NA; ++i) {
		if (k + i < n) { x->argv[1 + i] = x->argv[1 + k + i]; }
	}
	x->argc -= k;
	G_first += k;
	if (IN_BOOL("fails")) {
		G_failed = true;
		errno = 0;
		return -1;
	}
	return 0;
}
bool m_would_overflow(const struct bfs_exec *x, const char *arg) {
	CHECK(arg == PEND[G_next], "the size of the new argument counts");
	return IN_BOOL("overflow");
}
char *m_format_path(const struct bfs_exec *x, const struct BFTW *ftwbuf) {
	return PEND[G_next];
}
/** bfs_exec_push() by its contract (h_push). */
int m_push(struct bfs_exec *x, char *arg) {
	CHECK(x->argc <= NA, "no file is buffered twice");
	x->argv[x->argc++] = arg;
	return 0;
}
int m_dup(int fd) { return fd + 100; }

static void batch_setup(void) {
	static char *argv[NA + 3];
	setup();
	X.tmpl_argc = 2;
	X.argv_cap = NA + 3;
	X.argv = argv;
	X.argv[0] = A0;
	X.argc = 1;
	X.arg_size = 0;
	X.arg_max = X.arg_min = 1000;
	for (size_t i = 0; i < NA; ++i) { PEND[i] = NAMES[i]; }
	G_first = 0;
	G_failed = false;
}
static void batch_finish(void) {
	int r = bfs_exec_finish(&X);
	CHECK(G_first == NA, "every file is passed to exactly one command");
	CHECK(X.argc == 1, "no files are left over");
	CHECK((r != 0) == G_failed, "a failed command is reported at the end");
}

// @unit h_batch props=C09,C12 covers=bfs_exec,bfs_exec_multi,bfs_exec_finish
//  + subst=bfs_exec_flush:m_flush,bfs_exec_push:m_push,bfs_exec_format_path:m_format_path,bfs_exec_would_overflow:m_would_overflow bounded="3 files" native=no unwind=6
void h_batch(void) {
	batch_setup();
	X.flags = BFS_EXEC_MULTI;
	G_execdir = false;
	for (G_next = 0; G_next < NA; ++G_next) {
		CHECK(bfs_exec(&X, &FTW) == 0, "-exec ... + is always true");
		pending_ok(&X);
		CHECK(X.argc >= 2, "the file is buffered");
	}
	CHECK(G_chdirs == 0 && G_opens == 0, "-exec does not change directories");
	batch_finish();
	DONE();
}

// @unit h_batchdir props=C09,C12 covers=bfs_exec_multi,bfs_exec_finish,bfs_exec_changed_dirs,bfs_exec_openwd,bfs_exec_closewd
//  + subst=bfs_exec_flush:m_flush,bfs_exec_push:m_push,bfs_exec_format_path:m_format_path,bfs_exec_would_overflow:m_would_overflow,dup_cloexec:m_dup
//  + bounded="3 files in 3 directories" native=no unwind=6
void h_batchdir(void) {
	batch_setup();
	X.flags = BFS_EXEC_MULTI | BFS_EXEC_CHDIR;
	G_execdir = true;
	for (G_next = 0; G_next < NA; ++G_next) {
		// The current directory, a/, b/, or bb/
		int d = DIRS[G_next] = IN_RANGE(uint8_t, "dir", 0, 3);
		static const char *const paths[] = { "x", "a/x", "b/x", "bb/x" };
		FTW.path = paths[d];
		FTW.nameoff = d == 0 ? 0 : d == 3 ? 3 : 2;
		FTW.at_fd = d == 0 ? (int)AT_FDCWD : d;
		FTW.at_path = "x";
		CHECK(bfs_exec(&X, &FTW) == 0, "-execdir ... + is always true");
		pending_ok(&X);
		CHECK(X.argc >= 2, "the file is buffered");
		for (size_t i = 0; i < NA; ++i) {
			if (i + 1 < X.argc) { CHECK(DIRS[G_first + i] == d, "files of different directories are not mixed"); }
		}
	}
	batch_finish();
	DONE();
}

// @unit h_batch_open props=C09,C12 covers=bfs_exec_multi,bfs_exec_openwd,bfs_exec_closewd
//  + subst=bfs_exec_flush:m_flush,bfs_exec_push:m_push,bfs_exec_format_path:m_format_path,bfs_exec_would_overflow:m_would_overflow
//  + bounded="2 root paths in the same or different directories" native=no unwind=6
void h_batch_open(void) {
	batch_setup();
	X.flags = BFS_EXEC_MULTI | BFS_EXEC_CHDIR;
	G_execdir = false;
	FTW.nameoff = 2;
	FTW.at_fd = (int)AT_FDCWD;
	size_t want = 0;
	for (int i = 0; i < 2; ++i) {
		bool d = IN_BOOL("dir");
		FTW.path = FTW.at_path = d ? "a/x" : "b/x";
		G_open_fails = IN_BOOL("open_fails");
		char *f = malloc(4);
		ASSUME(f);
		f[0] = 0;
		PEND[want] = f;
		G_next = want;
		size_t before = G_opens;
		errno = 0;
		CHECK(bfs_exec(&X, &FTW) == 0, "-execdir ... + is always true");
		bool failed = (size_t)G_opens > before && G_open_fails;
		if (failed) {
			CHECK(errno == G_errno && X.ret != 0, "a directory that cannot be opened is reported");
		} else {
			++want;
			CHECK(X.wd_fd == 50, "the file runs in its own directory");
		}
		CHECK(X.argc - 1 + G_first == want, "exactly the files whose directory could be opened are buffered");
	}
	DONE();
}

// ---------------------------------------------------------------------- parsing

#define NTOK 4
static char *TOKV[NTOK + 2];
static enum { T_END, T_WORD, T_SEMI, T_PLUS, T_BRACES, T_EMBED } TOK[NTOK + 1];

// @unit h_exec_parse props=C08,C09 covers=bfs_exec_parse,bfs_exec_arg_max,bfs_exec_free bounded="at most 4 words after -exec" unwind=7 link=vf_libc.c,alloc.c
//  + drop=bfs_exec_parse_error,bfs_exec_debug native=no
char **environ;
void h_exec_parse(void) {
	setup();
	static char *env[] = { NULL };
	environ = env;
	static char *const words[] = { NULL, A0, ";", "+", "{}", "a{}" };
	TOKV[0] = A1;
	for (int i = 0; i < NTOK; ++i) {
		TOK[i] = IN_RANGE(uint8_t, "word", T_END, T_EMBED);
		if (i > 0 && TOK[i - 1] == T_END) { ASSUME(TOK[i] == T_END); }
		TOKV[i + 1] = words[TOK[i]];
	}
	TOK[NTOK] = T_END;
	TOKV[NTOK + 1] = NULL;
	bool confirm = IN_BOOL("confirm");
	// The command ends at the first ; or at the first {} + (except for -ok)
	int end = -1;
	bool multi = false;
	for (int i = 0; i < NTOK; ++i) {
		if (TOK[i] == T_END) { break; }
		if (TOK[i] == T_SEMI) { end = i; break; }
		if (i > 0 && !confirm && TOK[i] == T_PLUS && TOK[i - 1] == T_BRACES) { end = i; multi = true; break; }
	}
	bool ok = end > 0;
	if (multi) {
		for (int i = 0; i < NTOK; ++i) {
			if (i < end - 1 && (TOK[i] == T_BRACES || TOK[i] == T_EMBED)) { ok = false; }
		}
	}
	struct bfs_exec *x = bfs_exec_parse(&CTX, TOKV, confirm ? BFS_EXEC_CONFIRM : 0);
	CHECK((x != NULL) == ok, "exactly complete commands are accepted");
	CHECK((vf_diags > 0) == !ok, "anything else is rejected with a message");
	if (x) {
		CHECK(x->tmpl_argv == TOKV + 1 && x->tmpl_argc == (size_t)end, "the command is everything up to the terminator");
		CHECK(!!(x->flags & BFS_EXEC_MULTI) == multi && !!(x->flags & BFS_EXEC_CONFIRM) == confirm, "{} + batches files");
		CHECK(x->argv_cap > x->tmpl_argc && OK_RW(x->argv, x->argv_cap * sizeof(char *)), "there is room for the command");
		CHECK(x->wd_fd < 0 && !x->wd_path && x->ret == 0 && x->arg_size == 0, "the buffer starts empty");
		if (multi) {
			CHECK(x->argc == (size_t)end - 1, "the buffer starts with the fixed arguments");
			for (int i = 0; i < NTOK; ++i) {
				if (i < end - 1) { CHECK(x->argv[i] == TOKV[i + 1], "the fixed arguments are passed unchanged"); }
			}
			CHECK(x->arg_min <= x->arg_max && x->arg_max <= BFS_EXEC_ARG_MAX, "the size estimate is consistent");
		}
	}
	DONE();
}
