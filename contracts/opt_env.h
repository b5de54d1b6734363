// Environment of the optimizer contracts: src/opt.c with its logging reduced,
// stand-ins for the evaluation functions (which opt.c only compares), and the
// meaning of the abstract domain.
#ifndef VF_OPT_ENV_H
#define VF_OPT_ENV_H
#ifndef VF_NATIVE
// Strip the varargs of opt.c's logging functions (see vf_pre.h).
#define opt_debug(opt, fmt, ...) opt_debug(opt, fmt)
#define opt_enter(opt, fmt, ...) opt_enter(opt, fmt)
#define opt_leave(opt, fmt, ...) opt_leave(opt, fmt)
#define opt_visit(opt, fmt, ...) opt_visit(opt, fmt)
#define opt_delete(opt, fmt, ...) opt_delete(opt, fmt)
#define opt_warning(opt, expr, fmt, ...) opt_warning(opt, expr, fmt)
#define dump_fn(a, b, ...) dump_fn(a, b)
#define dump(a, b, ...) dump(a, b)
#include <stdio.h>
#define fprintf(...) ((int)0)
#endif
#include "opt.c"
#ifndef VF_NATIVE
#undef fprintf
#undef dump
#endif
#include "vf_env.h"


// ------------------------------------------------------------- environment

static struct bfs_ctx CTX;
static struct CFILE CERR;
static struct bfs_opt OPT;
static struct df_domain IMPURE;

struct bfs_expr *bfs_expr_new(struct bfs_ctx *ctx, bfs_eval_fn *eval_fn, size_t argc, char **argv, enum bfs_kind kind) {
	static const struct bfs_expr zero;
	struct bfs_expr *expr = malloc(sizeof(struct bfs_expr));
	ASSUME(expr != NULL);
	*expr = zero;
	expr->next = NULL;
	expr->eval_fn = eval_fn;
	expr->argc = argc;
	expr->argv = argv;
	expr->kind = kind;
	expr->pure = expr->always_true = expr->always_false = false;
	if (bfs_expr_is_parent(expr)) {
		SLIST_INIT(&expr->children);
	}
	return expr;
}

static struct group GRP;
static struct passwd PWD;
static int G_lookup_errno;
static unsigned int G_looked_up;
static bool G_found;
const struct group *bfs_getgrgid(struct bfs_groups *groups, gid_t gid) {
	G_looked_up = gid;
	errno = G_lookup_errno;
	return G_found ? &GRP : NULL;
}
const struct passwd *bfs_getpwuid(struct bfs_users *users, uid_t uid) {
	G_looked_up = uid;
	errno = G_lookup_errno;
	return G_found ? &PWD : NULL;
}
void bfs_ctx_dump(const struct bfs_ctx *ctx, enum debug_flags flag) { }
int cvfprintf(CFILE *cfile, const char *format, va_list args) { return 0; }
int ynprompt(void) { return 1; }
bool colors_need_stat(const struct colors *colors) { return false; }

#ifndef VF_NATIVE
#define STUB(f) bool f(const struct bfs_expr *expr, struct bfs_eval *state) { return false; }
STUB(eval_access) STUB(eval_acl) STUB(eval_and) STUB(eval_capable) STUB(eval_comma) STUB(eval_delete)
STUB(eval_depth) STUB(eval_empty) STUB(eval_exec) STUB(eval_exit) STUB(eval_false) STUB(eval_flags)
STUB(eval_fls) STUB(eval_fprint) STUB(eval_fprint0) STUB(eval_fprintf) STUB(eval_fprintx) STUB(eval_fstype)
STUB(eval_gid) STUB(eval_hidden) STUB(eval_inum) STUB(eval_limit) STUB(eval_links) STUB(eval_lname)
STUB(eval_name) STUB(eval_newer) STUB(eval_nogroup) STUB(eval_not) STUB(eval_nouser) STUB(eval_or)
STUB(eval_path) STUB(eval_perm) STUB(eval_prune) STUB(eval_quit) STUB(eval_regex) STUB(eval_samefile)
STUB(eval_size) STUB(eval_sparse) STUB(eval_time) STUB(eval_true) STUB(eval_type) STUB(eval_uid)
STUB(eval_used) STUB(eval_xattr) STUB(eval_xattrname) STUB(eval_xtype)
#endif

// ------------------------------------------------------------ concretization

struct vf_file {
	bool preds[PRED_TYPES];
	long long ranges[RANGE_TYPES];
	unsigned int type, xtype;
};

/** The arbitrary file. */
static struct vf_file F;

static bool in_range(long long v, const struct df_range *r) {
	return r->min <= v && v <= r->max;
}

static bool in_dom(const struct df_domain *d) {
	for (int i = 0; i < PRED_TYPES; ++i) {
		if (!(d->preds[i] & (1 << F.preds[i]))) {
			return false;
		}
	}
	for (int i = 0; i < RANGE_TYPES; ++i) {
		if (!in_range(F.ranges[i], &d->ranges[i])) {
			return false;
		}
	}
	return ((d->types >> F.type) & 1) && ((d->xtypes >> F.xtype) & 1);
}

static void any_file(void) {
	for (int i = 0; i < PRED_TYPES; ++i) {
		F.preds[i] = IN_BOOL("f_pred");
	}
	for (int i = 0; i < RANGE_TYPES; ++i) {
		// "All ranges we currently track are non-negative"
		F.ranges[i] = IN_RANGE(long long, "f_range", 0, LLONG_MAX);
	}
	F.type = IN_RANGE(unsigned int, "f_type", 0, BFS_WHT);
	F.xtype = IN_RANGE(unsigned int, "f_xtype", 0, BFS_WHT);
	// A size rounded up to units is zero exactly when the size is
	for (int i = 0; i < 8; ++i) {
		if (F.ranges[SIZE_RANGE + BFS_BYTES] == 0) {
			F.ranges[SIZE_RANGE + i] = 0;
		} else if (F.ranges[SIZE_RANGE + i] == 0) {
			F.ranges[SIZE_RANGE + i] = 1;
		}
	}
	// -empty
	if (F.type == BFS_REG) {
		F.preds[EMPTY_PRED] = F.ranges[SIZE_RANGE + BFS_BYTES] == 0;
	} else if (F.type != BFS_DIR) {
		F.preds[EMPTY_PRED] = false;
	}
}

static void any_dom(struct df_domain *d) {
	for (int i = 0; i < PRED_TYPES; ++i) {
		d->preds[i] = IN_RANGE(uint8_t, "d_pred", 0, 3);
	}
	for (int i = 0; i < RANGE_TYPES; ++i) {
		d->ranges[i].min = IN(long long, "d_min");
		d->ranges[i].max = IN(long long, "d_max");
	}
	d->types = IN(unsigned int, "d_types");
	d->xtypes = IN(unsigned int, "d_xtypes");
	if (IN_BOOL("d_forced")) {
		// (Steers the native search; the verifier does not need it)
		for (int i = 0; i < PRED_TYPES; ++i) {
			d->preds[i] |= 1 << F.preds[i];
		}
		for (int i = 0; i < RANGE_TYPES; ++i) {
			if (!in_range(F.ranges[i], &d->ranges[i])) {
				d->ranges[i].min = d->ranges[i].max = F.ranges[i];
			}
		}
		d->types |= 1U << F.type;
		d->xtypes |= 1U << F.xtype;
	}
}


static void setup(void) {
	CTX.cerr = &CERR;
	OPT.ctx = &CTX;
	OPT.level = IN_RANGE(uint8_t, "level", 0, 4);
	OPT.depth = 1;
	OPT.warn = IN_BOOL("warn");
	OPT.ignore_result = false;
	OPT.impure = &IMPURE;
	any_file();
}

#endif
