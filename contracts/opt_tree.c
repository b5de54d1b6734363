// Contracts for the tree-rewriting passes of src/opt.c (C06): annotation,
// canonicalization, reordering, simplification, and bfs_optimize() itself.
//
// Each pass is run on one operator node whose operands are arbitrary:
// opaque sub-expressions (with any truth value, any side effect, possibly one
// that ends the evaluation), constants, negations, or nested operators.  The
// result must have the same side effects in the same order and, unless the
// result is ignored, the same truth value.
// @file link=expr.c,vf_libc.c unwind=5 props=C06 drop=df_dump solver=minisat2
//  + unwindset=annotate_visit.0:34,annotate_visit.1:34,annotate_visit.2:34,annotate_visit.3:34,annotate_visit.4:34,annotate_visit.5:34,look_up_visitor.0:20
#include "vf.h"
#include "opt_env.h"

#define NOPQ 6

/** Opaque sub-expressions are numbered by argc. */
static bool T[NOPQ], PURE[NOPQ], QUIT[NOPQ], AT[NOPQ], AF[NOPQ];
// (Separate objects, not arrays: the verifier tracks their fields one by one)
static struct bfs_expr ROOT, OPQ0, OPQ1, OPQ2, OPQ3, OPQ4, OPQ5, SUB0, SUB1, SUB2;
static struct bfs_expr *opq(int i) {
	switch (i) {
	case 0: return &OPQ0;
	case 1: return &OPQ1;
	case 2: return &OPQ2;
	case 3: return &OPQ3;
	case 4: return &OPQ4;
	default: return &OPQ5;
	}
}
static struct bfs_expr *sub(int i) {
	return i == 0 ? &SUB0 : i == 1 ? &SUB1 : &SUB2;
}
static struct CFILE CF;

/** Opaque sub-expression i; pure: 0, 1 or -1 for either. */
static void opaque(int i, int pure) {
	T[i] = IN_BOOL("truth");
	PURE[i] = pure < 0 ? IN_BOOL("pure") : pure;
	QUIT[i] = IN_BOOL("quit");
	AT[i] = IN_BOOL("always_true");
	AF[i] = IN_BOOL("always_false");
	if (pure == 1) {
		QUIT[i] = false;
	}
	if (QUIT[i]) {
		// "Non-returning"
		if (pure < 0) { PURE[i] = false; }
		AT[i] = AF[i] = true;
	} else if (T[i]) {
		AF[i] = false;
	} else {
		AT[i] = false;
	}
	struct bfs_expr *e = opq(i);
	e->eval_fn = eval_name;
	e->argc = i;
	e->kind = IN_BOOL("test") ? BFS_TEST : BFS_ACTION;
	e->next = NULL;
	e->pure = PURE[i];
	e->always_true = AT[i];
	e->always_false = AF[i];
	e->persistent_fds = IN_RANGE(uint8_t, "fds", 0, 3);
	e->ephemeral_fds = IN_RANGE(uint8_t, "fds", 0, 3);
#ifdef VF_NATIVE
	e->cost = IN_RANGE(uint16_t, "cost", 0, 65535);
	e->probability = IN_RANGE(uint8_t, "prob", 0, 4) / 4.0f;
#else
	// Costs only matter to the order, and expr_cost() may return anything
	e->cost = i * 100.0f;
	e->probability = 0.25f;
#endif
}

static void annotated(struct bfs_expr *e, bool pure, bool at, bool af) {
	e->pure = pure;
	e->always_true = at;
	e->always_false = af;
}

static void parent(struct bfs_expr *e, bfs_eval_fn *fn) {
	e->eval_fn = fn;
	e->kind = BFS_OPERATOR;
	e->next = NULL;
	e->argc = 1;
	e->persistent_fds = e->ephemeral_fds = 0;
	e->cost = 1;
	e->probability = 0.5;
	annotated(e, true, false, false);
	SLIST_INIT(&e->children);
}

enum { OPAQUE, CONST_TRUE, CONST_FALSE, NOT, NEST0, NEST1, NEST2, KINDS };

/** An operand: opaque, constant, a negation, or an operator. */
static struct bfs_expr *operand(int i, int k, bfs_eval_fn *nest, int pure) {
	struct bfs_expr *s = sub(i);
	opaque(2 * i, pure);
	opaque(2 * i + 1, pure);
	struct bfs_expr *a = opq(2 * i), *b = opq(2 * i + 1);
	parent(s, eval_not);
	if (k == OPAQUE) {
		return a;
	} else if (k == CONST_TRUE || k == CONST_FALSE) {
		s->eval_fn = k == CONST_TRUE ? eval_true : eval_false;
		annotated(s, true, k == CONST_TRUE, k == CONST_FALSE);
		s->kind = BFS_TEST;
	} else if (k == NOT) {
		bfs_expr_append(s, a);
		annotated(s, a->pure, a->always_false, a->always_true);
	} else {
		s->eval_fn = nest;
		int n = k - NEST0;
		if (n > 0) { bfs_expr_append(s, a); }
		if (n > 1) { bfs_expr_append(s, b); }
		// Nested operators are annotated already
		annotated(s, true, nest == eval_and, nest == eval_or);
		for (int j = 0; j < n; ++j) {
			struct bfs_expr *o = j ? b : a;
			s->pure = s->pure && o->pure;
			if (nest == eval_and) {
				s->always_true = s->always_true && o->always_true;
				s->always_false = s->always_false || o->always_false;
			} else if (nest == eval_or) {
				s->always_true = s->always_true || o->always_true;
				s->always_false = s->always_false && o->always_false;
			} else {
				s->always_true = o->always_true;
				s->always_false = o->always_false;
			}
		}
	}
	return s;
}

// ------------------------------------------------------------------- meaning

struct sem {
	/** Side effects so far. */
	unsigned long trace;
	/** Whether evaluation has ended. */
	bool quit;
	/** The result (if !quit). */
	bool truth;
};

/** Evaluation of an expression without operands. */
static struct sem sem0(const struct bfs_expr *e, struct sem s) {
	if (s.quit) {
		return s;
	}
	if (e->eval_fn == eval_true) {
		s.truth = true;
	} else if (e->eval_fn == eval_false) {
		s.truth = false;
	} else {
		CHECK(e->eval_fn == eval_name, "only the original operands and constants appear");
		size_t i = e->argc;
		if (!PURE[i]) {
			s.trace = s.trace * 8 + i + 1;
		}
		s.quit = QUIT[i];
		s.truth = T[i];
	}
	return s;
}

/** Strip a negation. */
static const struct bfs_expr *peel(const struct bfs_expr *e, bool *neg) {
	*neg = e->eval_fn == eval_not;
	if (*neg) {
		e = e->children.head;
		CHECK(e && !e->next, "a negation has one operand");
		ASSUME(e && !e->next);
	}
	return e;
}

/** A possibly negated expression without operands. */
static struct sem sem_lit(const struct bfs_expr *e, struct sem s) {
	bool neg;
	e = peel(e, &neg);
	s = sem0(e, s);
	s.truth ^= neg;
	return s;
}

#define SEM_OP(name, sub) \
static struct sem name(const struct bfs_expr *e, struct sem s) { \
	if (e->eval_fn != eval_and && e->eval_fn != eval_or && e->eval_fn != eval_comma) { \
		return sem_lit(e, s); \
	} \
	bool conj = e->eval_fn == eval_and, comma = e->eval_fn == eval_comma; \
	bool live = !s.quit; \
	if (live) { s.truth = conj; } \
	for (const struct bfs_expr *c = e->children.head; c; c = c->next) { \
		if (live) { \
			s = sub(c, s); \
			live = !s.quit && (comma || s.truth == conj); \
		} \
	} \
	return s; \
}
/** An operator over literals. */
SEM_OP(sem_node, sem_lit)
/** An operator over operators over literals. */
SEM_OP(sem_deep, sem_node)

static struct sem sem_root(const struct bfs_expr *e, bool deep) {
	struct sem s = { 0, false, false };
	bool neg;
	e = peel(e, &neg);
	s = deep ? sem_deep(e, s) : sem_node(e, s);
	s.truth ^= neg;
	return s;
}

static void tree_setup(void) {
	CTX.cerr = &CERR;
	OPT.ctx = &CTX;
	OPT.level = IN_RANGE(uint8_t, "level", 0, 4);
	OPT.depth = 1;
	OPT.warn = IN_BOOL("warn");
	OPT.ignore_result = false;
	OPT.impure = &IMPURE;
}

static void same(struct sem before, struct sem after, bool ignored) {
	CHECK(after.trace == before.trace, "the same side effects happen in the same order");
	CHECK(after.quit == before.quit, "evaluation ends in the same cases");
	CHECK(ignored || before.quit || after.truth == before.truth, "the result is the same");
}

static void sound(const struct bfs_expr *e, struct sem s) {
	CHECK(IMPLIES(e->pure, s.trace == 0 && !s.quit), "an expression marked pure has no side effects");
	CHECK(IMPLIES(e->always_true && !s.quit, s.truth), "an expression marked always true is");
	CHECK(IMPLIES(e->always_false && !s.quit, !s.truth), "an expression marked always false is");
}

/** Run a pass on ROOT. */
static void run_pass(const struct visitor *v, bool annotates, bool b4, bool aft) {
	struct sem before = sem_root(&ROOT, b4);
	struct bfs_expr *e = visit_shallow(&OPT, &ROOT, v);
	CHECK(e, "an expression is returned");
	if (e) {
		struct sem after = sem_root(e, aft);
		same(before, after, OPT.ignore_result);
		CHECK(IMPLIES(e->pure, after.trace == 0 && !after.quit), "an expression marked pure has no side effects");
		if (annotates) {
			sound(e, after);
		}
	}
}

/** One pass over one operator with n arbitrary operands. */
static void pass(const struct visitor *v, bfs_eval_fn *fn, int n, bool annotates) {
	tree_setup();
	OPT.ignore_result = IN_BOOL("ignore");
	parent(&ROOT, fn);
	for (int i = 0; i < n; ++i) {
		bfs_expr_append(&ROOT, operand(i, IN_RANGE(uint8_t, "kind", 0, NOT), NULL, -1));
	}
	run_pass(v, annotates, false, false);
	DONE();
}

/** One pass over each shape of one operator with operands that may be operators. */
static void pass_shapes(const struct visitor *v, bfs_eval_fn *fn, int n, bfs_eval_fn *nest, bool annotates, bool b4, bool aft) {
	tree_setup();
	OPT.ignore_result = IN_BOOL("ignore");
	for (int k0 = 0; k0 < KINDS; ++k0) {
		for (int k1 = 0; k1 < (n > 1 ? KINDS : 1); ++k1) {
			if (nest == eval_comma && (k0 == NEST0 || k1 == NEST0)) {
				continue;
			}
			parent(&ROOT, fn);
			bfs_expr_append(&ROOT, operand(0, k0, nest, -1));
			if (n > 1) {
				bfs_expr_append(&ROOT, operand(1, k1, nest, -1));
			}
			run_pass(v, annotates, b4, aft);
		}
	}
	DONE();
}

/** Reordering of 3 operands, for one choice of which are pure. */
static void order(bfs_eval_fn *fn, int p) {
	parent(&ROOT, fn);
	for (int i = 0; i < 3; ++i) {
		bfs_expr_append(&ROOT, operand(i, OPAQUE, NULL, (p >> i) & 1));
	}
	run_pass(&reorder, true, false, false);
}
static void pass_order(bfs_eval_fn *fn) {
	tree_setup();
	OPT.ignore_result = IN_BOOL("ignore");
	order(fn, 0);
	order(fn, 1);
	order(fn, 2);
	order(fn, 4);
	order(fn, 5);
	order(fn, 6);
	order(fn, 7);
	DONE();
}
static void pass_order3(bfs_eval_fn *fn) {
	tree_setup();
	OPT.ignore_result = IN_BOOL("ignore");
	order(fn, 3);
	DONE();
}

// @unit h_canon_and covers=canonicalize_assoc unwind=10 bounded="2 operands, each with up to 2 operands of its own"
void h_canon_and(void) { pass_shapes(&canonicalize, eval_and, 2, eval_and, true, true, false); }
// @unit h_canon_or covers=canonicalize_assoc unwind=10 bounded="2 operands, each with up to 2 operands of its own"
void h_canon_or(void) { pass_shapes(&canonicalize, eval_or, 2, eval_or, true, true, false); }
// @unit h_canon_comma covers=canonicalize_assoc unwind=10 bounded="2 operands, each with up to 2 operands of its own"
void h_canon_comma(void) { pass_shapes(&canonicalize, eval_comma, 2, eval_comma, true, true, false); }
// @unit h_canon_mixed covers=canonicalize_assoc unwind=10 bounded="2 operands, nested 2"
void h_canon_mixed(void) { pass_shapes(&canonicalize, eval_and, 2, eval_or, true, true, true); }
// @unit h_canon_not_and covers=canonicalize_not,sink_not_andor,negate_expr unwind=10 bounded="nested 2"
void h_canon_not_and(void) { pass_shapes(&canonicalize, eval_not, 1, eval_and, false, false, false); }
// @unit h_canon_not_or covers=canonicalize_not,sink_not_andor,negate_expr unwind=10 bounded="nested 2"
void h_canon_not_or(void) { pass_shapes(&canonicalize, eval_not, 1, eval_or, false, false, false); }
// @unit h_canon_not_comma covers=canonicalize_not,sink_not_comma,negate_expr unwind=10 bounded="nested 2"
void h_canon_not_comma(void) { pass_shapes(&canonicalize, eval_not, 1, eval_comma, false, false, false); }
// @unit h_reorder_and covers=reorder_andor,sort_exprs drop=df_dump,expr_cost unwind=4 assume="the cost function may return anything" bounded="3 operands"
void h_reorder_and(void) { pass_order(eval_and); }
// @unit h_reorder_or covers=reorder_andor,sort_exprs drop=df_dump,expr_cost unwind=4 assume="the cost function may return anything" bounded="3 operands"
void h_reorder_or(void) { pass_order(eval_or); }
// @unit h_reorder_and3 covers=reorder_andor,sort_exprs drop=df_dump,expr_cost unwind=4 assume="the cost function may return anything" bounded="3 operands"
void h_reorder_and3(void) { pass_order3(eval_and); }
// @unit h_reorder_or3 covers=reorder_andor,sort_exprs drop=df_dump,expr_cost unwind=4 assume="the cost function may return anything" bounded="3 operands"
void h_reorder_or3(void) { pass_order3(eval_or); }
// @unit h_simp_not covers=simplify_not
void h_simp_not(void) { pass(&simplify, eval_not, 1, false); }
// @unit h_simp_and covers=simplify_and,lift_andor_not,first_ignorable bounded="3 operands"
void h_simp_and(void) { pass(&simplify, eval_and, 3, true); }
// @unit h_simp_or covers=simplify_or,lift_andor_not,first_ignorable bounded="3 operands"
void h_simp_or(void) { pass(&simplify, eval_or, 3, true); }
// @unit h_simp_comma covers=simplify_comma bounded="3 operands"
void h_simp_comma(void) { pass(&simplify, eval_comma, 3, false); }

// ---------------------------------------------------------------- annotation

// @unit h_ann_not covers=annotate_not
void h_ann_not(void) { pass(&annotate, eval_not, 1, true); }
// @unit h_ann_and covers=annotate_and bounded="3 operands"
void h_ann_and(void) { pass(&annotate, eval_and, 3, true); }
// @unit h_ann_or covers=annotate_or bounded="3 operands"
void h_ann_or(void) { pass(&annotate, eval_or, 3, true); }
// @unit h_ann_comma covers=annotate_comma bounded="3 operands"
void h_ann_comma(void) { pass(&annotate, eval_comma, 3, true); }

/** Primaries, with what the manual says about them. */
enum { ACTS = 1, TRUE_ = 2, FALSE_ = 4, MAY_REPORT = 8 };
static const struct {
	bfs_eval_fn *fn;
	int what;
} PRIM[] = {
	{eval_access, 0}, {eval_acl, 0}, {eval_capable, 0}, {eval_depth, 0}, {eval_flags, 0}, {eval_fstype, 0},
	{eval_gid, 0}, {eval_hidden, 0}, {eval_inum, 0}, {eval_links, 0}, {eval_lname, 0}, {eval_name, 0},
	{eval_newer, 0}, {eval_nogroup, 0}, {eval_nouser, 0}, {eval_path, 0}, {eval_perm, 0}, {eval_regex, 0},
	{eval_samefile, 0}, {eval_size, 0}, {eval_sparse, 0}, {eval_time, 0}, {eval_type, 0}, {eval_uid, 0},
	{eval_used, 0}, {eval_xattr, 0}, {eval_xattrname, 0},
	{eval_true, TRUE_}, {eval_false, FALSE_},
	{eval_empty, MAY_REPORT}, {eval_xtype, MAY_REPORT},
	{eval_delete, ACTS}, {eval_exec, ACTS},
	{eval_exit, ACTS | TRUE_ | FALSE_}, {eval_quit, ACTS | TRUE_ | FALSE_},
	{eval_fls, ACTS | TRUE_}, {eval_fprint, ACTS | TRUE_}, {eval_fprint0, ACTS | TRUE_},
	{eval_fprintf, ACTS | TRUE_}, {eval_fprintx, ACTS | TRUE_},
	{eval_limit, ACTS | TRUE_}, {eval_prune, ACTS | TRUE_},
};
static struct bfs_exec EXEC;

// @unit h_ann_leaf covers=annotate_visit unwind=50
void h_ann_leaf(void) {
	tree_setup();
	for (unsigned int i = 0; i < countof(PRIM); ++i) {
		opaque(0, -1);
		struct bfs_expr *e = &OPQ0;
		e->eval_fn = PRIM[i].fn;
		e->num = IN(long long, "num");
		if (e->eval_fn == eval_exec) {
			EXEC.flags = IN_BOOL("multi") ? BFS_EXEC_MULTI : 0;
			e->exec = &EXEC;
		} else if (e->eval_fn == eval_fprint) {
			CF.colors = NULL;
			e->cfile = &CF;
		}
		int what = PRIM[i].what;
		bool multi = e->eval_fn == eval_exec && EXEC.flags == BFS_EXEC_MULTI;
		struct bfs_expr *r = visit_shallow(&OPT, e, &annotate);
		CHECK(r == e, "annotation keeps the expression");
		CHECK(e->eval_fn == PRIM[i].fn, "annotation does not change the meaning");
		CHECK(IMPLIES(what & ACTS, !e->pure), "actions are never pure");
		CHECK(IMPLIES((what & MAY_REPORT) && OPT.level < 4, !e->pure), "tests that may report errors are pure only at -O4");
		CHECK(IMPLIES(e->always_true, (what & TRUE_) || multi), "always_true only for primaries that always return true");
		CHECK(IMPLIES(e->always_false, what & FALSE_), "always_false only for primaries that always return false");
	}
	DONE();
}

// ------------------------------------------------------------- whole program

static struct bfs_expr EXCL, EXPR;
static bool G_excluded, G_acts;
static int G_calls;

/** What optimize() guarantees, for an arbitrary file F. */
struct bfs_expr *any_optimize(struct bfs_opt *opt, struct bfs_expr *expr) {
	bool reach = in_dom(&opt->before), imp = in_dom(opt->impure);
	if (G_calls++ == 0) {
		CHECK(expr == &EXCL, "-exclude is optimized first");
		CHECK(reach, "any file may reach -exclude");
		CHECK(!opt->ignore_result, "the result of -exclude matters");
	} else {
		CHECK(expr == &EXPR, "the main expression is optimized last");
	}
	any_dom(&opt->after_true);
	any_dom(&opt->after_false);
	if (expr == &EXCL) {
		ASSUME(IMPLIES(reach, in_dom(G_excluded ? &opt->after_true : &opt->after_false)));
	} else {
		ASSUME(IMPLIES(reach, in_dom(&opt->after_true) || in_dom(&opt->after_false)));
	}
	any_dom(opt->impure);
	ASSUME(IMPLIES(imp || (expr == &EXPR && reach && G_acts), in_dom(opt->impure)));
	return expr;
}

// @unit h_optimize covers=bfs_optimize subst=optimize:any_optimize drop=df_dump,estimate_stat_odds,estimate_odds native=no unwind=34
//  + assume="optimize() is represented by what the other units establish"
void h_optimize(void) {
	setup();
	G_excluded = IN_BOOL("excluded");
	G_acts = IN_BOOL("acts");
	EXCL.eval_fn = eval_false;
	EXPR.eval_fn = eval_name;
	CTX.exclude = &EXCL;
	CTX.expr = &EXPR;
	CTX.threads = 1;
	CTX.optlevel = IN_RANGE(uint8_t, "level", 0, 4);
	int min = CTX.mindepth = IN_RANGE(int, "mindepth", 0, INT_MAX);
	int max = CTX.maxdepth = IN_RANGE(int, "maxdepth", 0, INT_MAX);
	long long depth = F.ranges[DEPTH_RANGE];
	ASSUME(depth <= INT_MAX);

	int ret = bfs_optimize(&CTX);
	CHECK(ret == 0, "optimization succeeds");
	CHECK(G_calls == 2, "both expressions are optimized");
	CHECK(CTX.exclude == &EXCL && CTX.expr == &EXPR, "the optimized expressions are used");
	CHECK(CTX.mindepth >= min && CTX.maxdepth <= max, "depth limits are never relaxed");
	if (!G_excluded && G_acts && depth >= min && depth <= max) {
		CHECK(depth >= CTX.mindepth && depth <= CTX.maxdepth, "no file that is acted upon is cut off by the new depth limits");
	}
	CHECK(IMPLIES(CTX.optlevel < 4, CTX.maxdepth == max), "traversal is cut short only at -O4");
	DONE();
}
