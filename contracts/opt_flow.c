// Contracts for the data-flow analysis in src/opt.c (C06).
//
// The abstract domain is given its meaning by IN_DOM(file, domain): "file" is
// an arbitrary assignment of every tracked attribute.  The domain operations
// are specified for one arbitrary file, which (the file being universally
// quantified) is the set-theoretic statement about the whole domain.
// @file link=expr.c,vf_libc.c unwind=34 props=C06 drop=df_dump solver=minisat2
#include "vf.h"
#include "opt_env.h"

// ---------------------------------------------------------- domain operations

// @unit h_top covers=df_init_top,df_init_bottom,range_init_top,range_init_bottom
void h_top(void) {
	any_file();
	struct df_domain d;
	any_dom(&d);
	df_init_top(&d);
	CHECK(in_dom(&d), "every file is in top");
	df_init_bottom(&d);
	CHECK(!in_dom(&d), "no file is in bottom");
	CHECK(df_is_bottom(&d), "bottom is recognized");
	DONE();
}

// @unit h_bottom covers=df_is_bottom,range_is_bottom
void h_bottom(void) {
	any_file();
	struct df_domain d;
	any_dom(&d);
	if (df_is_bottom(&d)) {
		CHECK(!in_dom(&d), "a domain reported as bottom contains no file");
	}
	DONE();
}

// @unit h_join covers=df_join,range_join,pred_join
void h_join(void) {
	any_file();
	struct df_domain a, b;
	any_dom(&a);
	any_dom(&b);
	bool ina = in_dom(&a), inb = in_dom(&b);
	struct df_domain c = b;
	df_join(&a, &b);
	CHECK(IMPLIES(ina || inb, in_dom(&a)), "the join contains both operands");
	CHECK(in_dom(&b) == inb, "the source of a join is unchanged");
	DONE();
}

// @unit h_ranges covers=constrain_min,constrain_max,constrain_range,range_remove,constrain_pred
void h_ranges(void) {
	long long v = IN(long long, "v"), k = IN(long long, "k");
	struct df_range r = { .min = IN(long long, "min"), .max = IN(long long, "max") };
	struct df_range s = r;
	bool was = in_range(v, &r);
	constrain_min(&s, k);
	CHECK(in_range(v, &s) == (was && v >= k), "constrain_min() keeps exactly the values >= k");
	s = r;
	constrain_max(&s, k);
	CHECK(in_range(v, &s) == (was && v <= k), "constrain_max() keeps exactly the values <= k");
	s = r;
	constrain_range(&s, k);
	CHECK(in_range(v, &s) == (was && v == k), "constrain_range() keeps exactly the value k");
	s = r;
	range_remove(&s, k);
	CHECK(IMPLIES(was && v != k, in_range(v, &s)), "range_remove() keeps every other value");
	CHECK(IMPLIES(in_range(v, &s), was), "range_remove() adds nothing");
	CHECK(IMPLIES(r.min == k || r.max == k, !in_range(k, &s)), "range_remove() removes an end point");
	enum df_pred p = IN_RANGE(uint8_t, "p", 0, 3);
	bool b = IN_BOOL("b"), x = IN_BOOL("x");
	enum df_pred q = p;
	constrain_pred(&q, b);
	CHECK(((q >> x) & 1) == (((p >> x) & 1) && x == b), "constrain_pred() keeps exactly that truth value");
	DONE();
}

// -------------------------------------------------------- transfer functions

/** The truth value of a comparison. */
static bool cmp(const struct bfs_expr *e, long long n) {
	return e->int_cmp == BFS_INT_EQUAL ? n == e->num : e->int_cmp == BFS_INT_LESS ? n < e->num : n > e->num;
}

static struct bfs_expr E;
static bool G_nogroup_known, G_nouser_known;

/**
 * Run everything the data-flow visitor does for one leaf with this eval_fn and
 * check that the arbitrary file, if it can reach the leaf, stays in the right
 * after-set.
 */
static void leaf(bfs_eval_fn *fn, bool truth) {
	E.eval_fn = fn;
	E.kind = BFS_TEST;
	E.next = NULL;
	E.pure = IN_BOOL("pure");
	E.always_true = E.always_false = false;
	any_dom(&OPT.before);
	df_init_bottom(&IMPURE);
	bool reach = in_dom(&OPT.before);

	bool pure = E.pure;
	struct bfs_expr *e = visit_deep(&OPT, &E, &data_flow);
	CHECK(e, "an expression is returned");
	if (e == &E) {
		CHECK(E.eval_fn == fn, "the leaf keeps its meaning");
		CHECK(E.pure == pure, "the leaf keeps its purity");
	} else if (reach) {
		CHECK(pure, "a leaf with side effects that can be reached is kept");
		CHECK(truth ? e->eval_fn == eval_true : e->eval_fn == eval_false, "the constant that replaces a leaf has its value");
	}
	CHECK(IMPLIES(reach && e->always_true, truth), "always_true is sound");
	CHECK(IMPLIES(reach && e->always_false, !truth), "always_false is sound");
	CHECK(IMPLIES(reach && truth, in_dom(&OPT.after_true)), "a file for which the test is true is in the after-true facts");
	CHECK(IMPLIES(reach && !truth, in_dom(&OPT.after_false)), "a file for which the test is false is in the after-false facts");
	CHECK(IMPLIES(reach && !pure, in_dom(&IMPURE)), "every file that reaches a side effect is recorded");
}

static void any_icmp(void) {
	E.num = IN_RANGE(long long, "num", 0, LLONG_MAX);
	E.int_cmp = IN_RANGE(uint8_t, "int_cmp", BFS_INT_EQUAL, BFS_INT_GREATER);
	E.size_unit = IN_RANGE(uint8_t, "unit", BFS_BLOCKS, BFS_PB);
}

#define ICMP_UNIT(h, fn, r) void h(void) { setup(); any_icmp(); leaf(fn, cmp(&E, F.ranges[r])); DONE(); }
#define PRED_UNIT(h, fn, p) void h(void) { setup(); leaf(fn, F.preds[p]); DONE(); }

// @unit h_depth covers=data_flow_visit,data_flow_enter,data_flow_icmp
ICMP_UNIT(h_depth, eval_depth, DEPTH_RANGE)
// @unit h_inum covers=data_flow_inum
ICMP_UNIT(h_inum, eval_inum, INUM_RANGE)
// @unit h_links covers=data_flow_links
ICMP_UNIT(h_links, eval_links, LINKS_RANGE)
// @unit h_size covers=data_flow_size
void h_size(void) {
	setup();
	any_icmp();
	leaf(eval_size, cmp(&E, F.ranges[SIZE_RANGE + E.size_unit]));
	DONE();
}
// @unit h_gid covers=data_flow_gid
void h_gid(void) {
	setup();
	any_icmp();
	ASSUME(F.ranges[GID_RANGE] <= UINT32_MAX);
	G_found = IN_BOOL("found");
	G_lookup_errno = IN_RANGE(uint8_t, "errno", 0, 1);
	bool probe = IN_BOOL("probe");
	if (probe) {
		// Is it this file's group that is being looked up?
		F.ranges[GID_RANGE] = E.num;
		ASSUME(E.num <= UINT32_MAX);
	}
	// When the group of the file can be looked up, -nogroup is its negation
	if (cmp(&E, F.ranges[GID_RANGE]) && G_lookup_errno == 0) {
		F.preds[NOGROUP_PRED] = !G_found;
	}
	leaf(eval_gid, cmp(&E, F.ranges[GID_RANGE]));
	DONE();
}
// @unit h_uid covers=data_flow_uid
void h_uid(void) {
	setup();
	any_icmp();
	ASSUME(F.ranges[UID_RANGE] <= UINT32_MAX);
	G_found = IN_BOOL("found");
	G_lookup_errno = IN_RANGE(uint8_t, "errno", 0, 1);
	if (cmp(&E, F.ranges[UID_RANGE]) && G_lookup_errno == 0) {
		F.preds[NOUSER_PRED] = !G_found;
	}
	leaf(eval_uid, cmp(&E, F.ranges[UID_RANGE]));
	DONE();
}
// @unit h_samefile covers=data_flow_samefile
void h_samefile(void) {
	setup();
	E.dev = IN(uint64_t, "dev");
	E.ino = IN(uint64_t, "ino");
	uint64_t fdev = IN(uint64_t, "fdev");
	leaf(eval_samefile, fdev == E.dev && (uint64_t)F.ranges[INUM_RANGE] == E.ino);
	DONE();
}
// @unit h_type covers=data_flow_type
void h_type(void) {
	setup();
	E.num = IN_RANGE(long long, "num", 0, (2 << BFS_WHT) - 1);
	leaf(eval_type, (E.num >> F.type) & 1);
	DONE();
}
// @unit h_xtype covers=data_flow_xtype
void h_xtype(void) {
	setup();
	E.num = IN_RANGE(long long, "num", 0, (2 << BFS_WHT) - 1);
	leaf(eval_xtype, (E.num >> F.xtype) & 1);
	DONE();
}
// @unit h_lname covers=data_flow_lname
void h_lname(void) {
	setup();
	leaf(eval_lname, F.type == BFS_LNK && IN_BOOL("match"));
	DONE();
}
#define ACCESS_UNIT(h, mode, p) void h(void) { setup(); E.num = mode; leaf(eval_access, F.preds[p]); DONE(); }
// @unit h_readable covers=data_flow_access
ACCESS_UNIT(h_readable, R_OK, READABLE_PRED)
// @unit h_writable covers=data_flow_access
ACCESS_UNIT(h_writable, W_OK, WRITABLE_PRED)
// @unit h_executable covers=data_flow_access
ACCESS_UNIT(h_executable, X_OK, EXECUTABLE_PRED)
// @unit h_empty covers=data_flow_empty
PRED_UNIT(h_empty, eval_empty, EMPTY_PRED)
// @unit h_acl
PRED_UNIT(h_acl, eval_acl, ACL_PRED)
// @unit h_capable
PRED_UNIT(h_capable, eval_capable, CAPABLE_PRED)
// @unit h_hidden
PRED_UNIT(h_hidden, eval_hidden, HIDDEN_PRED)
// @unit h_nogroup
PRED_UNIT(h_nogroup, eval_nogroup, NOGROUP_PRED)
// @unit h_nouser
PRED_UNIT(h_nouser, eval_nouser, NOUSER_PRED)
// @unit h_sparse
PRED_UNIT(h_sparse, eval_sparse, SPARSE_PRED)
// @unit h_xattr
PRED_UNIT(h_xattr, eval_xattr, XATTR_PRED)

// Tests and actions the analysis knows nothing about
#define OPAQUE_UNIT(h, fn) void h(void) { setup(); leaf(fn, IN_BOOL("truth")); DONE(); }
// @unit h_op_name covers=data_flow_visit
OPAQUE_UNIT(h_op_name, eval_name)
// @unit h_op_path covers=data_flow_visit
OPAQUE_UNIT(h_op_path, eval_path)
// @unit h_op_regex covers=data_flow_visit
OPAQUE_UNIT(h_op_regex, eval_regex)
// @unit h_op_perm covers=data_flow_visit
OPAQUE_UNIT(h_op_perm, eval_perm)
// @unit h_op_time covers=data_flow_visit
OPAQUE_UNIT(h_op_time, eval_time)
// @unit h_op_newer covers=data_flow_visit
OPAQUE_UNIT(h_op_newer, eval_newer)
// @unit h_op_used covers=data_flow_visit
OPAQUE_UNIT(h_op_used, eval_used)
// @unit h_op_flags covers=data_flow_visit
OPAQUE_UNIT(h_op_flags, eval_flags)
// @unit h_op_fstype covers=data_flow_visit
OPAQUE_UNIT(h_op_fstype, eval_fstype)
// @unit h_op_xattrname covers=data_flow_visit
OPAQUE_UNIT(h_op_xattrname, eval_xattrname)
// @unit h_op_fprint covers=data_flow_visit
OPAQUE_UNIT(h_op_fprint, eval_fprint)
// @unit h_op_fprint0 covers=data_flow_visit
OPAQUE_UNIT(h_op_fprint0, eval_fprint0)
// @unit h_op_fprintf covers=data_flow_visit
OPAQUE_UNIT(h_op_fprintf, eval_fprintf)
// @unit h_op_fprintx covers=data_flow_visit
OPAQUE_UNIT(h_op_fprintx, eval_fprintx)
// @unit h_op_fls covers=data_flow_visit
OPAQUE_UNIT(h_op_fls, eval_fls)
// @unit h_op_delete covers=data_flow_visit
OPAQUE_UNIT(h_op_delete, eval_delete)
// @unit h_op_exec covers=data_flow_visit
OPAQUE_UNIT(h_op_exec, eval_exec)
// @unit h_op_prune covers=data_flow_visit
OPAQUE_UNIT(h_op_prune, eval_prune)
// @unit h_op_limit covers=data_flow_visit
OPAQUE_UNIT(h_op_limit, eval_limit)

// @unit h_enter covers=data_flow_enter
void h_enter(void) {
	setup();
	E.eval_fn = eval_name;
	E.pure = IN_BOOL("pure");
	any_dom(&OPT.before);
	any_dom(&IMPURE);
	bool reach = in_dom(&OPT.before), imp = in_dom(&IMPURE);
	struct bfs_expr *e = data_flow.enter(&OPT, &E, &data_flow);
	CHECK(e == &E, "entering a leaf returns it");
	CHECK(IMPLIES(imp, in_dom(&IMPURE)), "facts about side effects are only ever joined");
	CHECK(IMPLIES(!E.pure && reach, in_dom(&IMPURE)), "every file that reaches a side effect is recorded");
	CHECK(IMPLIES(reach, in_dom(&OPT.after_true) && in_dom(&OPT.after_false)), "entering assumes nothing about the result");
	DONE();
}

// @unit h_leave covers=data_flow_leave,visit_leave,opt_const unwind=34
void h_leave(void) {
	setup();
	E.eval_fn = IN_BOOL("known") ? (IN_BOOL("t") ? eval_true : eval_false) : eval_name;
	E.kind = BFS_TEST;
	E.pure = IN_BOOL("pure");
	E.always_true = IN_BOOL("always_true");
	E.always_false = IN_BOOL("always_false");
	bool truth = IN_BOOL("truth"), reach = IN_BOOL("reach");
	if (E.eval_fn != eval_name) {
		truth = E.eval_fn == eval_true;
		E.pure = true;
		E.always_true = truth;
		E.always_false = !truth;
	}
	any_dom(&OPT.before);
	any_dom(&OPT.after_true);
	any_dom(&OPT.after_false);
	// What the visitor has established so far, for a file that gets here and
	// for which the expression returns `truth`
	ASSUME(IMPLIES(reach, in_dom(truth ? &OPT.after_true : &OPT.after_false)));
	ASSUME(IMPLIES(reach && E.always_true, truth));
	ASSUME(IMPLIES(reach && E.always_false, !truth));
	bool pure = E.pure;
	bfs_eval_fn *fn = E.eval_fn;

	struct bfs_expr *e = data_flow.leave(&OPT, &E, &data_flow);
	CHECK(e, "leaving returns an expression");
	if (e != &E) {
		CHECK(pure, "only a pure expression is replaced");
		CHECK(e->eval_fn == eval_true || e->eval_fn == eval_false, "it is replaced by a constant");
		CHECK(IMPLIES(reach, (e->eval_fn == eval_true) == truth), "the constant has the value of the expression");
		CHECK(e->pure, "constants are pure");
		CHECK(e->always_true == (e->eval_fn == eval_true) && e->always_false == (e->eval_fn == eval_false), "constants are annotated");
	} else {
		CHECK(e->eval_fn == fn, "the expression keeps its meaning");
	}
	CHECK(IMPLIES(reach && e->always_true, truth), "always_true is sound");
	CHECK(IMPLIES(reach && e->always_false, !truth), "always_false is sound");
	CHECK(IMPLIES(reach, in_dom(truth ? &OPT.after_true : &OPT.after_false)), "the facts after the expression stay sound");
	DONE();
}

// ------------------------------------------------------------- compositions

// A tree of one operator over three leaves: -type NUM0, an arbitrary test or
// action, -type NUM2.  The real visitor runs on the whole tree; the returned
// tree must mean the same for the arbitrary file.
static struct bfs_expr PARENT, KIDS[3];
static bool OPQ_TRUE, OPQ_PURE;

struct vf_sem { bool truth; bool acted; };

static bool sem_leaf(const struct bfs_expr *e, struct vf_sem *s) {
	if (e->eval_fn == eval_type) {
		return (e->num >> F.type) & 1;
	} else if (e->eval_fn == eval_true) {
		return true;
	} else if (e->eval_fn == eval_false) {
		return false;
	}
	CHECK(e->eval_fn == eval_name, "only known leaves appear");
	s->acted = s->acted || !OPQ_PURE;
	return OPQ_TRUE;
}

static struct vf_sem sem(const struct bfs_expr *e) {
	struct vf_sem s = { false, false };
	if (e != &PARENT) {
		s.truth = sem_leaf(e, &s);
	} else if (e->eval_fn == eval_not) {
		s.truth = !sem_leaf(e->children.head, &s);
	} else {
		s.truth = e->eval_fn == eval_and;
		for (const struct bfs_expr *c = e->children.head; c; c = c->next) {
			if (e->eval_fn == eval_comma || s.truth == (e->eval_fn == eval_and)) {
				s.truth = sem_leaf(c, &s);
			}
		}
	}
	return s;
}

static void flow(bfs_eval_fn *fn, int n, int opaque) {
	setup();
	OPQ_TRUE = IN_BOOL("opq");
	OPQ_PURE = IN_BOOL("opq_pure");
	df_init_top(&OPT.before);
	OPT.before.types = IN(unsigned int, "types");
	df_init_bottom(&IMPURE);
	OPT.ignore_result = IN_BOOL("ignore");
	bool reach = in_dom(&OPT.before);
	PARENT.eval_fn = fn;
	PARENT.kind = BFS_OPERATOR;
	PARENT.pure = true;
	PARENT.always_true = PARENT.always_false = false;
	SLIST_INIT(&PARENT.children);
	for (int i = 0; i < n; ++i) {
		struct bfs_expr *k = &KIDS[i];
		k->next = NULL;
		k->persistent_fds = k->ephemeral_fds = 0;
		k->kind = BFS_TEST;
		k->always_true = k->always_false = false;
		k->pure = true;
		if (i == opaque) {
			k->eval_fn = eval_name;
			k->pure = OPQ_PURE;
		} else {
			k->eval_fn = eval_type;
			k->num = IN_RANGE(long long, "num", 0, (2 << BFS_WHT) - 1);
		}
		bfs_expr_append(&PARENT, k);
	}
	struct vf_sem before = sem(&PARENT);
	bool ignore = OPT.ignore_result;

	struct bfs_expr *e = visit_deep(&OPT, &PARENT, &data_flow);

	CHECK(e, "an expression is returned");
	if (reach) {
		struct vf_sem after = sem(e);
		CHECK(after.acted == before.acted, "side effects happen for the same files as before");
		CHECK(IMPLIES(!ignore, after.truth == before.truth), "the result is the same as before");
		CHECK(IMPLIES(!ignore, in_dom(before.truth ? &OPT.after_true : &OPT.after_false)), "the facts after the operator are sound");
		CHECK(in_dom(&OPT.after_true) || in_dom(&OPT.after_false), "the operator can return");
		CHECK(IMPLIES(before.acted, in_dom(&IMPURE)), "every file that reaches a side effect is recorded");
		CHECK(IMPLIES(!ignore && e->always_true, before.truth), "always_true is sound");
		CHECK(IMPLIES(!ignore && e->always_false, !before.truth), "always_false is sound");
	}
	DONE();
}

// @unit h_flow_not covers=visit_deep,visit_not,look_up_visitor bounded="one operand"
void h_flow_not(void) { flow(eval_not, 1, -1); }
// @unit h_flow_and2 covers=visit_deep,visit_and,opt_ignore bounded="2 operands"
void h_flow_and2(void) { flow(eval_and, 2, 1); }
// @unit h_flow_or2 covers=visit_deep,visit_or,opt_ignore bounded="2 operands"
void h_flow_or2(void) { flow(eval_or, 2, 1); }
// @unit h_flow_comma2 covers=visit_deep,visit_comma,opt_ignore bounded="2 operands"
void h_flow_comma2(void) { flow(eval_comma, 2, 1); }
// @unit h_flow_and3 covers=visit_deep,visit_and,opt_ignore bounded="3 operands"
void h_flow_and3(void) { flow(eval_and, 3, 1); }
// @unit h_flow_or3 covers=visit_deep,visit_or,opt_ignore bounded="3 operands"
void h_flow_or3(void) { flow(eval_or, 3, 1); }
// @unit h_flow_comma3 covers=visit_deep,visit_comma,opt_ignore bounded="3 operands"
void h_flow_comma3(void) { flow(eval_comma, 3, 1); }
