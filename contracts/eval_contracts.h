// Contracts attached to the prototypes of src/eval.c (before its inclusion).
//
// Ghost state: G_* is what the environment does, G_err_* accounts for errors.

#define FRAME errno, G_stat_calls, vf_diags, NERR, RETV

bool bfs_expr_cmp(const struct bfs_expr *expr, long long n)
REQUIRES(OK_R(expr, sizeof(*expr)))
REQUIRES(expr->int_cmp == BFS_INT_EQUAL || expr->int_cmp == BFS_INT_LESS || expr->int_cmp == BFS_INT_GREATER)
ENSURES(RET == spec_cmp(expr->int_cmp, expr->num, n))
ASSIGNS();

/** A test that is true iff stat() works and `want` holds of the result. */
#define STAT_TEST(name, want) \
bool name(const struct bfs_expr *expr, struct bfs_eval *state) \
REQUIRES(expr == &E && state != NULL) \
REQUIRES(NERR == NERR0 && RETV == RETV0 && vf_diags == 0) \
ENSURES(RET == (G_stat_ok && (want))) \
ENSURES(IMPLIES(!G_stat_ok, post_report(G_stat_errno))) \
ENSURES(IMPLIES(G_stat_ok && G_field_ok, post_noerror())) \
ASSIGNS(FRAME)

STAT_TEST(eval_links, spec_cmp(expr->int_cmp, expr->num, G_sb.nlink));
STAT_TEST(eval_inum, spec_cmp(expr->int_cmp, expr->num, G_sb.ino));
STAT_TEST(eval_uid, spec_cmp(expr->int_cmp, expr->num, G_sb.uid));
STAT_TEST(eval_gid, spec_cmp(expr->int_cmp, expr->num, G_sb.gid));
STAT_TEST(eval_size, spec_size(expr, G_sb.size));
STAT_TEST(eval_sparse, spec_sparse());
STAT_TEST(eval_samefile, G_sb.dev == expr->dev && G_sb.ino == expr->ino);
STAT_TEST(eval_perm, spec_perm(expr, G_sb.mode, FB.type == BFS_DIR));
STAT_TEST(eval_newer, spec_newer(expr));
STAT_TEST(eval_time, spec_time(expr));
STAT_TEST(eval_used, spec_used(expr));
STAT_TEST(eval_flags, spec_flags(expr));

bool eval_depth(const struct bfs_expr *expr, struct bfs_eval *state)
REQUIRES(expr == &E && state != NULL)
ENSURES(RET == spec_cmp(expr->int_cmp, expr->num, FB.depth))
ASSIGNS();

bool eval_type(const struct bfs_expr *expr, struct bfs_eval *state)
REQUIRES(expr == &E && state != NULL)
ENSURES(RET == (((unsigned long long)expr->num >> FB.type) & 1))
ASSIGNS();
