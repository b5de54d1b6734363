// Contracts for the expression grammar of src/parse.c: operators, precedence,
// parentheses, paths mixed into the expression, the implicit -print.
//
// Instead of comparing parse trees, every expression node is given a meaning
// when it is built: for one (arbitrary) assignment of truth values to the
// tests, the sequence of tests it evaluates and its value.  The oracle reads
// the tokens from left to right and evaluates while reading.
// @file unwind=8 drop=parse_argv_error,parse_error,parse_warning,parse_expr_error,parse_conflict_error,parse_conflict_warning,parse_perror

#include "vf.h"
#include "prelude.h"
#include "parse.c"
#include "vf_env.h"

#ifndef NT
#  define NT 4
#endif
#define NE 12

static struct bfs_ctx CTX;
static struct bfs_parser P;
static struct bfs_expr E0, E1, E2, E3, E4, E5, E6, E7, E8, E9, E10, E11;
static struct bfs_expr *const POOL[NE] = { &E0, &E1, &E2, &E3, &E4, &E5, &E6, &E7, &E8, &E9, &E10, &E11 };
static int G_nexprs, G_nleaves, G_npaths;
/** The truth value of each test, in the order they are written. */
static bool G_truth[NT + 2];
static bool G_excl_set;
static struct bfs_expr EXCL;

// A meaning: bit 0 is the value, bit 1 is set once an operand was added, the
// rest is the trace, 3 bits per evaluated test.
#define VALUE(m) ((m) & 1)
#define STARTED 2u
#define TRACE(m) ((m) >> 2)
static unsigned run(unsigned trace, int leaf) { return trace << 3 | (leaf + 1); }
static unsigned len3(unsigned t) { return t == 0 ? 0 : t < 8 ? 3 : t < 64 ? 6 : t < 512 ? 9 : t < 4096 ? 12 : t < 32768 ? 15 : 18; }
static unsigned then(unsigned a, unsigned b) { return TRACE(a) << len3(TRACE(b)) | TRACE(b); }

struct bfs_expr *bfs_expr_new(struct bfs_ctx *ctx, bfs_eval_fn *eval_fn, size_t argc, char **argv, enum bfs_kind kind) {
	CHECK(G_nexprs < NE, "enough expressions");
	struct bfs_expr *e = POOL[G_nexprs++];
	e->eval_fn = eval_fn;
	e->argc = argc;
	e->argv = argv;
	e->kind = kind;
	if (kind == BFS_TEST && argv != &fake_true_arg) {
		bool v = G_truth[G_nleaves];
		e->num = run(0, G_nleaves++) << 2 | STARTED | v;
	} else if (kind == BFS_ACTION) {
		// The implicit -print
		e->num = 7 << 2 | STARTED | 1;
	} else {
		e->num = eval_fn == eval_true;
	}
	return e;
}

bool bfs_expr_is_parent(const struct bfs_expr *e) {
	return e->eval_fn == eval_and || e->eval_fn == eval_or || e->eval_fn == eval_not || e->eval_fn == eval_comma;
}

void bfs_expr_append(struct bfs_expr *e, struct bfs_expr *child) {
	unsigned m = e->num, c = child->num;
	if (e == &EXCL) {
		G_excl_set = true;
		e->num = c;
	} else if (e->eval_fn == eval_not) {
		CHECK(!(m & STARTED), "! has one operand");
		e->num = c ^ 1;
	} else if (!(m & STARTED)) {
		e->num = c | STARTED;
	} else if (e->eval_fn == eval_and && !VALUE(m)) {
	} else if (e->eval_fn == eval_or && VALUE(m)) {
	} else {
		e->num = then(m, c) << 2 | STARTED | VALUE(c);
	}
}

struct bfs_expr *m_parse_primary(struct bfs_parser *parser) {
	if (parser->argv[0][0] != '-' || parser->argv[0][1] != 't') {
		parse_error(parser, "Expected a predicate.\n");
		return NULL;
	}
	return parse_nullary_test(parser, eval_true);
}

int m_parse_root(struct bfs_parser *parser, const char *path) {
	++G_npaths;
	parser->ctx->npaths++;
	return 0;
}

enum { END, LEAF, AND, OR, COMMA, LPAREN, RPAREN, NOT, PATH, DASHDASH, NKINDS };
static int T[NT + 1];
static char *ARGV[NT + 2];
static enum bfs_kind KINDS[NT + 2];

/** Whether the tokens are an expression, what it does, and how many paths there are. */
static struct { bool ok; unsigned m; int paths, leaves; bool empty; } R;

static void spec(void) {
	struct { bool active, orval, andval, neg; } f[NT + 1];
	int d = 0;
	bool want = true, started = false, neg = false;
	unsigned trace = 0;
	int leaves = 0;
	R.ok = true;
	R.paths = 0;
	f[0].active = true;
	f[0].orval = false;
	f[0].andval = true;
	for (int i = 0; i < NT; ++i) {
		int t = T[i];
		if (t == END) { break; }
		if (t == DASHDASH) { continue; }
		if (t == PATH || (!started && (t == RPAREN || t == COMMA))) {
			++R.paths;
			continue;
		}
		started = true;
		bool operand = false, v = false;
		if (t == LPAREN) {
			bool active = f[d].active && !f[d].orval && f[d].andval;
			++d;
			f[d].active = active;
			f[d].orval = false;
			f[d].andval = true;
			f[d].neg = neg;
			neg = false;
			want = true;
		} else if (t == NOT) {
			neg = !neg;
			want = true;
		} else if (t == LEAF) {
			v = G_truth[leaves];
			if (f[d].active && !f[d].orval && f[d].andval) { trace = run(trace, leaves); }
			++leaves;
			operand = true;
		} else if (want || (t == RPAREN && d == 0)) {
			R.ok = false;
			return;
		} else if (t == AND) {
			want = true;
		} else if (t == OR) {
			f[d].orval = f[d].orval || f[d].andval;
			f[d].andval = true;
			want = true;
		} else if (t == COMMA) {
			f[d].orval = false;
			f[d].andval = true;
			want = true;
		} else {
			v = f[d].orval || f[d].andval;
			neg = f[d].neg;
			--d;
			operand = true;
		}
		if (operand) {
			f[d].andval = f[d].andval && (v != neg);
			neg = false;
			want = false;
		}
	}
	R.empty = !started;
	R.leaves = leaves;
	if (d > 0 || (want && started)) {
		R.ok = false;
		return;
	}
	R.m = trace << 2 | STARTED | (f[0].orval || f[0].andval);
}

static int token(char c) {
	switch (c) {
	case 't': return LEAF;
	case '&': case 'A': return AND;
	case '|': case 'O': return OR;
	case ',': return COMMA;
	case '(': return LPAREN;
	case ')': return RPAREN;
	case '!': case 'N': return NOT;
	case 'x': case 'y': return PATH;
	default: return DASHDASH;
	}
}

/** Set up a command line of at most NT tokens; kinds is NULL for any. */
static void setup(const char *kinds) {
	HAVOC(CTX); HAVOC(P);
	static char *names[2][NKINDS] = {
		{ NULL, "-true", "-a", "-o", ",", "(", ")", "!", "x", "--" },
		{ NULL, "-true", "-and", "-or", ",", "(", ")", "-not", "-", "--" },
	};
	static char prog[] = "bfs";
	bool longer = !kinds && IN_BOOL("long");
	ARGV[0] = prog;
	for (int i = 0; i < NT; ++i) {
		if (kinds) {
			T[i] = END;
			bool alt = false;
			if (*kinds) {
				char c = *kinds++;
				alt = c == 'A' || c == 'O' || c == 'N' || c == 'y';
				T[i] = token(c);
			}
			ARGV[i + 1] = names[alt][T[i]];
		} else {
			T[i] = IN_RANGE(uint8_t, "token", END, NKINDS - 1);
			if (i > 0 && T[i - 1] == END) { ASSUME(T[i] == END); }
			ARGV[i + 1] = names[longer][T[i]];
		}
		G_truth[i] = IN_BOOL("truth");
	}
	T[NT] = END;
	ARGV[NT + 1] = NULL;
	CTX.argv = ARGV;
	CTX.argc = NT + 1;
	CTX.kinds = KINDS;
	CTX.exclude = &EXCL;
	CTX.npaths = 0;
	CTX.paths = NULL;
	CTX.warn = false;
	CTX.interactive = false;
	EXCL.num = 0;
	EXCL.eval_fn = eval_or;
	P.ctx = &CTX;
	P.argv = ARGV + 1;
	P.last_arg = NULL;
	P.expr_started = false;
	P.excluding = false;
	P.implicit_print = IN_BOOL("implicit_print");
	P.files0_expr = P.limit_expr = P.mount_expr = P.xdev_expr = P.depth_expr = P.prune_expr = NULL;
	G_nexprs = G_nleaves = G_npaths = 0;
	vf_diags = 0;
}


/** Check the outcome of parsing the command line. */
static void verdict(const struct bfs_expr *e, bool print) {
	CHECK((e != NULL) == R.ok, "exactly the well-formed expressions are accepted");
	if (R.ok && e) {
		CHECK((int)CTX.npaths == R.paths + (R.paths == 0), "every path is a starting point, and . is the default");
		unsigned m = R.empty ? STARTED | 1 : R.m;
		if (print && VALUE(m)) { m = then(m, 7 << 2) << 2 | STARTED | 1; }
		CHECK(VALUE(e->num) == VALUE(m), "the expression has the value that precedence and associativity give it");
		CHECK(TRACE(e->num) == TRACE(m), "the tests are evaluated in the order that precedence and associativity give them");
	}
}

#define GRAMMAR(h, ...) void h(void) { \
	static const char *const table[] = { __VA_ARGS__ }; \
	bool print = IN_BOOL("print"); \
	for (size_t i = 0; i < sizeof(table) / sizeof(table[0]); ++i) { \
		setup(table[i]); \
		P.implicit_print = print; \
		struct bfs_expr *e = parse_whole_expr(&P); \
		spec(); \
		verdict(e, print); \
	} \
	DONE(); \
}
// @unit h_grammar_ops props=C05 covers=parse_whole_expr,parse_expr,parse_clause,parse_term,parse_factor,skip_paths,parser_advance,new_binary_expr,new_unary_expr
//  + subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=30 def=NT=9
//  + bounded="a table of token sequences, all truth values"
GRAMMAR(h_grammar_ops, "t", "tt", "ttt", "t&t", "t|t", "t,t", "t&t&t", "t|t|t", "t,t,t", "t|tt", "tt|t", "t|t&t", "t&t|t", "t,t|t", "t|t,t", "t,tt", "tt,t", "t|tt,t", "t,t|tt", "tt|tt", "t|tt|t")
// @unit h_grammar_not props=C05 covers=parse_factor subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=30 def=NT=9
//  + bounded="a table of token sequences, all truth values"
GRAMMAR(h_grammar_not, "!t", "!!t", "!!!t", "!tt", "t!t", "!t|t", "t|!t", "!t,t", "t,!t", "!t&!t", "!(t)", "!(tt)", "!(t|t)t", "!!(t|t)", "t!(t,t)|t", "(!t)t", "!(!t|!t)")
// @unit h_grammar_paren props=C05 covers=parse_factor,parse_expr subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=30 def=NT=9
//  + bounded="a table of token sequences, all truth values"
GRAMMAR(h_grammar_paren, "(t)", "((t))", "(t|t)t", "t(t|t)", "(t,t)t", "t(t,t)", "(t,t)|t", "t|(t,t)", "(tt)|t", "(t|t)(t|t)", "((t|t)t)|t", "t(t(t|t))", "(t,t|t)&t", "t&(t|(t,t))")
// @unit h_grammar_bad props=C05 covers=parse_whole_expr,parse_factor subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=40 def=NT=6
//  + bounded="a table of token sequences, all truth values"
GRAMMAR(h_grammar_bad, "", "&", "|", "|t", "&t", "t&", "t|", "t,", "(", "()", "(t", "(t|", "t)", "(t))", "!", "!)", "!|", "t!", "t||t", "t&|t", "t,,t", "t|,t", "(,t)", "(t,)", "!(t", "!&t", "t()", "((t)")
// @unit h_grammar_paths props=C05,C23 covers=skip_paths,parse_whole_expr subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=40 def=NT=6
//  + bounded="a table of token sequences, all truth values"
GRAMMAR(h_grammar_paths, "x", "xx", "-", "x-x", ")", ",", ",)x", "xt", "tx", "xtxt", "t|xt", "tx|t", "!xt", "(xt)", "(tx)", "tx,t", "t,xt", "-t", "t-t", "!-t", ",t", ")t", "xt)", "x,t", "t&xt", "tx&t")
// @unit h_grammar_long props=C05 covers=parse_term,parse_clause,parse_factor subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=30 def=NT=6
//  + bounded="a table of token sequences, all truth values"
GRAMMAR(h_grammar_long, "tAt", "tOt", "Nt", "tOtAt", "tOtt", "tAtOt", "Ntt", "NtOt", "tO", "tA", "N", "tyt", "tOyt", "t|tAt")

// @unit h_exclude props=C05 covers=parse_factor subst=parse_primary:m_parse_primary,parse_root:m_parse_root unwind=30 def=NT=6 bounded="three token sequences, all truth values"
void h_exclude(void) {
	static char excl[] = "-exclude";
	bool print = IN_BOOL("print");
	for (int i = 0; i < 3; ++i) {
		// -exclude ! t t   t -exclude t | t   -exclude -exclude t
		setup(i == 0 ? "x!tt" : i == 1 ? "txt|t" : "xxt");
		P.implicit_print = print;
		ARGV[1 + (i == 1)] = excl;
		if (i == 2) { ARGV[2] = excl; }
		G_excl_set = false;
		struct bfs_expr *e = parse_whole_expr(&P);
		if (i == 2) {
			CHECK(!e, "-exclude cannot be nested");
			continue;
		}
		CHECK(e && G_excl_set, "-exclude excludes something");
		unsigned m, x;
		if (i == 0) {
			x = run(0, 0) << 2 | STARTED | !G_truth[0];
			m = run(0, 1) << 2 | STARTED | G_truth[1];
		} else {
			x = run(0, 1) << 2 | STARTED | G_truth[1];
			m = (G_truth[0] ? run(0, 0) : run(run(0, 0), 2)) << 2 | STARTED | (G_truth[0] || G_truth[2]);
		}
		if (print && VALUE(m)) { m = then(m, 7 << 2) << 2 | STARTED | 1; }
		CHECK(EXCL.num == x, "-exclude applies to exactly the next factor");
		CHECK(VALUE(e->num) == VALUE(m) && TRACE(e->num) == TRACE(m), "-exclude is true and has no other effect on the expression");
	}
	DONE();
}
