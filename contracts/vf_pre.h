// Force-included after prelude.h in goto-cc builds only.
//
// 1. errno becomes a plain global so that contracts can name it in frames.
// 2. The printf-style diagnostic functions lose their variable arguments, in
//    their definitions as well as at every call: the contract instrumentation
//    passes its write set as a trailing argument and so cannot handle
//    variadic functions.  What this drops is only the arguments of error
//    messages (stated in DESIGN.md); native replays run the unmodified text.
#ifndef VF_PRE_H
#define VF_PRE_H
#include <errno.h>
#include <stdarg.h>
#undef errno
extern int vf_errno;
#define errno vf_errno

#ifndef VF_KEEP_VARARGS
#define bfs_error(ctx, fmt, ...) bfs_error(ctx, fmt)
#define bfs_warning(ctx, fmt, ...) bfs_warning(ctx, fmt)
#define bfs_debug(ctx, flag, fmt, ...) bfs_debug(ctx, flag, fmt)
#define bfs_abortf(fmt, ...) bfs_abortf(fmt)
#define bfs_diagf(fmt, ...) bfs_diagf(fmt)
#define eval_error(state, fmt, ...) eval_error(state, fmt)
#define bfs_exec_debug(execbuf, fmt, ...) bfs_exec_debug(execbuf, fmt)
#define cfprintf(cfile, fmt, ...) cfprintf(cfile, fmt)
#define parse_error(parser, fmt, ...) parse_error(parser, fmt)
#define parse_argv_error(parser, argv, argc, fmt, ...) parse_argv_error(parser, argv, argc, fmt)
#define parse_conflict_error(parser, e1, e2, fmt, ...) parse_conflict_error(parser, e1, e2, fmt)
#define parse_expr_error(parser, expr, fmt, ...) parse_expr_error(parser, expr, fmt)
#define parse_warning(parser, fmt, ...) parse_warning(parser, fmt)
#define parse_conflict_warning(parser, e1, e2, fmt, ...) parse_conflict_warning(parser, e1, e2, fmt)
#define parse_expr_warning(parser, expr, fmt, ...) parse_expr_warning(parser, expr, fmt)
#undef va_start
#undef va_end
#define va_start(ap, last) ((void)(last))
#define va_end(ap) ((void)0)
#endif

// The <ctype.h> macros index a libc table; call the functions instead.
#include <ctype.h>
#include <wctype.h>
#undef isalnum
#undef isalpha
#undef isascii
#undef iscntrl
#undef isdigit
#undef islower
#undef isgraph
#undef isprint
#undef ispunct
#undef isspace
#undef isupper
#undef isxdigit
#undef tolower
#undef toupper

// 3. The anonymous union inside struct bfs_expr becomes a struct: CBMC 6.11
//    loses writes made through a pointer to a pointer inside a union member
//    (SLIST_APPEND(&expr->children)).  This drops only the overlap between
//    members of different kinds of expression; native replays keep the union.
#include "bfs.h"
#include "bfstd.h"
#include "color.h"
#include "eval.h"
#include "stat.h"
#include "list.h"
#include <sys/types.h>
#include <time.h>
#define union struct
#include "expr.h"
#undef union
#endif
