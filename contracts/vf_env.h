// Environment models shared by several contract files: diagnostics and
// internal assertions.  Included after the project headers.
#ifndef VF_ENV_H
#define VF_ENV_H

#include <stdarg.h>
#include <stdio.h>
#include "diag.h"
#include "color.h"

#ifndef VF_NATIVE
int vf_errno;
#endif

/** Number of user-visible diagnostics emitted. */
static int vf_diags;
static int vf_warnings;

/** bfs_assert()/bfs_bug() end up here: reaching it is a failed obligation. */
void bfs_abortf(const char *format, ...) {
	UNREACHED("no internal assertion of bfs fails");
	while (1) { }
}
void bfs_diagf(const char *format, ...) { }
void bfs_error(const struct bfs_ctx *ctx, const char *format, ...) { ++vf_diags; }
void bfs_verror(const struct bfs_ctx *ctx, const char *format, va_list args) { ++vf_diags; }
void bfs_perror(const struct bfs_ctx *ctx, const char *str) { ++vf_diags; }
bool bfs_warning(const struct bfs_ctx *ctx, const char *format, ...) { ++vf_warnings; return false; }
bool bfs_vwarning(const struct bfs_ctx *ctx, const char *format, va_list args) { ++vf_warnings; return false; }
bool bfs_debug(const struct bfs_ctx *ctx, enum debug_flags flag, const char *format, ...) { return false; }
bool bfs_vdebug(const struct bfs_ctx *ctx, enum debug_flags flag, const char *format, va_list args) { return false; }
bool bfs_debug_prefix(const struct bfs_ctx *ctx, enum debug_flags flag) { return false; }
void bfs_error_prefix(const struct bfs_ctx *ctx) { }
bool bfs_warning_prefix(const struct bfs_ctx *ctx) { return false; }
void bfs_argv_error(const struct bfs_ctx *ctx, const bool *args) { ++vf_diags; }
void bfs_expr_error(const struct bfs_ctx *ctx, const struct bfs_expr *expr) { ++vf_diags; }
bool bfs_argv_warning(const struct bfs_ctx *ctx, const bool *args) { ++vf_warnings; return false; }
bool bfs_expr_warning(const struct bfs_ctx *ctx, const struct bfs_expr *expr) { ++vf_warnings; return false; }

#endif
