PROPS = []
NA = []
NOTES = "Contracts live in contracts/*.c; every run compiles /repo/src anew with goto-cc. See DESIGN.md."

def P(**k): PROPS.append(k)
def N(**k): NA.append(k)

P(id="C01", title="Numeric tests match exactly the files whose attribute satisfies them",
  statement="-links, -inum, -uid, -gid, -depth N, -size, -sparse and -samefile are true for a file exactly when the attribute reported by stat() satisfies the comparison: N means equal, +N strictly greater and -N strictly less, and -size compares the size rounded up to the next unit. This holds for every attribute value and every N and unit, without wrap-around.",
  over=["inputs"], quant="every stat() result, every N, sign and unit",
  why="Tests sample a handful of small files and numbers; overflow and rounding boundaries and the full range of 64-bit attributes are never reached.",
  files=["src/eval.c", "src/expr.c", "src/parse.c"],
  mech=[("bfs_expr_cmp() and the eval_* tests", "src/eval.c, src/expr.c"), ("parse_icmp(), parse_size()", "src/parse.c")],
  observe=["exit status and output of bfs with these tests"],
  level="proof", note="Unbounded over 64-bit values: postconditions of eval_links/inum/uid/gid/depth/size/sparse/samefile and of the argument parsers, discharged function by function. Assumes inode and link counts <= LLONG_MAX; stat() itself is C13.")
P(id="C02", title="Time tests compare ages exactly, at the right granularity",
  statement="-[aBcm]min, -[aBcm]time, -used and -newerXY/-[aBcm]since are decided from the file's timestamp to the nanosecond: ages are measured from the reference time, truncated to whole minutes, days or seconds (rounded up to days for -used) and then compared as N, +N or -N, and 'newer' means strictly later. A timestamp that the system cannot provide makes the test false and is reported as an error.",
  over=["inputs"], quant="every pair of timestamps (to the nanosecond), every N, sign and unit",
  why="Tests use a few fixed timestamps; off-by-one-unit, sign and nanosecond borrow errors need exact boundary values.",
  files=["src/eval.c", "src/xtime.c", "src/parse.c"],
  mech=[("eval_time(), eval_used(), eval_newer()", "src/eval.c"), ("timespec_cmp(), timespec_sub()", "src/xtime.c"), ("parse_time(), parse_min()", "src/parse.c")],
  level="proof", note="Postconditions for all timestamps within +-2^61 s that are within 2^34 s (544 years) of each other, all nanoseconds, all N. parse_time()'s multi-component arguments (1w2d) are a bounded unit.")
P(id="C03", title="-perm means exactly / all of / any of the given mode bits",
  statement="-perm MODE is true exactly when the permission bits equal MODE, -perm -MODE exactly when all bits of MODE are set, and -perm /MODE exactly when any is (or MODE is 0). Symbolic modes denote the same bits chmod(1) would set starting from no permissions under the current umask, separately for directories and other files; anything else is rejected.",
  over=["inputs"], quant="every file mode, every octal mode, every symbolic mode string, every umask",
  why="The symbolic mode grammar and the umask give a huge input space of which tests sample about twenty strings under one umask.",
  files=["src/eval.c", "src/parse.c"],
  mech=[("eval_perm()", "src/eval.c"), ("parse_perm(), parse_mode()", "src/parse.c")],
  level="other", note="eval_perm(), parse_perm() and octal modes: proved for all inputs. Symbolic modes: bounded (all strings up to 5 characters, 6 in the thorough tier, under every umask).")
P(id="C04", title="-type selects exactly the listed file types",
  statement="-type and -xtype accept exactly a comma-separated list of type letters, and are true for a file exactly when its type (for -xtype, its type under the opposite link-following choice) is one of the listed ones.",
  over=["inputs"], quant="every file type and every list of type letters",
  why="Tests sample few combinations of types.",
  files=["src/eval.c", "src/parse.c"],
  mech=[("eval_type(), eval_xtype()", "src/eval.c"), ("parse_type()", "src/parse.c")],
  level="other", note="eval_type() is proved; parse_type() is bounded to arguments of at most 7 characters (4 types).")
P(id="C05", title="Boolean operators group, short-circuit and combine as documented",
  statement="Expressions are parsed with the documented precedence (parentheses, then !, -a or juxtaposition, -o, and the comma lowest, each left to right) and malformed ones are rejected. For every expression, -a evaluates its right operand only if the left is true, -o only if the left is false, the comma operator evaluates both and yields the right, and ! inverts; each operand is evaluated at most once per file, in order, and evaluation stops once -quit or -exit has run.",
  over=["inputs"], quant="every expression tree and every outcome of its operands",
  why="Tests sample a few dozen expressions; order, short-circuiting and early exit have to hold for all of them.",
  files=["src/eval.c", "src/parse.c", "src/expr.c"],
  mech=[("eval_and(), eval_or(), eval_comma(), eval_not(), eval_expr()", "src/eval.c"), ("parse_expr(), parse_clause(), parse_term(), parse_factor()", "src/parse.c")],
  level="other", note="eval_expr() and eval_not() are proved. Grammar: a table of token sequences parsed by the real parser and evaluated for all truth values (bounded). The n-ary operators are checked with contracts on the operand evaluation, for up to 4 operands (bounded).")
P(id="C06", title="Optimization never changes what an expression does",
  statement="At every optimization level, the optimized expression performs the same actions on the same files, in the same order, and yields the same truth value as the expression that was written. Rewriting may only drop or reorder tests whose evaluation cannot be observed.",
  over=["inputs"], quant="every expression, optimization level and file",
  why="Optimization depends on the combination of nested operators, ranges, types, purity and costs; tests cover a few dozen combinations.",
  files=["src/opt.c", "src/expr.c"],
  mech=[("annotation, canonicalization, reordering, data-flow and simplification passes", "src/opt.c")],
  level="other", note="Leaf transfer functions, data-flow domain operations and driver: proved for all values. Operator cases are checked against an evaluation semantics for up to 3 operands (canonicalization: nested 2x2), with contracts standing for recursive calls (bounded).")
P(id="C07", title="Integer arguments are used exactly as given or rejected",
  statement="Every integer accepted on the command line (comparisons, sizes, times, depth limits, -limit, octal modes) is used with exactly the value that was written; a malformed, negative (where not allowed) or unrepresentable integer is rejected with a diagnostic and never truncated, wrapped or partially used.",
  over=["inputs"], quant="every integer string",
  why="Wrap-around needs specific huge values that no test tries.",
  files=["src/parse.c", "src/bfstd.c"],
  mech=[("parse_int(), parse_icmp() and their callers", "src/parse.c"), ("xstrtoll()", "src/bfstd.c")],
  level="other", note="Proved against an adversarial xstrtoll() that may return any value and end anywhere; arguments up to 7 characters of non-digit structure. parse_time()'s component sum is bounded.")
P(id="C08", title="-exec ... ; runs the command once per file with the right arguments",
  statement="-exec, -execdir, -ok and -okdir with ; run the command exactly once per evaluated file with every {} in every argument replaced by the file's path (./basename and the parent directory as working directory for the -dir forms), and are true exactly when the command exits with status 0; nothing is run if the user declines. A command that cannot be run is reported as an error.",
  over=["inputs"], quant="every path, template and command outcome",
  why="Tests sample a few templates and paths.",
  files=["src/exec.c", "src/eval.c"],
  mech=[("bfs_exec(), bfs_exec_single(), bfs_exec_spawn(), bfs_exec_format_arg()", "src/exec.c"), ("eval_exec()", "src/eval.c")],
  level="other", note="bfs_exec_spawn() for every outcome of every call it makes; argument substitution bounded to 4-byte arguments and paths; parsing to 4 words.")
P(id="C09", title="-exec ... + passes every file exactly once, in order, within ARG_MAX",
  statement="-exec ... {} + (and -execdir ... {} +) passes every file for which it was evaluated to the command exactly once, in order, after the fixed arguments; no command line exceeds the system's argument size limit, every batch is run before bfs exits, -execdir batches hold only files of one directory and run in that directory, and a failed batch makes the exit status nonzero. Files are neither lost nor duplicated when the command line is too long and has to be split or retried.",
  over=["inputs", "histories"], quant="every sequence of files, size limit and outcome of running the command",
  why="Batch boundaries depend on path lengths, the environment size and E2BIG answers of the system; tests never fill a command line.",
  files=["src/exec.c", "src/eval.c"],
  mech=[("bfs_exec_multi(), bfs_exec_flush(), bfs_exec_push(), bfs_exec_size_*()", "src/exec.c"), ("bfs_exec_finish()", "src/exec.c, src/eval.c")],
  level="bounded", note="bfs_exec_flush(): at most 3 pending files with arbitrary size limits and E2BIG answers; batching: 3 files in 3 directories, against the contracts of flush and push.")
P(id="C10", title="-delete removes exactly the visited file and never skips unnoticed",
  statement="-delete removes exactly the file being visited, relative to its parent directory, with the removal call that fits its real type (never following a symbolic link); it is true exactly if the file was removed (or was already gone when races are ignored), refuses to remove '.', and any other failure is reported and makes the exit status nonzero.",
  over=["inputs"], quant="every file type, link-following mode and removal outcome",
  why="Tests cannot inject every removal failure and type combination.",
  files=["src/eval.c", "src/parse.c"],
  mech=[("eval_delete()", "src/eval.c")],
  level="proof", note="Postcondition of eval_delete() for every file type, stat result and unlinkat() outcome.")
P(id="C11", title="Depth limits, -prune, -quit and -limit control exactly what is visited",
  statement="The expression is evaluated on exactly the visited files with -mindepth <= depth <= -maxdepth, directories at -maxdepth or pruned are not descended into, and each file is evaluated exactly once whether visited before or after its contents. -quit and -exit stop the whole search at once, and -limit N stops after exactly N.",
  over=["inputs", "histories"], quant="every depth, limit, traversal order and evaluation outcome",
  why="The interaction of depth limits, order, pruning and errors has too many combinations for tests.",
  files=["src/eval.c", "src/parse.c"],
  mech=[("eval_callback(), eval_prune(), eval_quit(), eval_limit()", "src/eval.c"), ("parse_depth_limit()", "src/parse.c")],
  level="proof", note="Postcondition of the visit callback for every depth, limit and evaluation outcome; the traversal itself is C23.")
P(id="C12", title="Errors are never swallowed: the exit status tells them",
  statement="Whenever a file cannot be examined, an action fails or a traversal error occurs, bfs reports it and exits with a nonzero status, except for files that vanish while races are ignored; -exit N exits with N. An error on one file never stops the search.",
  over=["inputs", "histories"], quant="every error code at every call that can fail",
  why="Tests cannot make arbitrary system calls fail with arbitrary codes.",
  files=["src/eval.c"],
  mech=[("eval_report_error(), eval_callback(), bfs_eval()", "src/eval.c")],
  level="other", note="Every test and action under contract returns false and reports on every injected failure; bfs_eval()'s final status is bounded to one operator with 4 -exec + operands.")
P(id="C17", title="Quoted output survives the shell and never reaches the terminal raw",
  statement="A word quoted for the shell (in diagnostics and debug output) is read back by a shell as exactly that one word, whatever bytes it contains, and contains no control characters. Copying into a fixed buffer never writes beyond it, always terminates it and tells truncation.",
  over=["inputs"], quant="every byte string and buffer size",
  why="The quoting style depends on every byte and its neighbours; tests sample a few words.",
  files=["src/bfstd.c"],
  mech=[("wordesc(), wordnesc()", "src/bfstd.c"), ("xstpecpy(), xstpencpy()", "src/bfstd.c")],
  level="other", note="Bounded: all words up to 3 bytes (4 thorough), a locale with 1- and 2-byte characters, any buffer size; an online shell-unquoting automaton is the oracle.")
P(id="C18", title="Paths split into directory and name as POSIX says",
  statement="For every path, the name part is the last component as POSIX basename defines it and the directory part is what precedes it, with all slashes handled as POSIX dirname defines; nothing outside the path is read.",
  over=["inputs"], quant="every path string",
  why="Corner cases need combinations of repeated, leading and trailing slashes.",
  files=["src/bfstd.c"],
  mech=[("xbaseoff(), xbasename(), xdirname()", "src/bfstd.c")],
  level="bounded", note="All paths up to 7 bytes (12 thorough) for the split; 5 (7) for the allocated results.")
P(id="C20", title="I/O is completed despite interruptions, or the failure is reported",
  statement="Reading and writing continue across interruptions and partial transfers until everything is transferred or an error or the end of the file is reached, which errno tells apart; closing a file descriptor happens exactly once; symbolic link targets are always read in full, however long.",
  over=["inputs", "schedules"], quant="every sequence of partial transfers, interruptions and errors",
  why="Signals and short transfers at particular points are not reproducible in tests.",
  files=["src/bfstd.c"],
  mech=[("xread(), xwrite(), xclose(), xreadlinkat()", "src/bfstd.c")],
  level="bounded", note="Buffers of at most 6 bytes, at most 2 interruptions, links of at most 500 bytes.")
P(id="C24", title="-printf prints exactly what its format asks for",
  statement="-printf and -fprintf accept exactly the documented directives, flags and escapes and reject others; for every file, each directive prints the file's own attribute (numbers in full, unrounded and never truncated; paths byte for byte; times to the nanosecond) in the given width and flags, literal text and escapes are output unchanged, and pieces appear in the order written. A directive whose attribute cannot be obtained makes the action fail and be reported.",
  over=["inputs"], quant="every format string, stat() result and path",
  why="Large or negative attribute values, unusual bytes in paths and rare directives are not sampled by the tests.",
  files=["src/printf.c"],
  mech=[("bfs_printf_parse(), bfs_printf()", "src/printf.c"), ("bfs_printf_*() directives", "src/printf.c")],
  level="other", note="Numeric directives: proved for all stat() results with an fprintf() that records its arguments; path directives: paths of at most 5 bytes; parser: every single-byte directive, time letter and escape, and a table of flag combinations.")
P(id="C25", title="Concurrency never exceeds the file descriptor limit",
  statement="The number of directories kept open by the search is at least 1 and stays within the file descriptor limit minus those already in use, for every limit.",
  over=["inputs"], quant="every resource limit and number of open descriptors",
  why="Depends on system limits that tests do not vary.",
  files=["src/eval.c"],
  mech=[("infer_fdlimit()", "src/eval.c")],
  level="proof", note="Postcondition of infer_fdlimit() for all limits.")
P(id="C26", title="The symbolic file mode string shows exactly the mode",
  statement="The ls-style mode string printed by -ls and -printf %M shows exactly the type and permission bits of the file, including set-id and sticky bits, for every mode.",
  over=["inputs"], quant="every mode",
  why="Tests sample a few modes.",
  files=["src/bfstd.c"],
  mech=[("xstrmode()", "src/bfstd.c")],
  level="proof", note="Postcondition of xstrmode() for all 2^32 modes.")
