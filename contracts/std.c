// Contracts for src/bfstd.c: paths, strings, numbers, robust I/O, quoting.
// @file link=vf_libc.c unwind=10
#include "vf.h"
#include "prelude.h"
#include "bfstd.c"
#include "vf_env.h"

#ifndef NB
#  define NB 7
#endif
static char S[NB + 1];

static size_t len_of(const char *s) {
	size_t n = 0;
	while (s[n]) { ++n; }
	return n;
}

// ---------------------------------------------------------------------- paths

/** POSIX basename(): where the last component is, and how long. */
static size_t spec_base(const char *p, size_t *len) {
	size_t end = len_of(p);
	if (end == 0) {
		*len = 0;
		return 0;
	}
	while (end > 0 && p[end - 1] == '/') { --end; }
	if (end == 0) {
		// Only slashes
		*len = 1;
		return len_of(p) - 1;
	}
	size_t i = end;
	while (i > 0 && p[i - 1] != '/') { --i; }
	*len = end - i;
	return i;
}

static bool equals(const char *s, const char *p, size_t len) {
	for (size_t i = 0; i < len; ++i) {
		if (s[i] != p[i]) { return false; }
	}
	return s[len] == '\0';
}

// @unit h_baseoff props=C18 covers=xbaseoff bounded="paths of at most 7 bytes" def=NB=7 tdef=NB=12 tunwind=15 tbounded="paths of at most 12 bytes"
void h_baseoff(void) {
	IN_STRING("path", S, NB);
	size_t len;
	size_t base = spec_base(S, &len);
	CHECK(xbaseoff(S) == base, "xbaseoff() finds the last path component");
	DONE();
}

// @unit h_basename props=C18 covers=xbasename,xdirname,xbaseoff bounded="paths of at most 5 bytes" def=NB=5 unwind=8 tdef=NB=7 tunwind=10 tbounded="paths of at most 7 bytes"
void h_basename(void) {
	IN_STRING("path", S, NB);
	size_t len;
	size_t base = spec_base(S, &len);
	char *b = xbasename(S);
	ASSUME(b);
	if (S[0] == '\0') {
		CHECK(b[0] == '.' && b[1] == '\0', "the base name of the empty path is .");
	} else {
		CHECK(equals(b, S + base, len), "xbasename() is the last path component");
	}
	char *d = xdirname(S);
	ASSUME(d);
	size_t i = base;
	while (i > 0 && S[i - 1] == '/') { --i; }
	if (i > 0) {
		CHECK(equals(d, S, i), "xdirname() is the path without the last component");
	} else if (S[0] == '/') {
		CHECK(d[0] == '/' && d[1] == '\0', "the parent of an entry of / is /");
	} else {
		CHECK(d[0] == '.' && d[1] == '\0', "the parent of a bare name is .");
	}
	DONE();
}

// -------------------------------------------------------------------- strings

// @unit h_stpencpy props=C17 covers=xstpencpy,xstpecpy bounded="buffers of at most 7 bytes" unwind=11
void h_stpencpy(void) {
	IN_STRING("src", S, NB);
	char dest[NB + 1];
	IN_BYTES("dest", dest, NB + 1);
	dest[NB] = 'G';
	size_t space = IN_RANGE(uint8_t, "space", 1, NB);
	size_t n = IN_BOOL("all") ? SIZE_MAX : IN_RANGE(uint8_t, "n", 0, NB + 1);
	size_t want = len_of(S);
	if (n < want) { want = n; }
	char *end = dest + space;
	char *r = n == SIZE_MAX ? xstpecpy(dest, end, S) : xstpencpy(dest, end, S, n);
	bool fits = want < space;
	CHECK(r == (fits ? dest + want : end), "the end of the copy is returned, or the end of the buffer if truncated");
	size_t copied = fits ? want : space - 1;
	for (size_t i = 0; i < NB; ++i) {
		if (i < copied) { CHECK(dest[i] == S[i], "the longest fitting prefix is copied"); }
	}
	CHECK(dest[copied] == '\0', "the copy is terminated");
	CHECK(dest[NB] == 'G', "nothing is written beyond the buffer");
	// Appending to a full buffer keeps it full
	if (!fits) {
		CHECK(xstpecpy(r, end, S) == end && dest[space - 1] == '\0', "a truncated buffer stays truncated");
	}
	DONE();
}

// @unit h_strmode props=C26 covers=xstrmode,type_char unwind=13
void h_strmode(void) {
	mode_t mode = IN(mode_t, "mode");
	char str[12];
	str[11] = 'G';
	xstrmode(mode, str);
	char t = '?';
	switch (mode & S_IFMT) {
	case S_IFREG: t = '-'; break;
	case S_IFBLK: t = 'b'; break;
	case S_IFCHR: t = 'c'; break;
	case S_IFDIR: t = 'd'; break;
	case S_IFLNK: t = 'l'; break;
	case S_IFIFO: t = 'p'; break;
	case S_IFSOCK: t = 's'; break;
	}
	CHECK(str[0] == t, "the first character is the file type");
	for (int i = 0; i < 3; ++i) {
		int shift = 6 - 3 * i;
		bool r = (mode >> shift) & 4, w = (mode >> shift) & 2, x = (mode >> shift) & 1;
		bool s = mode & (04000 >> i);
		char set = i == 2 ? 't' : 's', sethi = i == 2 ? 'T' : 'S';
		CHECK(str[1 + 3 * i] == (r ? 'r' : '-'), "read permission is shown");
		CHECK(str[2 + 3 * i] == (w ? 'w' : '-'), "write permission is shown");
		CHECK(str[3 + 3 * i] == (s ? (x ? set : sethi) : (x ? 'x' : '-')), "execute and special permissions are shown");
	}
	CHECK(str[10] == '\0' && str[11] == 'G', "exactly ten characters are written");
	DONE();
}

// @unit h_asciinlen props=C17 covers=asciinlen,asciilen bounded="at most 19 bytes" def=NB=19 unwind=22
void h_asciinlen(void) {
	IN_STRING("str", S, NB);
	size_t n = IN_RANGE(uint8_t, "n", 0, NB);
	size_t r = asciinlen(S, n);
	CHECK(r <= n, "the prefix is within the string");
	for (size_t i = 0; i < NB; ++i) {
		if (i < r) { CHECK((unsigned char)S[i] < 0x80, "the prefix is ASCII"); }
	}
	CHECK(r == n || (unsigned char)S[r] >= 0x80, "the prefix is the longest one");
	DONE();
}

// -------------------------------------------------------------------- numbers

static long long G_num;
static size_t G_consumed;
static int G_num_errno;
#define STRTO(name, T) T name(const char *restrict str, char **restrict end, int base) { \
	if (G_num_errno) { errno = G_num_errno; } \
	if (end) { *end = (char *)str + G_consumed; } \
	return (T)G_num; \
}
STRTO(strtol, long)
STRTO(strtoll, long long)
STRTO(strtoul, unsigned long)
STRTO(strtoull, unsigned long long)

static bool num_ok(bool end) {
	char c = S[0];
	bool space = c == ' ' || (c >= '\t' && c <= '\r');
	return !space && G_num_errno == 0 && G_consumed > 0 && (end || S[G_consumed] == '\0');
}

static void num_setup(void) {
	IN_STRING("str", S, NB);
	G_num = IN(long long, "num");
	G_consumed = IN_RANGE(uint8_t, "consumed", 0, NB);
	ASSUME(G_consumed <= len_of(S));
	G_num_errno = IN_RANGE(int, "num_errno", 0, 133);
	errno = IN_RANGE(int, "errno0", 0, 133);
}

#define NUM_UNIT(h, f, T, sign, inrange) void h(void) { \
	num_setup(); \
	bool with_end = IN_BOOL("with_end"); \
	char *end = NULL; \
	T value = 0; \
	int r = f(S, with_end ? &end : NULL, 10, &value); \
	bool ok = num_ok(with_end) && (inrange) && (sign || S[0] != '-'); \
	CHECK((r == 0) == ok, #f "() accepts exactly well-formed, representable numbers"); \
	CHECK(r == 0 || r == -1, #f "() returns 0 or -1"); \
	CHECK(IMPLIES(r == 0, value == (T)G_num), #f "() returns the value that was parsed"); \
	CHECK(IMPLIES(r == 0 && with_end, end == S + G_consumed), #f "() returns where the number ended"); \
	CHECK(IMPLIES(r != 0, errno != 0), #f "() reports an error"); \
	DONE(); \
}
#define NUM_NATIVE native=no
// @unit h_strtoll props=C07 covers=xstrtoll,xstrtox_prologue,xstrtox_epilogue native=no
NUM_UNIT(h_strtoll, xstrtoll, long long, true, true)
// @unit h_strtol props=C07 covers=xstrtol native=no
NUM_UNIT(h_strtol, xstrtol, long, true, true)
// @unit h_strtoi props=C07 covers=xstrtoi native=no
NUM_UNIT(h_strtoi, xstrtoi, int, true, G_num >= INT_MIN && G_num <= INT_MAX)
// @unit h_strtos props=C07 covers=xstrtos native=no
NUM_UNIT(h_strtos, xstrtos, short, true, G_num >= SHRT_MIN && G_num <= SHRT_MAX)
// @unit h_strtoull props=C07 covers=xstrtoull,xstrtoux_epilogue native=no
NUM_UNIT(h_strtoull, xstrtoull, unsigned long long, false, true)
// @unit h_strtoul props=C07 covers=xstrtoul native=no
NUM_UNIT(h_strtoul, xstrtoul, unsigned long, false, true)
// @unit h_strtoui props=C07 covers=xstrtoui native=no
NUM_UNIT(h_strtoui, xstrtoui, unsigned int, false, (unsigned long)G_num <= UINT_MAX)
// @unit h_strtous props=C07 covers=xstrtous native=no
NUM_UNIT(h_strtous, xstrtous, unsigned short, false, (unsigned long)G_num <= USHRT_MAX)

// ------------------------------------------------------------------------ I/O

#define IO 6
static char DATA[IO], BUF[IO + 1];
static size_t G_want, G_pos, G_avail;
static int G_io_errno, G_calls;
/** One read()/write() call: EINTR, an error, end of file, or some progress. */
static ssize_t io(void *p, size_t n) {
	CHECK((char *)p == BUF + G_pos && n == G_want - G_pos, "I/O continues exactly where it stopped");
	++G_calls;
	if (IN_BOOL("eintr") && G_calls < 3) {
		errno = EINTR;
		return -1;
	}
	if (G_pos >= G_avail) {
		errno = G_io_errno;
		return G_io_errno ? -1 : 0;
	}
	size_t max = G_avail - G_pos < n ? G_avail - G_pos : n;
	size_t r = IN_RANGE(uint8_t, "chunk", 1, IO);
	if (r > max) { r = max; }
	return r;
}
static char WRITTEN[IO];
ssize_t read(int fd, void *buf, size_t n) {
	ssize_t r = io(buf, n);
	for (ssize_t i = 0; i < IO; ++i) {
		if (i < r) { ((char *)buf)[i] = DATA[G_pos + i]; }
	}
	if (r > 0) { G_pos += r; }
	return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
	ssize_t r = io((void *)buf, n);
	for (ssize_t i = 0; i < IO; ++i) {
		if (i < r) { WRITTEN[G_pos + i] = ((const char *)buf)[i]; }
	}
	if (r > 0) { G_pos += r; }
	return r;
}

static void io_setup(void) {
	IN_BYTES("data", DATA, IO);
	IN_BYTES("buf", BUF, IO + 1);
	BUF[IO] = 'G';
	G_want = IN_RANGE(uint8_t, "want", 0, IO);
	G_avail = IN_RANGE(uint8_t, "avail", 0, IO);
	G_io_errno = IN_RANGE(int, "io_errno", 0, 133);
	ASSUME(G_io_errno != EINTR);
	G_pos = 0;
	G_calls = 0;
	errno = IN_RANGE(int, "errno0", 0, 133);
}

static void io_result(size_t r) {
	size_t total = G_avail < G_want ? G_avail : G_want;
	CHECK(r == total, "everything that can be transferred is, despite interruptions and partial transfers");
	CHECK(IMPLIES(r < G_want, errno == G_io_errno), "errno tells an error from the end of the file");
	CHECK(BUF[IO] == 'G', "nothing beyond the buffer is touched");
}

// @unit h_read props=C20 covers=xread unwind=10 native=no bounded="buffers of at most 6 bytes, 2 interruptions"
void h_read(void) {
	io_setup();
	size_t r = xread(3, BUF, G_want);
	io_result(r);
	for (size_t i = 0; i < IO; ++i) {
		if (i < r) { CHECK(BUF[i] == DATA[i], "the data arrives in order"); }
	}
	DONE();
}
// @unit h_write props=C20 covers=xwrite unwind=10 native=no bounded="buffers of at most 6 bytes, 2 interruptions"
void h_write(void) {
	io_setup();
	size_t r = xwrite(3, BUF, G_want);
	io_result(r);
	for (size_t i = 0; i < IO; ++i) {
		if (i < r) { CHECK(WRITTEN[i] == BUF[i], "the data is written in order"); }
	}
	DONE();
}

static int G_close_ret, G_close_errno, G_closes, G_closed;
int close(int fd) {
	++G_closes;
	G_closed = fd;
	if (G_close_ret) { errno = G_close_errno; }
	return G_close_ret;
}
// @unit h_close props=C20 covers=xclose,close_quietly native=no
void h_close(void) {
	G_close_ret = IN_BOOL("fails") ? -1 : 0;
	G_close_errno = IN_RANGE(int, "close_errno", 1, 133);
	ASSUME(G_close_errno != EBADF);
	int e = errno = IN_RANGE(int, "errno0", 0, 133);
	int fd = IN_RANGE(int, "fd", 0, 1000);
	G_closes = 0;
	CHECK(xclose(fd) == G_close_ret && G_closes == 1 && G_closed == fd, "xclose() closes the descriptor once");
	errno = e;
	close_quietly(fd);
	CHECK(errno == e && G_closes == 2 && G_closed == fd, "close_quietly() keeps errno");
	DONE();
}

static size_t G_linklen, G_k;
static char G_w;
static int G_link_errno, G_link_fd;
static const char *G_link_path;
ssize_t readlinkat(int fd, const char *restrict path, char *restrict buf, size_t size) {
	G_link_fd = fd;
	G_link_path = path;
	CHECK(OK_RW(buf, size), "the buffer is as large as promised");
	if (G_link_errno) {
		errno = G_link_errno;
		return -1;
	}
	size_t n = G_linklen < size ? G_linklen : size;
	if (G_k < n) { buf[G_k] = G_w; }
	return n;
}
// @unit h_readlink props=C20 covers=xreadlinkat unwind=8 native=no bounded="link targets of at most 500 bytes"
void h_readlink(void) {
	G_linklen = IN_RANGE(uint16_t, "linklen", 0, 500);
	G_k = IN_RANGE(uint16_t, "k", 0, 499);
	ASSUME(G_k < G_linklen || G_linklen == 0);
	G_w = IN_RANGE(char, "w", 1, 127);
	G_link_errno = IN_BOOL("link_fails") ? EACCES : 0;
	size_t hint = IN_RANGE(uint16_t, "hint", 0, 100);
	ASSUME(hint == 0 || hint > 8);
	char *r = xreadlinkat(5, S, hint);
	CHECK(G_link_fd == 5 && G_link_path == S, "the right link is read");
	if (G_link_errno) {
		CHECK(!r && errno == G_link_errno, "a failure is reported");
	} else {
		CHECK(r, "the target is returned");
		CHECK(IMPLIES(G_linklen > 0, r[G_k] == G_w), "the target is returned unchanged");
		CHECK(r[G_linklen] == '\0', "the target is returned in full and terminated");
	}
	DONE();
}

// -------------------------------------------------------------------- quoting

#ifndef VF_NATIVE
/** A locale in which bytes >= 0x80 may form characters of 1 or 2 bytes. */
static bool G_mbvalid[2], G_mbprint[2];
size_t mbrtowc(wchar_t *restrict wc, const char *restrict s, size_t n, mbstate_t *restrict mb) {
	unsigned char c = s[0];
	if (c < 0x80) {
		*wc = c;
		return c ? 1 : 0;
	}
	if (c & 1) {
		*wc = 0x100 + c;
		return G_mbvalid[0] ? 1 : (size_t)-1;
	}
	if (n < 2) {
		return (size_t)-2;
	}
	*wc = 0x200 + c;
	return G_mbvalid[1] && (unsigned char)s[1] >= 0x80 ? 2 : (size_t)-1;
}
#undef isprint
#undef isspace
#undef iswprint
#undef iswspace
int isprint(int c) { return c >= 0x20 && c < 0x7F; }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int iswprint(wint_t c) { return c < 0x80 ? isprint(c) : G_mbprint[(c >> 8) & 1]; }
int iswspace(wint_t c) { return c < 0x80 && isspace(c); }
void invoke_once(pthread_once_t *once, once_fn *fn) { fn(); }
#endif

#ifndef NQ
#  define NQ 3
#endif
#define OUTSZ 40
static char OUT[OUTSZ];

/** A shell reading a word, one byte at a time. */
static struct {
	enum { BARE, BACKSLASH, DOLLAR, SINGLE, DOUBLE, ANSI, ANSI_ESC, ANSI_X, ANSI_XX } mode;
	int hex;
	/** How many bytes were written, and how many the shell has read. */
	size_t pos, n;
	bool bad, tty_bad;
	/** Control characters other than spaces; changes to the raw bytes. */
	bool ctl_bad, raw_bad;
} W;

static void shell_out(char c) {
	if (W.n >= NQ || S[W.n] != c) {
		W.bad = true;
	} else {
		++W.n;
	}
}

static int unhex(char c) {
	return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}

static void shell_in(char c) {
	unsigned char u = c;
	if (u < 0x20 || u == 0x7F) { W.tty_bad = true; }
	if ((u < 0x20 && !(u >= '\t' && u <= '\r')) || u == 0x7F) { W.ctl_bad = true; }
	if (W.pos >= NQ || S[W.pos] != c) { W.raw_bad = true; }
	bool first = W.pos++ == 0;
	switch (W.mode) {
	case SINGLE:
		if (c == '\'') { W.mode = BARE; } else { shell_out(c); }
		break;
	case DOUBLE:
		if (c == '"') { W.mode = BARE; }
		else if (c == '$' || c == '`' || c == '\\' || c == '!') { W.bad = true; }
		else { shell_out(c); }
		break;
	case ANSI:
		if (c == '\'') { W.mode = BARE; }
		else if (c == '\\') { W.mode = ANSI_ESC; }
		else { shell_out(c); }
		break;
	case ANSI_ESC:
		W.mode = ANSI;
		switch (c) {
		case 'a': shell_out(7); break;
		case 'b': shell_out(8); break;
		case 'e': shell_out(27); break;
		case 'f': shell_out(12); break;
		case 'n': shell_out(10); break;
		case 'r': shell_out(13); break;
		case 't': shell_out(9); break;
		case 'v': shell_out(11); break;
		case '\'': case '\\': shell_out(c); break;
		case 'x': W.mode = ANSI_X; break;
		default: W.bad = true;
		}
		break;
	case ANSI_X:
		W.hex = unhex(c);
		if (W.hex < 0) { W.bad = true; }
		W.mode = ANSI_XX;
		break;
	case ANSI_XX:
		if (unhex(c) < 0) { W.bad = true; }
		shell_out((char)(16 * W.hex + unhex(c)));
		W.mode = ANSI;
		break;
	case BACKSLASH:
		if (c == '\n') { W.bad = true; }
		shell_out(c);
		W.mode = BARE;
		break;
	case DOLLAR:
		if (c == '\'') { W.mode = ANSI; } else { W.bad = true; }
		break;
	case BARE:
		if (c == '\'') { W.mode = SINGLE; }
		else if (c == '"') { W.mode = DOUBLE; }
		else if (c == '\\') { W.mode = BACKSLASH; }
		else if (c == '$') { W.mode = DOLLAR; }
		else if (c == '|' || c == '&' || c == ';' || c == '<' || c == '>' || c == '(' || c == ')' || c == '`'
			|| c == ' ' || c == '\t' || c == '\n' || c == '*' || c == '?' || c == '[' || c == '!' || c == '{' || c == '}'
			|| ((c == '#' || c == '~') && first)) {
			// Would be split, expanded or interpreted
			W.bad = true;
		} else {
			shell_out(c);
		}
		break;
	}
}

#ifndef VF_NATIVE
/** xstpencpy() by its contract (h_stpencpy): append to the buffer what fits. */
static size_t G_space;
char *m_xstpencpy(char *dest, char *end, const char *src, size_t n) {
	CHECK(end == OUT + G_space, "output is appended within the buffer");
	CHECK(dest == (W.pos < G_space ? OUT + W.pos : end), "output is appended where the last output ended");
	for (size_t i = 0; i < NQ && i < n; ++i) {
		if (!src[i]) { break; }
		shell_in(src[i]);
	}
	return W.pos < G_space ? OUT + W.pos : end;
}
char *m_xstpecpy(char *dest, char *end, const char *src) {
	return m_xstpencpy(dest, end, src, SIZE_MAX);
}
#endif

static void wordesc_setup(void) {
	IN_STRING("str", S, NQ);
	for (int i = 0; i < 2; ++i) {
		bool valid = IN_BOOL("mbvalid"), print = IN_BOOL("mbprint");
#ifndef VF_NATIVE
		G_mbvalid[i] = valid;
		G_mbprint[i] = print;
#else
		(void)valid, (void)print;
#endif
	}
	W.pos = W.n = 0;
	W.bad = W.tty_bad = W.ctl_bad = W.raw_bad = false;
	W.mode = BARE;
}

static void wordesc_out(void) {
#ifdef VF_NATIVE
	for (int i = 0; i < OUTSZ && OUT[i]; ++i) { shell_in(OUT[i]); }
#endif
}

// @unit h_wordesc props=C17 covers=wordesc,wordnesc,dollar_quote,dollar_esc,double_quote,single_quote,bare_len,quotable_len,printable_len,wesc_isprint,wesc_iswprint,char_cache_init,xmbrtowc
//  + unwindset=char_cache_init.0:257,strcspn.0:25,strcspn.1:25 subst=xstpencpy:m_xstpencpy,xstpecpy:m_xstpecpy
//  + bounded="words of at most 3 bytes; any buffer size" timeout=600 unwind=7 tdef=NQ=4 tunwind=8 tbounded="words of at most 4 bytes; any buffer size" ttimeout=2000
void h_wordesc(void) {
	wordesc_setup();
	size_t space = OUTSZ;
#ifndef VF_NATIVE
	G_space = IN_RANGE(uint8_t, "space", 1, OUTSZ);
	space = G_space;
#endif
	char *end = OUT + space;
	char *r = wordesc(OUT, end, S, WESC_SHELL | WESC_TTY);
	wordesc_out();
	CHECK(r == (W.pos < space ? OUT + W.pos : end), "the end of the output is returned");
	CHECK(!W.bad && W.mode == BARE, "a shell reads the word as one literal word");
	CHECK(W.n == len_of(S), "a shell reads back the whole word");
	CHECK(W.pos > 0, "an empty word is still a word");
	CHECK(!W.tty_bad, "no control characters are written to the terminal");
	DONE();
}

// @unit h_wordnesc props=C17 covers=wordnesc,dollar_quote unwindset=char_cache_init.0:257,strcspn.0:25,strcspn.1:25
//  + subst=xstpencpy:m_xstpencpy,xstpecpy:m_xstpecpy bounded="words of at most 3 bytes; any buffer size" timeout=600 unwind=7 tdef=NQ=4 tunwind=8 tbounded="words of at most 4 bytes; any buffer size" ttimeout=2000
void h_wordnesc(void) {
	wordesc_setup();
#ifndef VF_NATIVE
	G_space = OUTSZ;
#endif
	size_t n = IN_RANGE(uint8_t, "n", 0, NQ);
	size_t len = len_of(S);
	wordnesc(OUT, OUT + OUTSZ, S, n, WESC_SHELL | WESC_TTY);
	wordesc_out();
	CHECK(!W.bad && W.mode == BARE && W.n == (n < len ? n : len), "a shell reads back the first n bytes of the word");
	DONE();
}

// @unit h_wordesc_tty props=C17 covers=wordesc unwindset=char_cache_init.0:257,strcspn.0:25,strcspn.1:25
//  + subst=xstpencpy:m_xstpencpy,xstpecpy:m_xstpecpy bounded="words of at most 3 bytes; any buffer size" timeout=600 unwind=7 tdef=NQ=4 tunwind=8 tbounded="words of at most 4 bytes; any buffer size" ttimeout=2000
void h_wordesc_tty(void) {
	wordesc_setup();
#ifndef VF_NATIVE
	G_space = OUTSZ;
#endif
	bool clean = true;
	for (int i = 0; i < NQ && S[i]; ++i) {
		unsigned char u = S[i];
		if ((u < 0x20 && !(u >= '\t' && u <= '\r')) || u >= 0x7F) { clean = false; }
	}
	wordesc(OUT, OUT + OUTSZ, S, WESC_TTY);
	wordesc_out();
	CHECK(!W.ctl_bad, "no control characters other than spaces are written to the terminal");
	CHECK(IMPLIES(clean && S[0], W.pos == len_of(S) && !W.raw_bad), "a printable word is not changed");
	DONE();
}
