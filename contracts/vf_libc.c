// Models of libc functions that CBMC's library lacks.  goto-cc only.
#include <stddef.h>
#include <locale.h>
#include <string.h>

locale_t uselocale(locale_t loc) { static int dummy; return (locale_t)&dummy; }
locale_t duplocale(locale_t loc) { return loc; }
void freelocale(locale_t loc) { }
char *strerror_l(int errnum, locale_t loc) { static char buf[] = "error"; return buf; }

char *strndup(const char *s, size_t n) {
	size_t len = 0;
	while (len < n && s[len]) {
		++len;
	}
	char *ret = malloc(len + 1);
	if (ret) {
		for (size_t i = 0; i < len; ++i) {
			ret[i] = s[i];
		}
		ret[len] = '\0';
	}
	return ret;
}

char *strpbrk(const char *s, const char *accept) {
	for (; *s; ++s) {
		for (const char *a = accept; *a; ++a) {
			if (*a == *s) {
				return (char *)s;
			}
		}
	}
	return NULL;
}

// Same meaning as CBMC's own models, but pointer-sized operations are done on
// pointers, which keeps linked lists (list.h moves pointers with memcpy())
// precise.
#ifdef VF_NATIVE
#error "goto-cc only"
#endif
void *memcpy(void *dst, const void *src, size_t n) {
	__CPROVER_precondition(__CPROVER_r_ok(src, n), "memcpy source region readable");
	__CPROVER_precondition(__CPROVER_w_ok(dst, n), "memcpy destination region writeable");
	if (n == sizeof(void *)) {
		*(void **)dst = *(void *const *)src;
	} else if (n > 0) {
		char src_n[n];
		__CPROVER_array_copy(src_n, (char *)src);
		__CPROVER_array_replace((char *)dst, src_n);
	}
	return dst;
}

void *memset(void *s, int c, size_t n) {
	__CPROVER_precondition(__CPROVER_w_ok(s, n), "memset destination region writeable");
	if (c == 0 && n == sizeof(void *)) {
		*(void **)s = NULL;
	} else if (n > 0) {
		char s_n[n];
		__CPROVER_array_set(s_n, (char)c);
		__CPROVER_array_replace((char *)s, s_n);
	}
	return s;
}

size_t strcspn(const char *s, const char *reject) {
	size_t i = 0;
	for (; s[i]; ++i) {
		for (const char *r = reject; *r; ++r) {
			if (*r == s[i]) {
				return i;
			}
		}
	}
	return i;
}

size_t strspn(const char *s, const char *accept) {
	size_t i = 0;
	for (; s[i]; ++i) {
		const char *a = accept;
		while (*a && *a != s[i]) {
			++a;
		}
		if (!*a) {
			return i;
		}
	}
	return i;
}

size_t strnlen(const char *s, size_t n) {
	size_t i = 0;
	while (i < n && s[i]) {
		++i;
	}
	return i;
}

char *strstr(const char *s, const char *find) {
	for (;; ++s) {
		size_t i = 0;
		while (find[i] && s[i] == find[i]) {
			++i;
		}
		if (!find[i]) {
			return (char *)s;
		}
		if (!*s) {
			return NULL;
		}
	}
}

char *stpcpy(char *restrict dest, const char *restrict src) {
	size_t i = 0;
	while ((dest[i] = src[i])) {
		++i;
	}
	return dest + i;
}
