// Common vocabulary for the contract files.
//
// Every contract file textually includes the real translation unit(s) from
// /repo/src.  The same file is compiled twice:
//
//   * by goto-cc, where REQUIRES/ENSURES/ASSIGNS are CBMC code contracts,
//     IN() is an unconstrained value, CHECK() is a proof obligation;
//   * by gcc with -DVF_NATIVE, where contracts vanish, IN() reads the value
//     the verifier found (or a pseudo-random one), and CHECK() tests the real
//     compiled code.  That is how counterexamples are replayed.
#ifndef VF_H
#define VF_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>

#ifdef VF_NATIVE

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

uint64_t vf_in(const char *id, size_t width);
void vf_check(bool ok, const char *msg);
void vf_assume(bool ok);
void vf_done(void);

#define IN(T, id) ((T)vf_in(id, sizeof(T)))
#define CHECK(cond, msg) vf_check(!!(cond), msg)
#define ASSUME(cond) vf_assume(!!(cond))
#define DONE() vf_done()
#define HAVOC(obj) memset(&(obj), 0, sizeof(obj))
#define UNREACHED(msg) vf_check(false, msg)
#define OK_R(p, n) ((p) != NULL)
#define OK_RW(p, n) ((p) != NULL)
#define SAME_OBJECT(a, b) true

#else // CBMC

#define RET __CPROVER_return_value
#define OLD(...) __CPROVER_old(__VA_ARGS__)

#define IN(T, id) ({ T vf_v; __CPROVER_input(id, vf_v); vf_v; })
#define CHECK(cond, msg) __CPROVER_assert(cond, "VF " msg)
#define ASSUME(cond) __CPROVER_assume(cond)
#define DONE() __CPROVER_assert(0, "VF_REACH")
#define HAVOC(obj) ((void)0)
#define UNREACHED(msg) do { __CPROVER_assert(0, "VF " msg); __CPROVER_assume(0); } while (0)
#define OK_R(p, n) __CPROVER_r_ok(p, n)
#define OK_RW(p, n) __CPROVER_rw_ok(p, n)
#define SAME_OBJECT(a, b) __CPROVER_same_object(a, b)

#endif

#if defined(VF_NATIVE) || defined(VF_NO_CONTRACTS)
#  define REQUIRES(...)
#  define ENSURES(...)
#  define ASSIGNS(...)
#else
#  define VF_CONTRACTS 1
#  define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#  define ENSURES(...) __CPROVER_ensures(__VA_ARGS__)
#  define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#endif

#define IN_BOOL(id) ((IN(uint8_t, id) & 1) != 0)
#ifdef VF_NATIVE
/** Replayed values are in range already; random ones are folded into it. */
#define IN_RANGE(T, id, lo, hi) ({ \
	T vf_r = IN(T, id); __int128 vf_lo = (lo), vf_hi = (hi); \
	(vf_r >= vf_lo && vf_r <= vf_hi) ? vf_r : (T)(vf_lo + (__int128)(uint64_t)vf_r % (vf_hi - vf_lo + 1)); })
#else
#define IN_RANGE(T, id, lo, hi) ({ T vf_r = IN(T, id); ASSUME(vf_r >= (lo) && vf_r <= (hi)); vf_r; })
#endif
/** Fill a buffer with arbitrary bytes. */
#define IN_BYTES(id, buf, n) do { \
	for (size_t vf_i = 0; vf_i < (n); ++vf_i) { ((unsigned char *)(buf))[vf_i] = IN(uint8_t, id); } \
} while (0)
/** Fill a buffer of n+1 bytes with an arbitrary string of length <= n. */
#define IN_STRING(id, buf, n) do { IN_BYTES(id, buf, n); ((char *)(buf))[n] = 0; } while (0)

#define IMPLIES(a, b) (!(a) || (b))

#endif
