/*
 * Common support for the contract units.
 *
 * A unit includes this header, then the *real* source file under proof
 * (by name: the driver's include path decides whether that is /repo/src's file
 * verbatim, or the same file with loop contracts attached), then declares
 * contracts on the real functions and a harness that builds the arguments.
 *
 * Modes:
 *   V_CBMC            compiled by goto-cc; contracts are active
 *   V_CBMC+V_BOUNDED  no loop contracts, loops are unwound up to V_N entries
 *   V_NATIVE          compiled by gcc+ASan/UBSan: replays one counterexample
 */
#ifndef V_COMMON_H
#define V_COMMON_H

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <errno.h>

/* Verifier only: pad table elements to a power of two, so that indexing them is
 * a shift (layout only; the code under proof never depends on the padding). */
#if defined(V_CBMC) && !defined(V_BOUNDED)
#define cyaml_schema_field __attribute__((aligned(128))) cyaml_schema_field
#endif
#include "cyaml/cyaml.h"

#ifndef V_N
#define V_N 3
#endif

#if defined(V_SMALL) && !defined(V_STR_MAX)
#define V_STR_MAX 6
#endif
#ifndef V_STR_MAX
#define V_STR_MAX 0xffffff
#endif
#ifndef V_UNIT_GHOSTS
#define V_UNIT_GHOSTS
#endif

/* Sizes of client tables: unbounded proof / bounded and native. */
#if defined(V_BOUNDED) || defined(V_NATIVE)
 #define V_TABLE_MAX V_N
 #define V_INIT_TABLE 1
#else
 #define V_TABLE_MAX UINT32_MAX
#endif

#define IMP(a, b) (!(a) || (b))

#ifdef V_CBMC /* ------------------------------------------------------ */

/* Clause lists: each contract is written once as a list of clauses. */
#define V_REQ(name, c)  __CPROVER_requires(c)
#define V_ENS(name, c)  __CPROVER_ensures(c)
#define V_ASSERT(name, c) __CPROVER_assert((c), name)
#define V_ASSUME(c) __CPROVER_assume(c)
#define V_SAME_OBJECT(a, b) (__CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(b))
#define V_FILL(p, c, n) ((void)0)  /* native only: give unspecified bytes a value */

#define V_IN_DEF(T, S) \
	T nondet_##S(void); \
	static inline T v_in_##S(const char *n) \
	{ T v = nondet_##S(); __CPROVER_input(n, v); return v; }
V_IN_DEF(uint8_t, u8)
V_IN_DEF(uint16_t, u16)
V_IN_DEF(uint32_t, u32)
V_IN_DEF(uint64_t, u64)
V_IN_DEF(int8_t, i8)
V_IN_DEF(int32_t, i32)
V_IN_DEF(int64_t, i64)
V_IN_DEF(double, f64)
V_IN_DEF(float, f32)
static inline bool v_in_bool(const char *n)
{ return v_in_u8(n) & 1; }

#else /* V_NATIVE ------------------------------------------------------ */

#include <stdio.h>
#define V_SAME_OBJECT(a, b) true
#define V_FILL(p, c, n) memset(p, c, n)

struct v_in { char name[80]; char val[80]; int used; };
static struct v_in v_ins[4096];
static int v_nins;
static int v_failures;

static const char *v_lookup(const char *n)
{
	for (int i = 0; i < v_nins; i++) {
		if (!v_ins[i].used && strcmp(v_ins[i].name, n) == 0) {
			v_ins[i].used = 1;
			return v_ins[i].val;
		}
	}
	return "0";
}
static void v_check(const char *name, int c, const char *text)
{
	if (!c) {
		printf("REPLAY-FAILED: %s: %s\n", name, text);
		fflush(stdout);
		v_failures++;
	}
}
#define V_ASSERT(name, c) v_check(name, (c) ? 1 : 0, #c)
#define V_ASSUME(c) do { if (!(c)) { \
	printf("REPLAY-OUT-OF-CONTRACT: %s\n", #c); \
	if (v_failures) { exit(1); } \
	exit(3); } } while (0)
#define V_ENS(name, c) v_check(name, (c) ? 1 : 0, #c);
#define V_REQ(name, c) V_ASSUME(c);
#define V_IN_INT(T, S) \
	static inline T v_in_##S(const char *n) \
	{ const char *s = v_lookup(n); \
	  return (T)(s[0] == '-' ? (unsigned long long)strtoll(s, NULL, 0) \
	                         : strtoull(s, NULL, 0)); }
V_IN_INT(uint8_t, u8)
V_IN_INT(uint16_t, u16)
V_IN_INT(uint32_t, u32)
V_IN_INT(uint64_t, u64)
V_IN_INT(int8_t, i8)
V_IN_INT(int32_t, i32)
V_IN_INT(int64_t, i64)
static inline double v_in_f64(const char *n)
{ uint64_t b = strtoull(v_lookup(n), NULL, 0); double d; memcpy(&d, &b, 8); return d; }
static inline float v_in_f32(const char *n)
{ uint32_t b = (uint32_t)strtoull(v_lookup(n), NULL, 0); float d; memcpy(&d, &b, 4); return d; }
static inline bool v_in_bool(const char *n)
{ return v_in_u8(n) & 1; }

void harness(void);
int main(int argc, char **argv)
{
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
	char line[256];
	while (f != NULL && fgets(line, sizeof(line), f) != NULL &&
			v_nins < 4096) {
		if (sscanf(line, "%79s %79s", v_ins[v_nins].name,
				v_ins[v_nins].val) == 2 && line[0] != '#') {
			v_nins++;
		}
	}
	harness();
	printf(v_failures ? "REPLAY-REPRODUCED\n" : "REPLAY-CLEAN\n");
	return v_failures ? 1 : 0;
}
#endif

/* a clause of a contract, checked after the call */
#define V_CHECK(name, c) V_ASSERT(name, c);
/* any outcome / any failure of a replaced callee */
static inline cyaml_err_t v_err(const char *name)
{
	uint8_t e = v_in_u8(name);
	V_ASSUME(e < CYAML_ERR__COUNT);
	return (cyaml_err_t)e;
}
#endif
