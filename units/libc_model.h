/*
 * Assumed contracts of external functions (the trusted base).
 *
 * Under CBMC these bodies stand for the C library / client callbacks: each is
 * the most general behaviour its documented contract allows.  Under native
 * replay the same scripted behaviour is used, driven by the counterexample.
 */
#ifndef V_LIBC_MODEL_H
#define V_LIBC_MODEL_H

/* All ghost state lives in one object, so that contracts can name it as one
 * assignable target. */
static struct v_ghost {
	/* the scalar text under conversion */
	const char *value;
	size_t value_len;
	/* name lookup */
	const char *names;
	size_t r[2];
	/* number parsing */
	bool num_pre;        /* the outcome was scripted with the text */
	bool num_called, num_wellformed, num_range, num_neg;
	int64_t num_ll;
	uint64_t num_ull;
	size_t num_used;
	double num_d;
	int num_base;
	int err;             /* errno */
	size_t mk;           /* tracked byte of long copies */
	/* allocator */
	void *mem_ctx;
	unsigned mem_allocs, mem_fails, mem_frees;
	void *mem_last;
	size_t mem_last_size;
	/* validation callbacks */
	unsigned cb_calls;
	bool cb_ret;
	int64_t cb_i;
	uint64_t cb_u;
	double cb_d;
	const void *cb_ptr;
	size_t cb_count;
	const cyaml_schema_value_t *cb_schema;
	void *cb_ctx;
	V_UNIT_GHOSTS
} g;
#define GHOST __CPROVER_object_whole(&g)

#undef errno
#define errno g.err

/* ---- string comparison with the names of a table ------------------------- */
/* A table of `count` names is represented by pointers into one object: name k
 * is g.names + k.  Relative to the text being looked up, name k matches under
 * the case-sensitive comparison iff ..., in general: r[0] / r[1] is the first
 * matching index under the case-sensitive / case-insensitive comparison
 * (== count when none matches); whether later names match too is arbitrary. */
#ifdef V_NAME_TABLE
static int v_cmp_name(const void *a, const void *b, bool ci)
{
	const char *n = a == (const void *)g.value ? b : a;
	V_ASSERT("the text is what is compared",
			a == (const void *)g.value || b == (const void *)g.value);
	if (V_SAME_OBJECT(n, g.names)) {
		size_t idx = (size_t)(n - g.names);
		if (idx < g.r[ci]) {
			return 1;
		}
		if (idx == g.r[ci]) {
			return 0;
		}
	}
	return v_in_bool("later.match") ? 0 : -1;
}
static int v_strcmp(const char *a, const char *b)
{ return v_cmp_name(a, b, false); }
static int v_casecmp(const void *a, const void *b)
{ return v_cmp_name(a, b, true); }
#include "utf8.h"
#undef strcmp
#define strcmp v_strcmp
#define cyaml_utf8_casecmp v_casecmp
/* Documented precedence: value's insensitive flag, value's sensitive flag,
 * configuration's insensitive flag, sensitive. */
#define V_INSENSITIVE(cfg, sch) \
	(((sch)->flags & CYAML_FLAG_CASE_INSENSITIVE) ? true : \
	 ((sch)->flags & CYAML_FLAG_CASE_SENSITIVE) ? false : \
	 ((cfg)->flags & CYAML_CFG_CASE_INSENSITIVE) ? true : false)
#define R_IDX(cfg, sch) (g.r[V_INSENSITIVE(cfg, sch)])
#elif !defined(V_OWN_CASECMP)
/* Case-insensitive comparison of short texts (its own unit proves that ASCII
 * text compares as its lower case; the answer for other bytes is left open). */
#include "utf8.h"
static int v_casecmp(const void *a, const void *b)
{
	const unsigned char *p = a, *q = b;
#define LC(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
#define B(k) { if (p[k] >= 0x80 || q[k] >= 0x80) { return v_in_bool("casecmp") ? 0 : 1; } \
	int d = LC(p[k]) - LC(q[k]); if (d != 0 || p[k] == 0) { return d; } }
	B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7)
#undef B
#undef LC
	return v_in_bool("casecmp") ? 0 : 1;
}
#define cyaml_utf8_casecmp v_casecmp
#endif

/* ---- logging ------------------------------------------------------------ */
/* The variadic call itself is outside the verifier's reach (see DESIGN.md): the
 * level test and all argument expressions are evaluated, nothing is formatted.
 * util.c's cyaml__log has its own unit. */
#include "util.h"
static inline void v_log_call(const cyaml_config_t *cfg, cyaml_log_t level)
{
	V_ASSERT("a log call has a configuration", cfg != NULL);
	(void)level;
}
/* a text argument of a message must be a text */
static inline void v_log_text(int d, const char *s)
{
	(void)d;
	V_ASSERT("[P22] a text in a message is not NULL", s != NULL);
}
static inline void v_log_other(int d, ...) { (void)d; }
#define V_LOG_ARG(x) _Generic((x), char *: v_log_text, const char *: v_log_text, default: v_log_other)(0, x)
#define V_LOG_1(f) (void)(f)
#define V_LOG_2(f, a) V_LOG_ARG(a)
#define V_LOG_3(f, a, b) (V_LOG_ARG(a), V_LOG_ARG(b))
#define V_LOG_4(f, a, b, c) (V_LOG_ARG(a), V_LOG_ARG(b), V_LOG_ARG(c))
#define V_LOG_5(f, a, b, c, d) (V_LOG_ARG(a), V_LOG_ARG(b), V_LOG_ARG(c), V_LOG_ARG(d))
#define V_LOG_6(f, a, b, c, d, e) (V_LOG_ARG(a), V_LOG_ARG(b), V_LOG_ARG(c), V_LOG_ARG(d), V_LOG_ARG(e))
#define V_LOG_N(f, a, b, c, d, e, N, ...) N
#if defined(V_LOG_TEXTS)
#define cyaml__log(cfg, level, ...) \
	(v_log_call(cfg, level), V_LOG_N(__VA_ARGS__, V_LOG_6, V_LOG_5, V_LOG_4, V_LOG_3, V_LOG_2, V_LOG_1)(__VA_ARGS__))
#elif !defined(V_REAL_LOG)
#define cyaml__log(cfg, level, ...) \
	(v_log_call(cfg, level), (void)(__VA_ARGS__))
#endif

/* ---- number parsing --------------------------------------------------- */
/* C11 7.22.1.4: returns the converted value; *end points into the string,
 * == start when no conversion; ERANGE iff the value was out of range. */

static inline void v_num_script(const char *s, char **end, int base)
{
	size_t used = g.num_pre ? g.num_used : (size_t)v_in_u64("num.used");
	V_ASSUME(used <= g.value_len);
	/* The text is a C string of length value_len: no NUL before its end. */
	V_ASSUME(used == g.value_len || s[used] != '\0');
	V_ASSERT("number parsing is applied to the scalar's own text", s == g.value);
	/* A minus sign, if any, is where the model put it in the text. */
	if (g.num_pre) {
		g.num_called = true;
		g.num_base = base;
		*end = (char *)(s + used);
		if (g.num_range) {
			errno = ERANGE;
		}
		return;
	}
	g.num_neg = v_in_bool("num.neg");
	V_ASSUME(g.num_neg == (g.value_len > 1 && s[0] == '-') || used == 0);
	g.num_called = true;
	g.num_base = base;
	g.num_range = v_in_bool("num.erange");
	V_ASSUME(!(g.num_range && used == 0));
	g.num_used = used;
	g.num_wellformed = used > 0 && used == g.value_len;
	if (end != NULL) {
		*end = (char *)(s + used);
	}
	if (g.num_range) {
		errno = ERANGE;
	}
}

static inline bool used_none(void) { return g.num_used == 0; }
static long long v_strtoll(const char *s, char **end, int base)
{
	v_num_script(s, end, base);
	V_ASSERT("this text is parsed as unsigned", !g.num_pre);
	g.num_ll = v_in_i64("num.ll");
	V_ASSUME(IMP(g.num_neg, g.num_ll <= 0) && IMP(!g.num_neg, g.num_ll >= 0));
	V_ASSUME(IMP(used_none(), g.num_ll == 0));
	if (g.num_range) {
		V_ASSUME(g.num_ll == INT64_MAX || g.num_ll == INT64_MIN);
	}
	return g.num_ll;
}
static unsigned long long v_strtoull(const char *s, char **end, int base)
{
	v_num_script(s, end, base);
	if (g.num_pre) { return g.num_ull; }
	g.num_ull = v_in_u64("num.ull"); /* negated modulo 2^64 when num_neg */
	V_ASSUME(IMP(used_none(), g.num_ull == 0));
	if (g.num_range) {
		V_ASSUME(g.num_ull == UINT64_MAX);
	}
	return g.num_ull;
}
static double v_strtod(const char *s, char **end)
{
	v_num_script(s, end, 10);
	g.num_d = v_in_f64("num.d");
	return g.num_d;
}
static inline intmax_t v_strtoimax(const char *s, char **end, int base)
{ return v_strtoll(s, end, base); }
static inline uintmax_t v_strtoumax(const char *s, char **end, int base)
{ return v_strtoull(s, end, base); }

#define strtoll   v_strtoll
#define strtol    v_strtoll
#define strtoimax v_strtoimax
#define strtoull  v_strtoull
#define strtoul   v_strtoull
#define strtoumax v_strtoumax
#define strtod    v_strtod

/* ---- memory primitives -------------------------------------------------- */
/* Byte by byte, exact up to V_MEM_MAX bytes; beyond that (long strings only) the
 * readability / writability of the whole range is asserted, and the content of
 * one arbitrary tracked byte g.mk and of the last byte is transferred (the rest of the
 * destination, which is freshly allocated or client memory with arbitrary
 * content, stays arbitrary). */
#define V_MEM_MAX 8
#ifdef V_CBMC
 #define V_R_OK(p, n) __CPROVER_r_ok(p, n)
 #define V_W_OK(p, n) __CPROVER_w_ok(p, n)
#else
 #define V_R_OK(p, n) 1
 #define V_W_OK(p, n) 1
#endif
#ifdef V_CBMC
static inline void *v_memset(void *p, int c, size_t n)
{
	uint8_t *b = p;
	if (n > 0) {
		V_ASSERT("memset target is writable", V_W_OK(p, n));
	}
#define B(k) if ((k) < n) { b[k] = (uint8_t)c; }
	B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7)
#undef B
	if (n > V_MEM_MAX) {
		b[n - 1] = (uint8_t)c;
		if (g.mk < n) { b[g.mk] = (uint8_t)c; }
	}
	return p;
}
static inline void *v_memcpy(void *d, const void *s, size_t n)
{
	uint8_t *b = d;
	const uint8_t *a = s;
	if (n > 0) {
		V_ASSERT("memcpy source is readable", V_R_OK(s, n));
		V_ASSERT("memcpy target is writable", V_W_OK(d, n));
	}
#define B(k) if ((k) < n) { b[k] = a[k]; }
	B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7)
#undef B
	if (n > V_MEM_MAX) {
		uint8_t l = a[n - 1];
		if (g.mk < n) { b[g.mk] = a[g.mk]; }
		b[n - 1] = l;
	}
	return d;
}
#undef memset
#undef memcpy
#undef memmove
#ifdef V_OWN_MEMSET
static void *v_own_memset(void *p, int c, size_t n);
#define memset v_own_memset
#else
#define memset v_memset
#endif
#ifdef V_OWN_MEMCPY
static void *v_own_memcpy(void *d, const void *s, size_t n);
#define memcpy v_own_memcpy
#else
#define memcpy v_memcpy
#endif
#define memmove v_memcpy
#endif

/* ---- string primitives on the scalar text ------------------------------- */
static inline size_t v_strlen(const char *s)
{
	if (s == g.value) {
		return g.value_len;
	}
	return strlen(s);
}
/* Position of the minus sign in a well-formed number; other uses arbitrary. */
static inline char *v_strchr(const char *s, int c)
{
	if (s == g.value && c == '-' && g.num_called && g.num_wellformed) {
		return g.num_neg ? (char *)s : NULL;
	}
	if (s == g.value) {
		return v_in_bool("strchr.found") ? (char *)s : NULL;
	}
	return strchr(s, c);
}
#define strlen v_strlen
#define strchr v_strchr

/* ---- allocator ---------------------------------------------------------- */

static void *v_mem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("allocator gets the client's mem_ctx", ctx == g.mem_ctx);
	if (size == 0) {
		if (ptr != NULL) {
			g.mem_frees++;
			free(ptr);
		}
		return NULL;
	}
	V_ASSERT("fresh allocation expected here", ptr == NULL);
	if (v_in_bool("mem.fail")) {
		g.mem_fails++;
		return NULL;
	}
	void *p = malloc(size);
	V_ASSUME(p != NULL);
	g.mem_allocs++;
	g.mem_last = p;
	g.mem_last_size = size;
	return p;
}

#endif
