/*
 * utf8.c and the text comparison of util.h.
 *   V_CP    cyaml_utf8_get_codepoint
 *   V_CMP   cyaml_utf8_casecmp, strings of any length (loop contract)
 *   V_LEMMA the per-character order used by V_CMP's contract is reflexive,
 *           antisymmetric and total; character steps stay inside the string
 *   V_RULE  cyaml__strcmp / cyaml__is_case_sensitive: which rule applies
 *
 * A string is read as a sequence of characters ("keys").  key(s):
 *   END       at the terminator
 *   BAD       a byte that can not start a character (one byte is consumed)
 *   1+fold(c) otherwise, c the code point, U+FFFD when the sequence is
 *             truncated (only its well-formed bytes are consumed) or overlong
 * ordered BAD < 1+fold(c) < END.  The comparison walks both strings key by key:
 * the loop contract carries "all earlier keys are equal and the positions are
 * the ones reached by consuming exactly those characters"; on return the result
 * is the order of the current keys, zero only at both ends.  By induction on
 * the common prefix this is the lexicographic order of the key sequences.
 */
#define V_UNIT_GHOSTS size_t o1, o2; uint32_t k1, k2; unsigned cp, used, len0; bool eq; unsigned n_sens, n_ins; const void *w1, *w2; int code;
#define V_OWN_CASECMP
#include "common.h"
#ifdef V_RULE
#include "utf8.h"
static int v_ci(const void *a, const void *b);
static int v_cs(const char *a, const char *b);
#define cyaml_utf8_casecmp v_ci
#define strcmp v_cs
#endif
#include "libc_model.h"

#define KEY_BAD 0u
#define KEY_END 0xffffffffu
static uint8_t *g_s1, *g_s2;
static size_t g_n1, g_n2;   /* bytes including the terminator */

/* ---- specification ----------------------------------------------------- */
/* bytes announced by a lead byte (0: can not start a character) */
static unsigned v_clen(uint8_t b)
{
	return b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0;
}
#define CONT(b) ((b) >= 0x80 && (b) <= 0xbf)
/* the code point at s, whose first byte announces len bytes; *used: bytes it takes */
static uint32_t v_cp(const uint8_t *s, unsigned len, unsigned *used)
{
	*used = len;
	if (len == 1) {
		return s[0];
	}
	if (len < 2 || len > 4) {
		return 0xfffd;
	}
	if (!CONT(s[1])) { *used = 1; return 0xfffd; }
	if (len == 2) {
		uint32_t c = (uint32_t)(s[0] & 0x1f) * 64 + (s[1] & 0x3f);
		return c < 0x80 ? 0xfffd : c;
	}
	if (!CONT(s[2])) { *used = 2; return 0xfffd; }
	if (len == 3) {
		uint32_t c = ((uint32_t)(s[0] & 0x0f) * 64 + (s[1] & 0x3f)) * 64 + (s[2] & 0x3f);
		return c < 0x800 ? 0xfffd : c;
	}
	if (!CONT(s[3])) { *used = 3; return 0xfffd; }
	{
		uint32_t c = (((uint32_t)(s[0] & 0x07) * 64 + (s[1] & 0x3f)) * 64 + (s[2] & 0x3f)) * 64 + (s[3] & 0x3f);
		return c < 0x10000 ? 0xfffd : c;
	}
}
/* upper/lower pairs of the Latin blocks: the member both are folded to */
#define EVEN(lo, hi) if (c >= (lo) && c <= (hi)) { return c - c % 2; }
#define ODD(lo, hi)  if (c >= (lo) && c <= (hi)) { return c + c % 2; }
#define ONE(u, l)    if (c == (u)) { return (l); }
static uint32_t v_fold(uint32_t c)
{
	if ((c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7)) { return c + 32; }
	if (c < 0x100 || c > 0x24f) { return c; }
	EVEN(0x100, 0x12f) EVEN(0x132, 0x137) EVEN(0x14a, 0x177) EVEN(0x182, 0x185) EVEN(0x1a0, 0x1a5)
	EVEN(0x1de, 0x1ef) EVEN(0x1f8, 0x21f) EVEN(0x222, 0x233) EVEN(0x246, 0x24f)
	ODD(0x139, 0x148) ODD(0x179, 0x17e) ODD(0x1b3, 0x1b6) ODD(0x1cd, 0x1dc)
	ONE(0x178, 0xff) ONE(0x187, 0x188) ONE(0x18b, 0x18c) ONE(0x18e, 0x1dd) ONE(0x191, 0x192) ONE(0x198, 0x199)
	ONE(0x1a7, 0x1a8) ONE(0x1ac, 0x1ad) ONE(0x1af, 0x1b0) ONE(0x1b7, 0x292) ONE(0x1b8, 0x1b9) ONE(0x1bc, 0x1bd)
	ONE(0x1c4, 0x1c6) ONE(0x1c5, 0x1c6) ONE(0x1c7, 0x1c9) ONE(0x1c8, 0x1c9) ONE(0x1ca, 0x1cc) ONE(0x1cb, 0x1cc)
	ONE(0x1f1, 0x1f3) ONE(0x1f2, 0x1f3) ONE(0x1f4, 0x1f5) ONE(0x1f7, 0x1bf) ONE(0x220, 0x19e) ONE(0x23b, 0x23c)
	ONE(0x23d, 0x19a) ONE(0x241, 0x242) ONE(0x243, 0x180)
	return c;
}
static uint32_t v_key(const uint8_t *s, unsigned *used)
{
	unsigned len = v_clen(s[0]);
	if (s[0] == 0) { *used = 0; return KEY_END; }
	if (len == 0) { *used = 1; return KEY_BAD; }
	return 1 + v_fold(v_cp(s, len, used));
}
#define ORDER(a, b) ((a) < (b) ? -1 : (a) > (b) ? 1 : 0)
#define SIGN(r) ((r) < 0 ? -1 : (r) > 0 ? 1 : 0)

/* ghost: one iteration starts */
static void v_iter(const uint8_t *p, const uint8_t *q)
{
	unsigned u1, u2;
	g.k1 = v_key(p, &u1);
	g.k2 = v_key(q, &u2);
	g.eq = g.k1 == g.k2;
	g.o1 += u1;
	g.o2 += u2;
}
#ifdef V_RULE
static int v_ci(const void *a, const void *b)
{
	g.n_ins++; g.w1 = a; g.w2 = b;
	return g.code;
}
static int v_cs(const char *a, const char *b)
{
	g.n_sens++; g.w1 = a; g.w2 = b;
	return g.code;
}
#else
#include "utf8.c"
#endif

#ifdef V_CMP
/* contract of cyaml_utf8_get_codepoint (utf8_codepoint) */
unsigned cyaml_utf8_get_codepoint(const uint8_t *s, unsigned *len)
{
	V_ASSERT("the length given is the one the first byte announces", *len == v_clen(s[0]) && *len != 0);
	return v_cp(s, *len, len);
}
#endif
static uint8_t *v_string(size_t n)
{
	uint8_t *s = malloc(n);
	V_ASSUME(s != NULL);
	return s;
}
/* short strings, for the bounded check and the replay */
static void v_short(uint8_t *s, size_t n, int second)
{
	uint8_t b[5];
	b[0] = v_in_u8("byte.0"); b[1] = v_in_u8("byte.1"); b[2] = v_in_u8("byte.2"); b[3] = v_in_u8("byte.3"); b[4] = v_in_u8("byte.4");
	(void)second;
	for (size_t i = 0; i < 5; i++) {
		if (i + 1 < n) { s[i] = b[i]; }
	}
	s[n - 1] = 0;
}

#if defined(V_CP) /* ---------------------------------------------------- */
#define CLAUSES(E) \
E("the code point is the one encoded, U+FFFD for a truncated, overlong or impossible sequence", RET == g.cp) \
E("the length is the bytes the character takes; the byte that broke a sequence is not consumed", *len == g.used)
#ifdef V_CBMC
#define RET __CPROVER_return_value
unsigned cyaml_utf8_get_codepoint(const uint8_t *s, unsigned *len)
__CPROVER_assigns(*len)
CLAUSES(V_ENS)
;
#undef RET
#endif
void harness(void)
{
	size_t n = v_in_u8("length");
	V_ASSUME(n >= 1 && n <= 6);
	g_s1 = v_string(n);
	v_short(g_s1, n, 0);
	unsigned l = v_in_u32("len");
	V_ASSUME(l == v_clen(g_s1[0]) || l == 0 || l > 4);
	g.cp = v_cp(g_s1, l, &g.used);
	unsigned *len = &l;
	unsigned v_ret = cyaml_utf8_get_codepoint(g_s1, len);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
#elif defined(V_CMP) /* ------------------------------------------------- */
#define CLAUSES(E) \
E("equal is returned only when both strings ended together, after equal characters", IMP(RET == 0, g.k1 == KEY_END && g.k2 == KEY_END)) \
E("a difference is the order of the first characters that differ", SIGN(RET) == ORDER(g.k1, g.k2))
#ifdef V_CBMC
#define RET __CPROVER_return_value
int cyaml_utf8_casecmp(const void * const str1, const void * const str2)
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif
void harness(void)
{
	g_n1 = v_in_u32("length.1");
	g_n2 = v_in_u32("length.2");
	V_ASSUME(g_n1 >= 1 && g_n2 >= 1);
	g.o1 = g.o2 = 0;
	g.eq = true;
#if defined(V_BOUNDED) || defined(V_NATIVE)
	V_ASSUME(g_n1 <= 6 && g_n2 <= 6);
	g_s1 = v_string(g_n1);
	g_s2 = v_string(g_n2);
	v_short(g_s1, g_n1, 0);
	v_short(g_s2, g_n2, 1);
	for (int i = 0; i < 7; i++) {
		v_iter(g_s1 + g.o1, g_s2 + g.o2);
		if (!g.eq || g.k1 == KEY_END) { break; }
	}
#else
	V_ASSUME(g_n1 <= 0x7fffffff && g_n2 <= 0x7fffffff);
	g_s1 = v_string(g_n1);
	g_s2 = v_string(g_n2);
	g_s1[g_n1 - 1] = 0;
	g_s2[g_n2 - 1] = 0;
#endif
	int v_ret = cyaml_utf8_casecmp(g_s1, g_s2);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
#elif defined(V_LEMMA) /* ----------------------------------------------- */
void harness(void)
{
	size_t n = v_in_u8("length");
	V_ASSUME(n >= 1 && n <= 6);
	uint8_t *s = v_string(n);
	v_short(s, n, 0);
	unsigned u, w;
	uint32_t a = v_key(s, &u), b = v_in_u32("key"), c = v_in_u32("key.2");
	V_ASSERT("a character ends at or before the terminator", u < n || (u == 0 && n == 1));
	V_ASSERT("every character takes at least a byte, the terminator none", (u == 0) == (s[0] == 0));
	V_ASSERT("characters of a string differ from its end", (a == KEY_END) == (s[0] == 0));
	V_ASSERT("reading again gives the same character", v_key(s, &w) == a && w == u);
	V_ASSERT("the order is reflexive", ORDER(a, a) == 0);
	V_ASSERT("the order is antisymmetric", ORDER(a, b) == -ORDER(b, a));
	V_ASSERT("the order is transitive", IMP(ORDER(a, b) <= 0 && ORDER(b, c) <= 0, ORDER(a, c) <= 0));
	uint32_t f = v_in_u32("codepoint");
	V_ASSERT("folding is idempotent", v_fold(v_fold(f)) == v_fold(f));
}
#elif defined(V_RULE) /* ------------------------------------------------ */
void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	cyaml_config_t c = { 0 };
	s.type = (cyaml_type_e)v_in_u32("schema.type");
	s.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	c.flags = v_in_u32("cfg.flags");
	g.code = v_in_i32("comparison");
	g.n_ins = g.n_sens = 0;
	bool ins = (s.flags & CYAML_FLAG_CASE_INSENSITIVE) ? true : (s.flags & CYAML_FLAG_CASE_SENSITIVE) ? false :
			(c.flags & CYAML_CFG_CASE_INSENSITIVE) != 0;
	char a[2] = "a", b[2] = "b";
	int r = cyaml__strcmp(&c, &s, a, b);
	V_ASSERT("exactly one comparison is made, by the rule the flags' precedence selects", g.n_ins == (ins ? 1 : 0) && g.n_sens == (ins ? 0 : 1));
	V_ASSERT("the two texts given are what is compared", (g.w1 == a && g.w2 == b) || (g.w1 == b && g.w2 == a));
	V_ASSERT("texts are equal exactly when the comparison says so", (r == 0) == (g.code == 0));
	V_ASSERT("the rule asked for is the rule applied", cyaml__is_case_sensitive(&c, &s) == !ins);
}
#endif
