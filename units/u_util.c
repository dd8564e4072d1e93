/*
 * util.c, util.h, mem.c: diagnostics and the default callbacks.
 *   V_STRERR  cyaml_strerror        V_LOG   cyaml__log (variadic)
 *   V_STDLOG  cyaml_log             V_NAMES cyaml__state_to_str, cyaml__type_to_str
 *   V_MEM     cyaml_mem
 */
#define V_UNIT_GHOSTS unsigned n_log, n_free, n_realloc, n_prefix, n_msg; int w_level; void *w_ctx, *w_ptr; const char *w_fmt; const void *w_stream, *w_name; \
	size_t w_size; int w_i; long long w_ll; const char *w_s; void *w_args; bool order_ok;
#define V_REAL_LOG
#define V_OWN_CASECMP
#include <stdarg.h>
#include <stdio.h>
#include "common.h"
#include "libc_model.h"
#ifdef V_MEM
static void v_free(void *p) { g.n_free++; g.w_ptr = p; }
static void *v_realloc(void *p, size_t n)
{
	g.n_realloc++; g.w_ptr = p; g.w_size = n;
	return v_in_bool("fail") ? NULL : &g;
}
#define free v_free
#define realloc v_realloc
#include "mem.c"
#elif defined(V_STDLOG)
#undef fprintf
#undef vfprintf
static int v_fprintf(FILE *f, const char *fmt, const char *name)
{ g.n_prefix++; g.w_stream = f; g.w_name = name; g.order_ok = g.n_msg == 0; return 0; }
static int v_vfprintf(FILE *f, const char *fmt, va_list a)
{ g.n_msg++; g.w_fmt = fmt; V_ASSERT("everything goes to one stream", g.w_stream == f); return 0; }
#define fprintf v_fprintf
#define vfprintf v_vfprintf
#include "util.c"
#undef fprintf
#undef vfprintf
#else
#include "util.c"
#endif

/* exact comparison with a literal, without the C library */
static bool v_same(const char *a, const char *b)
{
	for (unsigned i = 0; i < 48; i++) {
		if (a[i] != b[i]) { return false; }
		if (a[i] == 0) { return true; }
	}
	return false;
}

#if defined(V_STRERR) /* ------------------------------------------------ */
/* every documented code and its message */
#define CODES(E) \
E(CYAML_OK, "Success") \
E(CYAML_ERR_OOM, "Memory allocation failed") \
E(CYAML_ERR_ALIAS, "YAML alias unsupported") \
E(CYAML_ERR_FILE_OPEN, "Could not open file") \
E(CYAML_ERR_INVALID_KEY, "Invalid key") \
E(CYAML_ERR_INVALID_VALUE, "Invalid value") \
E(CYAML_ERR_INVALID_ALIAS, "No anchor found for alias") \
E(CYAML_ERR_INTERNAL_ERROR, "Internal error") \
E(CYAML_ERR_UNEXPECTED_EVENT, "Unexpected event") \
E(CYAML_ERR_STRING_LENGTH_MIN, "String length too short") \
E(CYAML_ERR_STRING_LENGTH_MAX, "String length too long") \
E(CYAML_ERR_INVALID_DATA_SIZE, "Data size must be 0 < X <= 8 bytes") \
E(CYAML_ERR_TOP_LEVEL_NON_PTR, "Top-level schema value must be pointer") \
E(CYAML_ERR_BAD_TYPE_IN_SCHEMA, "Schema contains invalid type") \
E(CYAML_ERR_BAD_MIN_MAX_SCHEMA, "Bad schema: min exceeds max") \
E(CYAML_ERR_BAD_PARAM_SEQ_COUNT, "Bad parameter: seq_count") \
E(CYAML_ERR_BAD_PARAM_NULL_DATA, "Bad parameter: NULL data") \
E(CYAML_ERR_BAD_BITVAL_IN_SCHEMA, "Bit value beyond bitfield size") \
E(CYAML_ERR_SEQUENCE_ENTRIES_MIN, "Sequence with too few entries") \
E(CYAML_ERR_SEQUENCE_ENTRIES_MAX, "Sequence with too many entries") \
E(CYAML_ERR_SEQUENCE_FIXED_COUNT, "Sequence fixed has unequal min max") \
E(CYAML_ERR_SEQUENCE_IN_SEQUENCE, "Non-fixed sequence in sequence") \
E(CYAML_ERR_MAPPING_FIELD_MISSING, "Missing required mapping field") \
E(CYAML_ERR_BAD_CONFIG_NULL_MEMFN, "Bad config: NULL mem function") \
E(CYAML_ERR_BAD_PARAM_NULL_CONFIG, "Bad parameter: NULL config") \
E(CYAML_ERR_BAD_PARAM_NULL_SCHEMA, "Bad parameter: NULL schema") \
E(CYAML_ERR_DATA_TARGET_NON_NULL, "Data target must be NULL pointer") \
E(CYAML_ERR_LIBYAML_EMITTER_INIT, "libyaml emitter init failed") \
E(CYAML_ERR_LIBYAML_PARSER_INIT, "libyaml parser init failed") \
E(CYAML_ERR_LIBYAML_EVENT_INIT, "libyaml event init failed") \
E(CYAML_ERR_LIBYAML_EMITTER, "libyaml emitter error") \
E(CYAML_ERR_LIBYAML_PARSER, "libyaml parser error")
#ifdef V_CBMC
const char *cyaml_strerror(cyaml_err_t err)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value != NULL)
;
#define CLAUSES(E) E("there is always a message", RET != NULL)
#endif
void harness(void)
{
	uint32_t e = v_in_u32("err");
	const char *m = cyaml_strerror((cyaml_err_t)e);
	V_ASSERT("there is always a message", m != NULL);
	bool listed = false;
#define E(c, t) if (e == c) { listed = true; V_ASSERT(#c " has its own message", v_same(m, t)); }
	CODES(E)
#undef E
	V_ASSERT("every code below the count is a documented one", listed == (e < CYAML_ERR__COUNT));
	if (!listed) {
		V_ASSERT("any other value has the out-of-range message", v_same(m, "Invalid error code"));
	}
	uint32_t f = v_in_u32("err.2");
	if (e != f && e < CYAML_ERR__COUNT && f < CYAML_ERR__COUNT) {
		V_ASSERT("two codes never share a message", m != cyaml_strerror((cyaml_err_t)f));
	}
}
#elif defined(V_LOG) /* ------------------------------------------------- */
static void v_log_fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args)
{
	g.n_log++;
	g.w_level = level;
	g.w_ctx = ctx;
	g.w_fmt = fmt;
	g.w_i = va_arg(args, int);
	g.w_s = va_arg(args, const char *);
	g.w_ll = va_arg(args, long long);
}
void harness(void)
{
	cyaml_config_t c = { 0 }, before;
	int obj;
	cyaml_log_t level = (cyaml_log_t)v_in_u8("level");
	c.log_level = (cyaml_log_t)v_in_u8("cfg.level");
	c.flags = v_in_u32("cfg.flags");
	c.log_ctx = v_in_bool("cfg.ctx") ? &obj : NULL;
	c.log_fn = v_in_bool("cfg.log") ? v_log_fn : NULL;
	before = c;
	const char *fmt = "%d %s %lld", *s = "x";
	int i = v_in_i32("arg.1");
	long long ll = v_in_i64("arg.3");
	g.n_log = 0;
	cyaml__log(&c, level, fmt, i, s, ll);
	bool due = c.log_fn != NULL && level >= c.log_level;
	V_ASSERT("the client's function is called once for a message at or above the level, else not at all", g.n_log == (due ? 1 : 0));
	if (due) {
		V_ASSERT("it is given the message's level and the client's context", g.w_level == (int)level && g.w_ctx == c.log_ctx);
		V_ASSERT("it is given the message's format and arguments", g.w_fmt == fmt && g.w_i == i && g.w_s == s && g.w_ll == ll);
	}
	V_ASSERT("logging leaves the configuration alone", c.log_fn == before.log_fn && c.log_ctx == before.log_ctx &&
			c.log_level == before.log_level && c.flags == before.flags && c.mem_fn == before.mem_fn && c.mem_ctx == before.mem_ctx);
}
#elif defined(V_STDLOG) /* ---------------------------------------------- */
void harness(void)
{
	static const char *const names[] = { "DEBUG", "INFO", "NOTICE", "WARNING", "ERROR" };
	uint8_t level = v_in_u8("level");
	V_ASSUME(level <= CYAML_LOG_ERROR);
	g.n_prefix = g.n_msg = 0;
	va_list args;
	const char *fmt = "m";
	memset(&args, 0, sizeof(args));
	cyaml_log((cyaml_log_t)level, NULL, fmt, args);
	V_ASSERT("the level's name comes first, then the message, once each", g.n_prefix == 1 && g.n_msg == 1 && g.order_ok);
	V_ASSERT("the name is the one of the message's level", g.w_name != NULL && v_same(g.w_name, names[level]));
	V_ASSERT("the message is the caller's", g.w_fmt == fmt);
}
#elif defined(V_NAMES) /* ----------------------------------------------- */
void harness(void)
{
	uint32_t t = v_in_u32("type"), s = v_in_u32("state"), u = v_in_u32("other");
	const char *n = cyaml__type_to_str((cyaml_type_e)t), *m = cyaml__state_to_str((enum cyaml_state_e)s);
	V_ASSERT("every type and state value has a name, valid or not", n != NULL && m != NULL);
	V_ASSERT("only invalid types and states are called invalid", v_same(n, "<invalid>") == (t >= CYAML__TYPE_COUNT) &&
			v_same(m, "<invalid>") == (s >= CYAML_STATE__COUNT));
	V_ASSERT("two types never share a name", IMP(u != t && u < CYAML__TYPE_COUNT && t < CYAML__TYPE_COUNT, cyaml__type_to_str((cyaml_type_e)u) != n));
}
#elif defined(V_MEM) /* ------------------------------------------------- */
void harness(void)
{
	char blk;
	void *p = v_in_bool("block") ? &blk : NULL;
	size_t n = v_in_u64("size");
	g.n_free = g.n_realloc = 0;
	void *r = cyaml_mem(v_in_bool("ctx") ? &blk : NULL, p, n);
	V_ASSERT("a zero size frees the block and gives NULL", IMP(n == 0, r == NULL && g.n_free == 1 && g.n_realloc == 0 && g.w_ptr == p));
	V_ASSERT("any other size is (re)allocated, that block to that size", IMP(n != 0, g.n_realloc == 1 && g.n_free == 0 && g.w_ptr == p && g.w_size == n && (r == NULL || r == &g)));
}
#endif
