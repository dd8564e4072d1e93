/*
 * Loading STRING scalars: contract on cyaml__read_value.
 * Any length; the content clause speaks of an arbitrary byte position g.mk.
 */
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include "load.c"
#include "load_env.h"

static char *g_out;          /* embedded char array of the client's struct */
static size_t g_out_size;
static size_t g_k;
static char g_out_old_k;
#define SMIN ((size_t)schema->string.min)
#define SMAX ((size_t)schema->string.max)
#define LEN_OK (SMIN <= SMAX && g.value_len >= SMIN && g.value_len <= SMAX)
#define CB_SET (schema->string.validation_cb != NULL)
#define STR (g_is_ptr ? (const char *)g.mem_last : (const char *)g_out)

#define CLAUSES(E) \
E("only text whose length is within the declared limits is accepted", \
	IMP(RET == CYAML_OK, LEN_OK)) \
E("acceptable text is accepted", \
	IMP(LEN_OK && g.mem_fails == 0 && !CB_SET, RET == CYAML_OK)) \
E("every byte of the text is stored, and a terminator follows it", \
	IMP(RET == CYAML_OK && g_k <= g.value_len, STR[g_k] == g.value[g_k])) \
E("the stored string has the text's length", \
	IMP(RET == CYAML_OK, STR[g.value_len] == '\0')) \
E("a pointer string gets exactly length plus terminator bytes", \
	IMP(g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && \
	    g.mem_last_size == g.value_len + 1)) \
E("an inconsistent schema is reported", \
	IMP(g.mem_fails == 0, (RET == CYAML_ERR_BAD_MIN_MAX_SCHEMA) == (SMIN > SMAX))) \
E("text that is too short or too long is reported as such", \
	IMP(g.mem_fails == 0 && SMIN <= SMAX, \
	    (RET == CYAML_ERR_STRING_LENGTH_MIN) == (g.value_len < SMIN) && \
	    (RET == CYAML_ERR_STRING_LENGTH_MAX) == (g.value_len > SMAX))) \
E("acceptance by the client's validator is required", \
	IMP(RET == CYAML_OK && CB_SET, g.cb_calls == 1 && g.cb_ret)) \
E("the validator sees the text, its schema and the client context", \
	IMP(g.cb_calls != 0, g.cb_calls == 1 && g.cb_ptr == (const void *)g.value && \
	    CB_OK_ARGS)) \
E("a validator veto is a failure", \
	IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE)) \
E("a validator that is not set is not called", IMP(!CB_SET, g.cb_calls == 0)) \
E("a rejected string leaves an embedded array untouched", \
	IMP(RET != CYAML_OK && !g_is_ptr && g_k < g_out_size, g_out[g_k] == g_out_old_k)) \
E("[P10] allocation failure gives OOM", \
	IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM)) \
E("an embedded member needs no allocation", \
	IMP(!g_is_ptr, g.mem_allocs == 0)) \
E("[P10] an allocation made is always reachable from the member", \
	IMP(g_is_ptr && g.mem_allocs != 0, g.mem_allocs == 1 && SLOT_PTR == g.mem_last)) \
E("nothing is freed", g.mem_frees == 0)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(
		cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema,
		uint8_t *data,
		const yaml_event_t *event)
__CPROVER_requires(schema->type == CYAML_STRING && event->type == YAML_SCALAR_EVENT)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
__CPROVER_assigns(!g_is_ptr: __CPROVER_object_whole(g_out))
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;

	v_env_init();
	v_scalar_schema(&s, CYAML_STRING);
	s.string.min = v_in_u32("schema.min");
	s.string.max = v_in_u32("schema.max");
	s.string.validation_cb = v_in_bool("schema.cb") ? v_cb_string : NULL;
	yaml_event_t event = v_scalar_event();
	v_slot();
	g_k = (size_t)v_in_u64("byte.position");
	g.mk = g_k;
	/* The client provides room for the longest string it allows. */
	g_out_size = (size_t)s.string.max + 1;
	V_ASSUME(g_is_ptr || g_out_size <= V_STR_MAX);
	g_out = malloc(g_is_ptr ? 1 : g_out_size);
	V_ASSUME(g_out != NULL);
	V_FILL(g_out, 'o', g_is_ptr ? 1 : g_out_size);
	if (g_k < g_out_size && !g_is_ptr) {
		g_out_old_k = g_out[g_k];
	}

	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, schema,
			g_is_ptr ? g_slot : (uint8_t *)g_out, &event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
