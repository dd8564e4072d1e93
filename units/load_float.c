/*
 * Loading FLOAT scalars: contract on cyaml__read_value.
 */
#include "common.h"
#include <float.h>
#include "libc_model.h"
#include "load.c"
#include "load_env.h"

static bool same_bits(const uint8_t *p, double d, uint32_t size)
{
	if (size == sizeof(float)) {
		float f, e = (float)d;
		uint8_t *x = (uint8_t *)&f;
		x[0] = p[0]; x[1] = p[1]; x[2] = p[2]; x[3] = p[3];
		return f == e || (f != f && e != e);
	} else {
		double f;
		uint8_t *x = (uint8_t *)&f;
		for (unsigned k = 0; k < 8; k++) { x[k] = p[k]; }
		return f == d || (f != f && d != d);
	}
}
#define TEXT_OK (g.num_called && g.num_wellformed)
#define STRICT ((schema->flags & CYAML_FLAG_STRICT) != 0)
#define IS_F (g_size == sizeof(float))
#define ABSD (g.num_d < 0 ? -g.num_d : g.num_d)
#define OVER (g.num_range || (IS_F && (ABSD > FLT_MAX)))
#define UNDER (IS_F && ABSD < FLT_MIN && (double)(float)g.num_d != g.num_d)
#define FSIZE_OK (g_size == sizeof(float) || g_size == sizeof(double))
#define CB_SET (schema->floating_point.validation_cb != NULL)

#define CLAUSES(E) \
E("only well-formed floating point text is accepted", \
	IMP(RET == CYAML_OK, TEXT_OK && FSIZE_OK)) \
E("strict values never overflow", \
	IMP(RET == CYAML_OK && STRICT, !OVER)) \
E("strict values never underflow", \
	IMP(RET == CYAML_OK && STRICT, !UNDER)) \
E("an acceptable value is accepted", \
	IMP(TEXT_OK && FSIZE_OK && g.mem_fails == 0 && !CB_SET && \
	    (!STRICT || (!OVER && !UNDER)), RET == CYAML_OK)) \
E("the stored value is the parsed value in the member's precision", \
	IMP(RET == CYAML_OK, same_bits(TARGET, g.num_d, g_size))) \
E("acceptance by the client's validator is required", \
	IMP(RET == CYAML_OK && CB_SET, g.cb_calls == 1 && g.cb_ret)) \
E("the validator sees the value to be stored, its schema and the client context", \
	IMP(g.cb_calls != 0, g.cb_calls == 1 && CB_OK_ARGS && \
	    (g.cb_d == (IS_F ? (double)(float)g.num_d : g.num_d) || g.num_d != g.num_d))) \
E("a validator veto is a failure", \
	IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE)) \
E("a validator that is not set is not called", IMP(!CB_SET, g.cb_calls == 0)) \
E("malformed or rejected values give INVALID_VALUE", \
	IMP(RET != CYAML_OK && g.mem_fails == 0 && FSIZE_OK, \
	    RET == CYAML_ERR_INVALID_VALUE)) \
E("a pointer member gets one allocation of the declared size", \
	IMP(g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g_size)) \
SCALAR_CLAUSES(E)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(
		cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema,
		uint8_t *data,
		const yaml_event_t *event)
__CPROVER_requires(schema->type == CYAML_FLOAT && event->type == YAML_SCALAR_EVENT)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
__CPROVER_assigns(!g_is_ptr && FSIZE_OK: __CPROVER_object_upto(data, g_size))
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;

	v_env_init();
	v_scalar_schema(&s, CYAML_FLOAT);
	s.floating_point.validation_cb = v_in_bool("schema.cb") ? v_cb_float : NULL;
	yaml_event_t event = v_scalar_event();
	v_slot();

	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, schema, g_slot, &event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
