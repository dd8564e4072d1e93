/*
 * Loading INT / UINT scalars: contract on cyaml__read_value.
 * Proves: value stored exactly, range and validator enforced, target untouched
 * on rejection, pointer allocation sized / zeroed / registered, OOM reported.
 */
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include "load.c"
#include "load_env.h"

#ifdef V_UINT
 #define KIND CYAML_UINT
 #define NUM  g.num_ull
 typedef uint64_t num_t;
 #define STORED(p, n) spec_uint_at(p, n)
 #define FITS(v, n) ((n) == 8 || ((v) >> (8 * (n))) == 0)
 #define SCH schema->unsigned_integer
 #define CBVAL g.cb_u
#else
 #define KIND CYAML_INT
 #define NUM  g.num_ll
 typedef int64_t num_t;
 #define STORED(p, n) spec_int_at(p, n)
 #define FITS(v, n) ((n) == 8 || ((v) >= -((int64_t)1 << (8 * (n) - 1)) && \
		(v) < ((int64_t)1 << (8 * (n) - 1))))
 #define SCH schema->integer
 #define CBVAL g.cb_i
#endif

#ifdef V_UINT
 /* -0 is zero; any other negative number has no unsigned representation */
 #define SIGN_OK (!g.num_neg || g.num_ull == 0)
#else
 #define SIGN_OK true
#endif
#define TEXT_OK (g.num_called && g.num_wellformed && !g.num_range && SIGN_OK)
#define IN_RANGE ((SCH.min == 0 && SCH.max == 0) || \
		(NUM >= SCH.min && NUM <= SCH.max))
#define STORABLE (TEXT_OK && SIZE_OK(g_size) && FITS(NUM, g_size) && IN_RANGE)
#define CB_SET (SCH.validation_cb != NULL)
#define CLAUSES(E) \
E("only a value that is well-formed, fits the storage and the declared range is accepted", \
	IMP(RET == CYAML_OK, STORABLE)) \
E("an acceptable value is accepted", \
	IMP(STORABLE && g.mem_fails == 0 && !CB_SET, RET == CYAML_OK)) \
E("the stored value is exactly the number in the document", \
	IMP(RET == CYAML_OK, STORED(TARGET, g_size) == NUM)) \
E("acceptance by the client's validator is required", \
	IMP(RET == CYAML_OK && CB_SET, g.cb_calls == 1 && g.cb_ret)) \
E("the validator sees the exact value, its schema and the client context", \
	IMP(g.cb_calls != 0, g.cb_calls == 1 && CBVAL == NUM && CB_OK_ARGS)) \
E("a validator veto is a failure", \
	IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE)) \
E("a validator acceptance leads to success", \
	IMP(g.cb_calls != 0 && g.cb_ret, RET == CYAML_OK)) \
E("a validator that is not set is not called", \
	IMP(!CB_SET, g.cb_calls == 0)) \
E("malformed, out-of-range or rejected values give INVALID_VALUE", \
	IMP(RET != CYAML_OK && g.mem_fails == 0 && SIZE_OK(g_size), \
	    RET == CYAML_ERR_INVALID_VALUE)) \
E("a pointer member gets one allocation of the declared size", \
	IMP(g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g_size)) \
SCALAR_CLAUSES(E)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(
		cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema,
		uint8_t *data,
		const yaml_event_t *event)
__CPROVER_requires(schema->type == KIND && event->type == YAML_SCALAR_EVENT)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
__CPROVER_assigns(!g_is_ptr && SIZE_OK(g_size): __CPROVER_object_upto(data, g_size))
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;

	v_env_init();
	v_scalar_schema(&s, KIND);
#ifdef V_UINT
	s.unsigned_integer.min = v_in_u64("schema.min");
	s.unsigned_integer.max = v_in_u64("schema.max");
	s.unsigned_integer.validation_cb = v_in_bool("schema.cb") ? v_cb_uint : NULL;
#else
	s.integer.min = v_in_i64("schema.min");
	s.integer.max = v_in_i64("schema.max");
	s.integer.validation_cb = v_in_bool("schema.cb") ? v_cb_int : NULL;
#endif
	yaml_event_t event = v_scalar_event();
	v_slot();

	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, schema, g_slot, &event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
