/*
 * Loading ENUM scalars: contract on cyaml__read_value, any table size.
 */
#define V_LOG_TEXTS
#include "common.h"
#define V_NAME_TABLE
#include "libc_model.h"
static cyaml_strval_t *g_tab;
static uint32_t g_count;
static size_t g_first;       /* first matching entry, g_count if none */
#include "load.c"
#include "load_env.h"

#define MATCHED (g_first < g_count)
#define STRICT ((schema->flags & CYAML_FLAG_STRICT) != 0)
#define NUM_OK (!STRICT && g.num_called && g.num_wellformed && !g.num_range)
#define FITS(v, n) ((n) == 8 || ((v) >= -((int64_t)1 << (8 * (n) - 1)) && \
		(v) < ((int64_t)1 << (8 * (n) - 1))))
#define VAL (MATCHED ? g_tab[g_first].val : g.num_ll)
#define STORABLE ((MATCHED || NUM_OK) && SIZE_OK(g_size) && FITS(VAL, g_size))
#define CB_SET (schema->enumeration.validation_cb != NULL)

#define CLAUSES(E) \
E("only a listed name, or (non-strict) a number, that fits the storage is accepted", \
	IMP(RET == CYAML_OK, STORABLE)) \
E("a listed name that fits the storage is accepted", \
	IMP(MATCHED && STORABLE && g.mem_fails == 0 && !CB_SET, RET == CYAML_OK)) \
E("without strict, a number that fits the storage is accepted", \
	IMP(STORABLE && g.mem_fails == 0 && !CB_SET, RET == CYAML_OK)) \
E("in strict mode an unlisted value is rejected", \
	IMP(STRICT && !MATCHED, RET != CYAML_OK)) \
E("[P02,P21] the stored value is that of the first listed name matching under the effective case rule", \
	IMP(RET == CYAML_OK && MATCHED, spec_int_at(TARGET, g_size) == g_tab[g_first].val)) \
E("the stored value of numeric text is exactly that number", \
	IMP(RET == CYAML_OK && !MATCHED, spec_int_at(TARGET, g_size) == g.num_ll)) \
E("acceptance by the client's validator is required", \
	IMP(RET == CYAML_OK && CB_SET, g.cb_calls == 1 && g.cb_ret)) \
E("the validator sees the exact value, its schema and the client context", \
	IMP(g.cb_calls != 0, g.cb_calls == 1 && g.cb_i == VAL && CB_OK_ARGS)) \
E("a validator veto is a failure", \
	IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE)) \
E("a validator that is not set is not called", IMP(!CB_SET, g.cb_calls == 0)) \
E("unacceptable values give INVALID_VALUE", \
	IMP(RET != CYAML_OK && g.mem_fails == 0 && SIZE_OK(g_size), \
	    RET == CYAML_ERR_INVALID_VALUE)) \
E("a pointer member gets one allocation of the declared size", \
	IMP(g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g_size)) \
SCALAR_CLAUSES(E)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(
		cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema,
		uint8_t *data,
		const yaml_event_t *event)
__CPROVER_requires(schema->type == CYAML_ENUM && event->type == YAML_SCALAR_EVENT)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
__CPROVER_assigns(!g_is_ptr && SIZE_OK(g_size): __CPROVER_object_upto(data, g_size))
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;

	v_env_init();
	v_scalar_schema(&s, CYAML_ENUM);
	s.enumeration.count = g_count = v_in_u32("schema.count");
	V_ASSUME(g_count <= V_TABLE_MAX);
	g_tab = v_strvals(g_count);
	s.enumeration.strings = g_tab;
	s.enumeration.validation_cb = v_in_bool("schema.cb") ? v_cb_int : NULL;
	g_first = R_IDX(&g_cfg, &s);
	yaml_event_t event = v_scalar_event();
	v_slot();

	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, schema, g_slot, &event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
