/*
 * Loading BOOL scalars: contract on cyaml__read_value.
 */
#define V_OWN_CASECMP
#include "common.h"
/* The documented spellings of "false" (docs: everything else is true). */
#define V_NFALSE 5
static const char * const v_false[V_NFALSE] = {
	"false", "no", "off", "disable", "0",
};
#define V_UNIT_GHOSTS bool eq[V_NFALSE]; bool foreign;
#include "libc_model.h"

/* Contract of the case-insensitive comparison, relative to the text. */
static int v_casecmp(const void *a, const void *b)
{
	const char *o = a == (const void *)g.value ? b : a;
	V_ASSERT("the scalar text is what is compared", a == (const void *)g.value ||
			b == (const void *)g.value);
	for (unsigned k = 0; k < V_NFALSE; k++) {
		if (strcmp(o, v_false[k]) == 0) {
			return g.eq[k] ? 0 : 1;
		}
	}
	return v_in_bool("foreign.match") ? 0 : 1;
}
#include "utf8.h"
#define cyaml_utf8_casecmp v_casecmp
#include "load.c"
#include "load_env.h"

#define IS_FALSE (g.eq[0] || g.eq[1] || g.eq[2] || g.eq[3] || g.eq[4])
#define CLAUSES(E) \
E("a boolean that fits its storage always loads", \
	IMP(SIZE_OK(g_size) && g.mem_fails == 0, RET == CYAML_OK)) \
E("success implies a representable storage size", \
	IMP(RET == CYAML_OK, SIZE_OK(g_size))) \
E("false is stored exactly for the documented false spellings, true otherwise", \
	IMP(RET == CYAML_OK, spec_uint_at(TARGET, g_size) == (IS_FALSE ? 0 : 1))) \
E("a bad storage size is reported as such", \
	IMP(RET != CYAML_OK && g.mem_fails == 0 && (!g_is_ptr || g_size != 0), RET == CYAML_ERR_INVALID_DATA_SIZE)) \
E("a pointer member gets one allocation of the declared size", \
	IMP(g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g_size)) \
SCALAR_CLAUSES(E)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(
		cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema,
		uint8_t *data,
		const yaml_event_t *event)
__CPROVER_requires(schema->type == CYAML_BOOL && event->type == YAML_SCALAR_EVENT)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
__CPROVER_assigns(!g_is_ptr && SIZE_OK(g_size): __CPROVER_object_upto(data, g_size))
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };

	v_env_init();
	v_scalar_schema(&s, CYAML_BOOL);
	unsigned n = 0;
	for (unsigned k = 0; k < V_NFALSE; k++) {
		g.eq[k] = v_in_bool("matches.false.spelling");
		n += g.eq[k];
	}
	V_ASSUME(n <= 1);
	yaml_event_t event = v_scalar_event();
	v_slot();

	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, &s, g_slot, &event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
