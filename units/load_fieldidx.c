/*
 * Looking up a mapping key in the schema: contract on
 * cyaml__get_mapping_field_idx, any number of schema fields.
 */
#define V_NAME_TABLE
#include "common.h"
#include "libc_model.h"
#include "fields.h"
#include "load.c"
#include "load_env.h"

#define CLAUSES(E) \
E("[P08,P21] the first field whose key matches the text is found, by the applicable case rule", \
	IMP(g_first < g_count, RET == g_first)) \
E("[P08,P21] no field is found when no key matches", \
	IMP(g_first >= g_count, RET == CYAML_FIELDS_IDX_NONE))
#ifdef V_CBMC
#define RET __CPROVER_return_value
static inline uint16_t cyaml__get_mapping_field_idx(const cyaml_config_t *cfg,
		const cyaml_schema_value_t *schema, const char *key)
__CPROVER_assigns(GHOST)
CLAUSES(V_ENS)
;
#undef RET
#endif
void harness(void)
{
	v_env_init();
	cyaml_schema_value_t s = { 0 };
	s.type = CYAML_MAPPING;
	s.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	v_fields(&s);
	const char *key = v_text_reuse();
	uint16_t v_ret = cyaml__get_mapping_field_idx(&g_cfg, &s, key);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
