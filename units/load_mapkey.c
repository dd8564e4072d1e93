/*
 * Mapping keys: contract on cyaml__map_key, any number of schema fields.
 * Calls to cyaml_get_next_event and cyaml__consume_ignored_value go to their
 * contracts.
 */
#define V_NAME_TABLE
#define V_UNIT_GHOSTS unsigned evs, consumed; cyaml_err_t ev_code, consume_code; \
	unsigned consume_type;
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include <yaml.h>
#include "fields.h"
static cyaml_bitfield_t *g_set;
static size_t g_words;
#include "load.c"
#include "load_env.h"

static cyaml_state_t *g_st;
static size_t g_tw;                /* one arbitrary tracked word of the bitmap */
static cyaml_bitfield_t g_tw_old, g_fw_old;

static cyaml_err_t cyaml_get_next_event(cyaml_ctx_t *ctx)
{
	g.evs++;
	V_ASSERT("nothing was consumed before the value's event", g.consumed == 0);
	if (v_in_bool("event.error")) {
		g.ev_code = (cyaml_err_t)v_in_u8("event.error.code");
		V_ASSUME(g.ev_code > CYAML_OK && g.ev_code < CYAML_ERR__COUNT);
		return g.ev_code;
	}
	/* a mapping key is always followed by its value */
	switch (v_in_u8("event.type") % 3) {
	case 0: ctx->event_ctx.event.type = YAML_SCALAR_EVENT; break;
	case 1: ctx->event_ctx.event.type = YAML_SEQUENCE_START_EVENT; break;
	default: ctx->event_ctx.event.type = YAML_MAPPING_START_EVENT; break;
	}
	return CYAML_OK;
}
static cyaml_err_t cyaml__consume_ignored_value(cyaml_ctx_t *ctx, cyaml_event_t t)
{
	g.consumed++;
	g.consume_type = t;
	V_ASSERT("the ignored value is the one that follows the key",
			g.evs == 1 && t == (cyaml_event_t)ctx->event_ctx.event.type);
	g.consume_code = (cyaml_err_t)v_in_u8("consume.result");
	V_ASSUME(g.consume_code < CYAML_ERR__COUNT);
	return g.consume_code;
}

/* contract of cyaml__get_mapping_field_idx, proved in unit load_fieldidx */
static inline uint16_t cyaml__get_mapping_field_idx(const cyaml_config_t *cfg,
		const cyaml_schema_value_t *schema, const char *key)
{
	V_ASSERT("the key's own text is looked up in the mapping's own schema",
			cfg == &g_cfg && schema->mapping.fields == g_tab && key == g.value);
	return g_first < g_count ? (uint16_t)g_first : CYAML_FIELDS_IDX_NONE;
}
#define FIELD (g_tab[g_first < g_count ? g_first : 0])
#define KNOWN (g_first < g_count)
#define WORD_BITS (8 * sizeof(cyaml_bitfield_t))
#define FWORD (KNOWN ? g_first / WORD_BITS : 0)
#define FBIT ((cyaml_bitfield_t)1 << (g_first % WORD_BITS))
#define SEEN (KNOWN && (g_fw_old & FBIT))
#define IGNORED (KNOWN && FIELD.value.type == CYAML_IGNORE)
#define UNKNOWN_OK ((g_cfg.flags & CYAML_CFG_IGNORE_UNKNOWN_KEYS) != 0)

#define CLAUSES(E) \
E("a key that names a schema field selects exactly that field for the value", \
	IMP(RET == CYAML_OK && KNOWN, g_st->state == CYAML_STATE_IN_MAP_VALUE && \
		g_st->mapping.fields_idx == g_first)) \
E("a key in the schema not seen before is accepted", \
	IMP(KNOWN && !SEEN, RET == CYAML_OK)) \
E("a repeated ignored field is accepted", IMP(IGNORED, RET == CYAML_OK)) \
E("a repeated key is rejected", \
	IMP(KNOWN && SEEN && !IGNORED, RET == CYAML_ERR_UNEXPECTED_EVENT)) \
E("an accepted field is recorded as present", \
	IMP(RET == CYAML_OK && KNOWN, (g_set[FWORD] & FBIT) != 0)) \
E("no other field is recorded as present", \
	IMP(g_words > 0, (g_set[g_tw] & ~(KNOWN && g_tw == FWORD ? FBIT : 0)) == \
		(g_tw_old & ~(KNOWN && g_tw == FWORD ? FBIT : 0)))) \
E("a key that is not in the schema is rejected unless unknown keys are ignored", \
	IMP(!KNOWN && !UNKNOWN_OK, RET == CYAML_ERR_INVALID_KEY && g.evs == 0)) \
E("the value of an ignored unknown key is skipped as a whole", \
	IMP(!KNOWN && UNKNOWN_OK && g.ev_code == CYAML_OK, \
		g.evs == 1 && g.consumed == 1 && RET == g.consume_code)) \
E("[P08,P10] an error getting the ignored value's event is passed on", \
	IMP(g.ev_code != CYAML_OK, RET == g.ev_code && g.consumed == 0)) \
E("an unknown key leaves the parser expecting a key", \
	IMP(!KNOWN, g_st->state == CYAML_STATE_IN_MAP_KEY)) \
E("a known key consumes no further event", IMP(KNOWN, g.evs == 0 && g.consumed == 0)) \
E("nothing is allocated or freed", g.mem_allocs == 0 && g.mem_frees == 0)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__map_key(cyaml_ctx_t *ctx, const yaml_event_t *event)
__CPROVER_assigns(GHOST, *g_st, g_ctx.event_ctx.event)
__CPROVER_assigns(g_count > 0: __CPROVER_object_whole(g_set))
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	cyaml_schema_value_t s = { 0 };
	s.type = CYAML_MAPPING;
	s.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	v_fields(&s);
	if (KNOWN) {
		g_tab[g_first].value.type = (cyaml_type_e)v_in_u8("field.type");
#if defined(V_CBMC) && !defined(V_BOUNDED)
		g_tab[g_first].key = g.names + g_first;
#endif
	}

	g_words = (g_count + WORD_BITS - 1) / WORD_BITS;
	g_set = NULL;
	if (g_words > 0) {
		g_set = malloc(g_words * sizeof(*g_set));
		V_ASSUME(g_set != NULL);
		V_FILL(g_set, 0, g_words * sizeof(*g_set));
		g_tw = v_in_u16("tracked.word");
		V_ASSUME(g_tw < g_words);
		g_set[g_tw] = v_in_u32("tracked.bits");
		if (g_tw != FWORD) {
			g_set[FWORD] = v_in_u32("field.bits");
		}
		g_tw_old = g_set[g_tw];
		g_fw_old = g_set[FWORD];
	}

	g_st = malloc(sizeof(*g_st));
	V_ASSUME(g_st != NULL);
	*g_st = (cyaml_state_t){ 0 };
	g_st->state = CYAML_STATE_IN_MAP_KEY;
	g_st->schema = &s;
	g_st->mapping.fields = g_tab;
	g_st->mapping.fields_count = (uint16_t)g_count;
	g_st->mapping.fields_set = g_set;
	g_ctx.state = g_ctx.stack = g_st;
	g_ctx.stack_idx = g_ctx.stack_max = 1;

	g_ctx.event_ctx.event = (yaml_event_t){ 0 };
	g_ctx.event_ctx.event.type = YAML_SCALAR_EVENT;
	g_ctx.event_ctx.event.data.scalar.value = (yaml_char_t *)v_text_reuse();
	g_ctx.event_ctx.event.data.scalar.length = g.value_len;

	cyaml_err_t v_ret = cyaml__map_key(&g_ctx, &g_ctx.event_ctx.event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
